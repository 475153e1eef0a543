------------------------------- MODULE TimeAgg -------------------------------
(* Functions that assign the steps of a time axis (or the points of any axis) to intervals: bounds of cells, yearly     *)
(* means of months, means of the months of the year over all years, years spread over their months.  The calendar is   *)
(* the one without leap years; the steps of a time axis are marked at their ends, and those of years are moved from the  *)
(* end to the beginning (by one year).                                                                               *)
EXTENDS Phys
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
YearDays == 365
RECURSIVE DaysBefore(_)
DaysBefore(m) == IF m = 1 THEN 0 ELSE DaysBefore(m - 1) + MonthDays[m - 1]
Month(k) == ((k - 1) % 12) + 1
Steps(A) == A.shape[1]
RowLen(A) == Prod(Tail(A.shape))
Rows(A, n, C(_, _)) == [A EXCEPT !.shape = <<n>> \o Tail(A.shape), !.dt = "f",
                                 !.c = TLCEval([k \in 1 .. n * RowLen(A) |-> C(((k - 1) \div RowLen(A)) + 1, (k - 1) % RowLen(A))])]
CellAt(A, r, j) == A.c[(r - 1) * RowLen(A) + j + 1]
(* the steps that belong to a year, or to a month of the year, and their weights *)
YearOf(k) == ((k - 1) \div 12) + 1
Years(n) == n \div 12
InYear(n, y) == [i \in 1 .. 12 |-> 12 * (y - 1) + i]
InMonth(n, m) == IF m > n THEN <<>> ELSE [i \in 1 .. ((n - m) \div 12) + 1 |-> m + 12 * (i - 1)]
RECURSIVE SumUp(_, _, _)
SumUp(A, ws, j) == IF ws = <<>> THEN Zero ELSE RAdd(RMul(CellAt(A, ws[1][1], j), I2R(ws[1][2])), SumUp(A, Tail(ws), j))
RECURSIVE SumW(_)
SumW(ws) == IF ws = <<>> THEN 0 ELSE ws[1][2] + SumW(Tail(ws))
(* a mean over steps of which one is missing is missing; without a step there is none *)
Weighted(A, ws, j) == IF ws = <<>> THEN Missing ELSE RDiv(SumUp(A, ws, j), I2R(SumW(ws)))
ByDays(s) == [i \in DOMAIN s |-> <<s[i], MonthDays[Month(s[i])]>>]
Equally(s) == [i \in DOMAIN s |-> <<s[i], 1>>]
IsField(A) == Len(A.dims) \in {3, 4}
YearlyMean(A) == IF A.err # "" THEN A ELSE IF ~IsField(A) THEN Refused("dims")
                 ELSE IF Years(Steps(A)) = 0 THEN Refused("unmodelled")
                 ELSE Rows(A, Years(Steps(A)), LAMBDA y, j : Weighted(A, ByDays(InYear(Steps(A), y)), j))
MonthlyClimatology(A) == IF A.err # "" THEN A ELSE IF ~IsField(A) THEN Refused("dims")
                 ELSE Rows(A, 12, LAMBDA m, j : Weighted(A, Equally(InMonth(Steps(A), m)), j))
(* intervals: arrays with a second dimension of two *)
IsIntervals(A) == Len(A.dims) = 2 /\ A.shape[2] = 2
NoDir(A) == [A EXCEPT !.pos = ""]
Interval(dims, u, n, F(_)) == Arr(dims, <<n, 2>>, [k \in 1 .. 2 * n |-> F(((k - 1) \div 2) + 1)[((k - 1) % 2) + 1]], u, "", "f")
Axis(dim, u, n, F(_)) == Arr(<<dim>>, <<n>>, [k \in 1 .. n |-> F(k)], u, "", "f")
Middle(x, y) == RDiv(RAdd(x, y), I2R(2))
YearEarlier(x) == RSub(x, I2R(YearDays))
LowerOf(A, k) == CellAt(A, k, 0)
UpperOf(A, k) == CellAt(A, k, 1)
YearBounds(A, b) == IF A.err # "" THEN A ELSE IF ~IsIntervals(A) \/ Years(Steps(A)) = 0 THEN Refused("unmodelled")
  ELSE Interval(<<A.dims[1], b>>, A.u, Years(Steps(A)), LAMBDA y : <<YearEarlier(LowerOf(A, 12 * y - 11)), YearEarlier(UpperOf(A, 12 * y))>>)
YearTimes(A) == IF A.err # "" THEN A ELSE IF ~IsIntervals(A) \/ Years(Steps(A)) = 0 THEN Refused("unmodelled")
  ELSE Axis(A.dims[1], A.u, Years(Steps(A)), LAMBDA y : YearEarlier(Middle(LowerOf(A, 12 * y - 11), UpperOf(A, 12 * y))))
ClimTimes(A) == IF A.err # "" THEN A ELSE IF ~IsIntervals(A) THEN Refused("unmodelled") ELSE IF Steps(A) < 12 THEN Refused("short")
  ELSE Axis(A.dims[1], A.u, 12, LAMBDA m : Middle(LowerOf(A, m), UpperOf(A, m)))
ClimBounds(A, b) == IF A.err # "" THEN A ELSE IF Len(A.dims) # 1 THEN Refused("unmodelled") ELSE IF Steps(A) < 12 THEN Refused("short")
  ELSE Interval(<<A.dims[1], b>>, A.u, 12, LAMBDA m : LET s == InMonth(Steps(A), m) IN <<RSub(A.c[m], I2R(MonthDays[m])), A.c[s[Len(s)]]>>)
(* years that are marked at time 0 are left out *)
RECURSIVE Marked(_, _)
Marked(T, k) == IF k > Len(T.c) THEN <<>> ELSE (IF T.c[k] = Zero THEN <<>> ELSE <<k>>) \o Marked(T, k + 1)
Spread(A, T, space) ==
  IF A.err # "" THEN A ELSE IF T.err # "" THEN T
  ELSE LET dims == <<T.dims[1]>> \o [i \in DOMAIN space |-> space[i].dims[1]]
           B == Transpose(A, dims)
           y == Marked(T, 1)
       IN IF B.err # "" THEN B ELSE IF y = <<>> THEN Refused("unmodelled") ELSE Rows(B, 12 * Len(y), LAMBDA k, j : CellAt(B, y[YearOf(k)], j))
SpreadTimes(T) ==
  IF T.err # "" THEN T ELSE IF Len(T.dims) # 1 THEN Refused("unmodelled")
  ELSE LET y == Marked(T, 1) IN
       IF y = <<>> THEN Refused("unmodelled")
       ELSE Axis(T.dims[1], T.u, 12 * Len(y), LAMBDA k :
              RAdd(RSub(T.c[y[YearOf(k)]], I2R(YearDays - DaysBefore(Month(k)))), <<MonthDays[Month(k)], 2>>))
(* ---- bounds of the cells of an axis whose points are at the beginning (0), in the middle (1) or at the end (2)        *)
Faces(A, loc, ends) ==
  LET n == Steps(A)
      x(k) == A.c[k]
      step(k) == RSub(x(k + 1), x(k))
      half(k) == RDiv(step(k), I2R(2))
      last == IF n = 1 THEN Missing ELSE step(n - 1)
      lo(k) == CASE loc = 0 -> x(k)
                 [] loc = 1 -> IF k > 1 THEN RSub(x(k), half(k - 1)) ELSE IF ends THEN RSub(x(1), half(1)) ELSE x(1)
                 [] OTHER -> IF k > 1 THEN x(k - 1) ELSE IF ends THEN RSub(x(1), step(1)) ELSE x(1)
      hi(k) == CASE loc = 0 -> IF k < n THEN x(k + 1) ELSE IF ends THEN RAdd(x(n), step(n - 1)) ELSE x(n)
                 [] loc = 1 -> IF k < n THEN RAdd(x(k), half(k)) ELSE IF ends THEN RAdd(x(n), half(n - 1)) ELSE x(n)
                 [] OTHER -> x(k)
  IN [k \in 1 .. n |-> <<lo(k), hi(k)>>]
Between(A, I, loc) ==
  LET n == Steps(A) m == Steps(I)
      inner == IF m = n + 1 THEN I.c
               ELSE <<CASE loc = 0 -> A.c[1] [] loc = 1 -> RSub(RMul(I2R(2), A.c[1]), I.c[1]) [] OTHER -> RSub(RMul(I2R(2), A.c[1]), A.c[2])>> \o I.c
                 \o <<CASE loc = 0 -> RSub(RMul(I2R(2), A.c[n]), A.c[n - 1]) [] loc = 1 -> RSub(RMul(I2R(2), A.c[n]), I.c[m]) [] OTHER -> A.c[n]>>
  IN [k \in 1 .. n |-> <<inner[k], inner[k + 1]>>]
(* I: the faces between the cells, if they are given (n + 1, or n - 1 of them) *)
Bounds(A, b, loc, ends, I) ==
  IF A.err # "" THEN A
  ELSE IF loc \notin {0, 1, 2} THEN Refused("location")
  ELSE IF Len(A.dims) # 1 THEN Refused("dims")
  ELSE LET n == Steps(A)
           result(f, dt) == [Interval(<<A.dims[1], b>>, A.u, n, LAMBDA k : f[k]) EXCEPT !.pos = A.pos, !.dt = dt]
       IN IF b = A.dims[1] \/ Missing \in SetOf(A.c) THEN Refused("unmodelled")
          ELSE IF I = <<>> THEN (IF n = 1 /\ ends THEN Refused("one cell") ELSE IF n = 1 THEN Refused("unmodelled") ELSE result(Faces(A, loc, ends), IF loc = 1 THEN "f" ELSE A.dt))
          ELSE LET J == Conv(I[1], A.u) IN
               IF I[1].err # "" THEN I[1] ELSE IF Len(I[1].dims) # 1 THEN Refused("dims")
               ELSE IF J.err # "" THEN J
               ELSE IF Steps(J) \notin {n - 1, n + 1} THEN Refused("faces")
               ELSE IF n = 1 \/ Missing \in SetOf(J.c) THEN Refused("unmodelled")
               ELSE result(Between(A, J, loc), DtOf(A, J))
=============================================================================
