------------------------------ MODULE MC_TimeAgg ------------------------------
(* A clock of months in the calendar without leap years starts anywhere and emits steps one by one, each marked at     *)
(* its end.  At any time the steps so far are divided into years, months of the year and cells.                        *)
EXTENDS TimeAgg, Dates
CONSTANTS Starts, MaxSteps, Widths, MaxCells
VARIABLES start, times, widths
vars == <<start, times, widths>>
(* times of months; widths of the cells of another axis *)
Init == start \in {s - 400 : s \in Starts} /\ times = <<>> /\ widths = <<>>
Emit == /\ Len(times) < MaxSteps /\ widths = <<>>
        /\ times' = Append(times, (IF times = <<>> THEN start ELSE times[Len(times)]) + MonthDays[Month(Len(times) + 1)])
        /\ UNCHANGED <<start, widths>>
Widen == Len(widths) < MaxCells /\ times = <<>> /\ \E w \in Widths : widths' = Append(widths, w) /\ UNCHANGED <<start, times>>
Next == Emit \/ Widen
Spec == Init /\ [][Next]_vars
N == Len(times)
TU == TimeRef(86400, DayNum("noleap", 1850, 1, 1), 0, "noleap")
Ends == Arr(<<"t">>, <<N>>, [k \in 1 .. N |-> I2R(times[k])], TU, "", "f")
Cells == Interval(<<"t", "b">>, TU, N, LAMBDA k : <<I2R(times[k] - MonthDays[Month(k)]), I2R(times[k])>>)
MonthField(F(_)) == Arr(<<"t", "y", "x">>, <<N, 1, 1>>, [k \in 1 .. N |-> F(k)], UOne, "", "f")
Whole == N % 12 = 0 /\ N > 0
(* every step of complete years belongs to one year, and every step to one month *)
Partition == /\ \A k \in 1 .. 12 * Years(N) : Cardinality({y \in 1 .. Years(N) : k \in SetOf(InYear(N, y))}) = 1
             /\ \A k \in 1 .. N : Cardinality({m \in 1 .. 12 : k \in SetOf(InMonth(N, m))}) = 1
             /\ \A y \in 1 .. Years(N) : SumW(ByDays(InYear(N, y))) = YearDays
(* the mean of a constant is the constant; that of the marks of a single step is its share *)
Shares == Whole => /\ \A y \in 1 .. Years(N) : YearlyMean(MonthField(LAMBDA k : One)).c[y] = One
                   /\ \A s \in 1 .. N : LET Y == YearlyMean(MonthField(LAMBDA k : IF k = s THEN One ELSE Zero)) IN
                        \A y \in 1 .. Years(N) : Y.c[y] = IF YearOf(s) = y THEN Norm(MonthDays[Month(s)], YearDays) ELSE Zero
(* the middle of a year is the mean of the middles of its months, and of what else is linear in time *)
Linear == Whole => \A y \in 1 .. Years(N) :
             YearlyMean(MonthField(LAMBDA k : Middle(LowerOf(Cells, k), UpperOf(Cells, k)))).c[y] = RAdd(YearTimes(Cells).c[y], I2R(YearDays))
(* intervals of years follow each other, contain their times, and cover all months *)
YearsMeet == Whole => LET B == YearBounds(Cells, "b") T == YearTimes(Cells) IN
  /\ \A y \in 1 .. (Years(N) - 1) : UpperOf(B, y) = LowerOf(B, y + 1)
  /\ \A y \in 1 .. Years(N) : RSub(UpperOf(B, y), LowerOf(B, y)) = I2R(YearDays) /\ RLt(LowerOf(B, y), T.c[y]) /\ RLt(T.c[y], UpperOf(B, y))
  /\ LowerOf(B, 1) = YearEarlier(LowerOf(Cells, 1)) /\ UpperOf(B, Years(N)) = YearEarlier(UpperOf(Cells, N))
(* a climatological month extends from its beginning in the first year to its end in the last *)
Climate == N >= 12 => LET B == ClimBounds(Ends, "b") T == ClimTimes(Cells) IN
  \A m \in 1 .. 12 : LET s == InMonth(N, m) IN
     /\ LowerOf(B, m) = LowerOf(Cells, m) /\ UpperOf(B, m) = UpperOf(Cells, s[Len(s)])
     /\ RLt(LowerOf(B, m), T.c[m]) /\ RLt(T.c[m], UpperOf(B, m))
     /\ RSub(UpperOf(B, m), LowerOf(B, m)) = I2R(MonthDays[m] + YearDays * (Len(s) - 1))
(* years spread over months, and the months taken together again, are the years *)
YearEnds == LET n == Years(N) IN Arr(<<"t">>, <<n>>, [y \in 1 .. n |-> I2R(times[12 * y])], TU, "", "f")
Back == (Whole /\ Zero \notin SetOf(YearEnds.c)) =>
  LET n == Years(N)
      sp == Arr(<<"x">>, <<1>>, <<One>>, UOne, "", "f")
      A == Arr(<<"t", "y", "x">>, <<n, 1, 1>>, [y \in 1 .. n |-> I2R(7 * y)], UOne, "", "f")
      S == Spread(A, YearEnds, <<[sp EXCEPT !.dims = <<"y">>], sp>>)
  IN /\ Steps(S) = N /\ YearlyMean(S).c = A.c
     /\ \A k \in 1 .. N : SpreadTimes(YearEnds).c[k] = Middle(LowerOf(Cells, k), UpperOf(Cells, k))
(* ---- cells of an axis *)
RECURSIVE EdgeAt(_)
EdgeAt(k) == IF k = 0 THEN start ELSE EdgeAt(k - 1) + widths[k]
M == Len(widths)
Points(loc) == Arr(<<"x">>, <<M>>, [k \in 1 .. M |-> CASE loc = 0 -> I2R(EdgeAt(k - 1)) [] loc = 1 -> Middle(I2R(EdgeAt(k - 1)), I2R(EdgeAt(k))) [] OTHER -> I2R(EdgeAt(k))], UOne, "", "f")
TrueFaces == Arr(<<"f">>, <<M + 1>>, [k \in 1 .. (M + 1) |-> I2R(EdgeAt(k - 1))], UOne, "", "f")
InnerFaces == Arr(<<"f">>, <<M - 1>>, [k \in 1 .. (M - 1) |-> I2R(EdgeAt(k))], UOne, "", "f")
Meet(B) == \A k \in 1 .. (M - 1) : UpperOf(B, k) = LowerOf(B, k + 1)
Encloses(B, A) == \A k \in 1 .. M : LET a == LowerOf(B, k) b == UpperOf(B, k) IN RLe(a, A.c[k]) /\ RLe(A.c[k], b)
BoundsMeet == M >= 2 => \A loc \in {0, 1, 2} : LET A == Points(loc) B == Bounds(A, "b", loc, TRUE, <<>>) IN Meet(B) /\ Encloses(B, A)
(* equal cells are found; cells between given faces are those *)
Recovered == M >= 2 => \A loc \in {0, 1, 2} :
  /\ (\A k \in 1 .. M : widths[k] = widths[1]) => \A k \in 1 .. M : LET B == Bounds(Points(loc), "b", loc, TRUE, <<>>) IN LowerOf(B, k) = I2R(EdgeAt(k - 1)) /\ UpperOf(B, k) = I2R(EdgeAt(k))
  /\ \A k \in 1 .. M : LET B == Bounds(Points(loc), "b", loc, TRUE, <<TrueFaces>>) IN LowerOf(B, k) = I2R(EdgeAt(k - 1)) /\ UpperOf(B, k) = I2R(EdgeAt(k))
  /\ LET B == Bounds(Points(loc), "b", loc, TRUE, <<InnerFaces>>) IN Meet(B) /\ Encloses(B, Points(loc)) /\ \A k \in 2 .. M : LowerOf(B, k) = I2R(EdgeAt(k - 1))
(* reversing the axis reverses the cells and exchanges beginning and end *)
Mirror(A) == Pick(A, [t |-> "dict", x |-> <<[d |-> A.dims[1], e |-> [k |-> "s", a |-> <<>>, b |-> <<>>, c |-> <<-1>>]]>>])
Mirrored == M >= 2 => \A loc \in {0, 1, 2} :
  LET A == Points(loc) B == Bounds(A, "b", loc, TRUE, <<>>) C == Bounds(Mirror(A), "b", 2 - loc, TRUE, <<>>)
  IN \A k \in 1 .. M : LowerOf(C, k) = UpperOf(B, M + 1 - k) /\ UpperOf(C, k) = LowerOf(B, M + 1 - k)
=============================================================================
