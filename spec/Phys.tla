-------------------------------- MODULE Phys --------------------------------
(* Physical arrays: named dimensions, exact cells (row major), units, positive direction, kind of number.        *)
(*   [err, dims, shape, c, u, pos ("", "up", "down"), dt ("i" integer, "f" real)];  err # "" : no value           *)
EXTENDS Units, PySlice, FiniteSets, TLC
Arr(dims, shape, c, u, pos, dt) == [err |-> "", dims |-> dims, shape |-> shape, c |-> TLCEval(c), u |-> u, pos |-> pos, dt |-> dt]
Refused(why) == [err |-> why, dims |-> <<>>, shape |-> <<>>, c |-> <<>>, u |-> UOne, pos |-> "", dt |-> "f"]
Scalar(x, dt) == Arr(<<>>, <<>>, <<x>>, UOne, "", dt)
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
IndexIn(x, s) == CHOOSE i \in DOMAIN s : s[i] = x
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Without(_, _)
Without(s, S) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in S THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), S)
SizeOf(A, d) == A.shape[IndexIn(d, A.dims)]
(* coordinates of the k-th cell (0-based) of a shape *)
RECURSIVE CoordsOf(_, _)
CoordsOf(k, shape) == IF shape = <<>> THEN <<>> ELSE LET p == Prod(Tail(shape)) IN <<k \div p>> \o CoordsOf(k % p, Tail(shape))
RECURSIVE FlatOf(_, _)
FlatOf(co, shape) == IF shape = <<>> THEN 0 ELSE co[1] * Prod(Tail(shape)) + FlatOf(Tail(co), Tail(shape))
(* cell of A at named coordinates (dims of A are among dims) *)
At(A, dims, co) == A.c[FlatOf([i \in DOMAIN A.dims |-> co[IndexIn(A.dims[i], dims)]], A.shape) + 1]
(* transposition to a permutation of the dimensions *)
Transpose(A, dims) ==
  IF A.err # "" \/ A.dims = dims THEN A
  ELSE IF SetOf(A.dims) # SetOf(dims) \/ Len(A.dims) # Len(dims) THEN Refused("dims")
  ELSE LET sh == [i \in DOMAIN dims |-> SizeOf(A, dims[i])]
       IN [A EXCEPT !.dims = dims, !.shape = sh, !.c = TLCEval([k \in 1 .. Prod(sh) |-> At(A, dims, CoordsOf(k - 1, sh))])]
Rename(A, f) == IF A.err # "" THEN A ELSE [A EXCEPT !.dims = f]
(* selection by a request *)
Pick(A, q) ==
  IF A.err # "" THEN A
  ELSE LET s == SelectReq(q, A.dims, A.shape) IN
       IF ~s.ok THEN Refused("index")
       ELSE [A EXCEPT !.dims = SeqFilter(A.dims, s.keep), !.shape = s.shape, !.c = TLCEval([k \in DOMAIN s.pos |-> A.c[s.pos[k] + 1]])]
MapCells(A, F(_)) == [A EXCEPT !.c = TLCEval([k \in DOMAIN A.c |-> F(A.c[k])])]
Conv(A, u) == IF A.err # "" THEN A
              ELSE IF SameUnit(A.u, u) THEN A
              ELSE IF ~Convertible(A.u, u) THEN Refused("units")
              ELSE LET v == A.u IN [A EXCEPT !.u = u, !.dt = "f", !.c = TLCEval([k \in DOMAIN A.c |-> ConvCell(A.c[k], v, u)])]
Opp(p) == IF p = "up" THEN "down" ELSE "up"
Flip(A) == IF A.err # "" \/ A.pos = "" THEN A ELSE [MapCells(A, RNeg) EXCEPT !.pos = Opp(A.pos)]
Toward(A, p) == IF A.err # "" THEN A ELSE IF A.pos = "" THEN [A EXCEPT !.pos = p] ELSE IF A.pos = p THEN A ELSE Flip(A)
NegA(A) == IF A.err # "" THEN A ELSE MapCells(A, RNeg)
(* right operand as seen by an operation with left operand A: its direction is that of A if both have one *)
Matched(A, B) == IF A.pos # "" /\ B.pos # "" /\ A.pos # B.pos THEN Flip(B) ELSE B
PosOf(A, B) == IF A.pos # "" THEN A.pos ELSE B.pos
ResDims(A, B) == A.dims \o Without(B.dims, SetOf(A.dims))
Compatible(A, B) == \A d \in SetOf(A.dims) \cap SetOf(B.dims) : SizeOf(A, d) = SizeOf(B, d)
ZipCells(A, B, F(_, _)) ==
  LET dims == ResDims(A, B)
      sh == [i \in DOMAIN dims |-> IF InSeq(dims[i], A.dims) THEN SizeOf(A, dims[i]) ELSE SizeOf(B, dims[i])]
  IN [k \in 1 .. Prod(sh) |-> LET co == CoordsOf(k - 1, sh) IN F(At(A, dims, co), At(B, dims, co))]
ResShape(A, B) == LET dims == ResDims(A, B)
                  IN [i \in DOMAIN dims |-> IF InSeq(dims[i], A.dims) THEN SizeOf(A, dims[i]) ELSE SizeOf(B, dims[i])]
DtOf(A, B) == IF A.dt = "f" \/ B.dt = "f" THEN "f" ELSE "i"
Quantity(A) == A.u.t # "n"
AddLike(A, B, F(_, _)) ==
  IF A.err # "" THEN A ELSE IF B.err # "" THEN B
  ELSE IF ~Compatible(A, B) THEN Refused("dims")
  ELSE IF ~Convertible(B.u, A.u) THEN Refused("units")
  ELSE LET B1 == Matched(A, Conv(B, A.u))
       IN Arr(ResDims(A, B), ResShape(A, B), ZipCells(A, B1, F), A.u, PosOf(A, B), DtOf(A, B1))
MulLike(A, B, F(_, _), G(_, _), isdiv) ==
  IF A.err # "" THEN A ELSE IF B.err # "" THEN B
  ELSE IF ~Compatible(A, B) THEN Refused("dims")
  ELSE LET B1 == Matched(A, B)
       IN Arr(ResDims(A, B), ResShape(A, B), ZipCells(A, B1, F), G(A.u, B.u), PosOf(A, B), IF isdiv THEN "f" ELSE DtOf(A, B))
AddA(A, B) == AddLike(A, B, RAdd)
SubA(A, B) == AddLike(A, B, RSub)
MulA(A, B) == MulLike(A, B, RMul, UMul, FALSE)
DivA(A, B) == MulLike(A, B, RDiv, UDiv, TRUE)
Half == <<1, 2>>
PowA(A, B) ==
  IF A.err # "" THEN A ELSE IF B.err # "" THEN B
  ELSE IF B.dims # <<>> THEN Refused("exponent")
  ELSE IF B.pos # "" THEN Refused("exponent")
  ELSE IF ~Convertible(B.u, UOne) THEN Refused("units")
  ELSE LET x == Conv(B, UOne).c[1] IN
       IF ~SameUnit(B.u, UOne) \/ (IsTimeRef(A.u) /\ x = One) THEN Refused("unmodelled")
       ELSE IF x = Half THEN (IF ~Rootable(A.u) THEN Refused("units")
                         ELSE [MapCells(A, RSqrt) EXCEPT !.u = URoot(A.u), !.dt = "f"])
       ELSE IF ~IsNum(x) \/ x[2] # 1 \/ AbsI(x[1]) > 8 THEN Refused("unmodelled")
       ELSE IF x[1] < 0 /\ A.dt = "i" /\ B.dt = "i" THEN Refused(IF {A.c[k] : k \in DOMAIN A.c} \subseteq {Missing} THEN "unmodelled" ELSE "integer power")
       ELSE [MapCells(A, LAMBDA y : RPow(y, x[1])) EXCEPT !.u = UPow(A.u, x[1]), !.dt = DtOf(A, B),
                !.pos = IF x[1] % 2 = 0 THEN "" ELSE A.pos]
SqrtA(A) == IF A.err # "" THEN A ELSE IF ~Rootable(A.u) THEN Refused("units")
            ELSE [MapCells(A, RSqrt) EXCEPT !.u = URoot(A.u), !.dt = "f"]
(* reductions over a set of named dimensions (those the array has); missing cells do not take part *)
RECURSIVE Valid(_)
Valid(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = Missing THEN <<>> ELSE <<s[1]>>) \o Valid(Tail(s))
RECURSIVE FoldMin(_)
FoldMin(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == FoldMin(Tail(s)) IN IF ~IsNum(s[1]) \/ ~IsNum(r) THEN Unknown ELSE RMin(s[1], r)
RECURSIVE FoldMax(_)
FoldMax(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == FoldMax(Tail(s)) IN IF ~IsNum(s[1]) \/ ~IsNum(r) THEN Unknown ELSE RMax(s[1], r)
ReduceCells(how, s) == LET v == Valid(s) IN
  IF v = <<>> THEN Missing
  ELSE CASE how = "sum" -> RSumSeq(v)
         [] how = "mean" -> RDiv(RSumSeq(v), I2R(Len(v)))
         [] how = "min" -> FoldMin(v)
         [] OTHER -> FoldMax(v)
Reduce(A, how, over) ==
  IF A.err # "" THEN A
  ELSE LET S == over \cap SetOf(A.dims)
           rest == Without(A.dims, S)
           red == Without(A.dims, SetOf(A.dims) \ S)
           rsh == [i \in DOMAIN rest |-> SizeOf(A, rest[i])]
           dsh == [i \in DOMAIN red |-> SizeOf(A, red[i])]
           group(k) == [j \in 1 .. Prod(dsh) |-> At(A, rest \o red, CoordsOf(k - 1, rsh) \o CoordsOf(j - 1, dsh))]
       IN IF S = {} THEN A
          ELSE [A EXCEPT !.dims = rest, !.shape = rsh, !.c = TLCEval([k \in 1 .. Prod(rsh) |-> ReduceCells(how, group(k))]),
                         !.dt = IF how = "mean" THEN "f" ELSE A.dt]
(* values beyond a limit are replaced by the limit *)
LimitA(A, below, above) ==
  IF A.err # "" THEN A
  ELSE LET whole(s) == s = <<>> \/ ~IsNum(s[1]) \/ s[1][2] = 1
       IN [MapCells(A, LAMBDA x : IF ~IsNum(x) THEN x
             ELSE LET y == IF above # <<>> /\ RLt(above[1], x) THEN above[1] ELSE x
                  IN IF below # <<>> /\ RLt(y, below[1]) THEN below[1] ELSE y)
           EXCEPT !.dt = IF whole(above) /\ whole(below) THEN A.dt ELSE "f"]
ChDims(A, names) ==
  IF A.err # "" THEN A
  ELSE LET m == IF Len(names) < Len(A.dims) THEN Len(names) ELSE Len(A.dims)
       IN [A EXCEPT !.dims = [i \in DOMAIN A.dims |-> IF i <= m THEN names[i] ELSE A.dims[i]]]
=============================================================================
