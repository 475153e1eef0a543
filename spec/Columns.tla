------------------------------- MODULE Columns -------------------------------
(* Functions over the columns of the ocean, which have as many levels as the depth index K says (none on land), and    *)
(* functions that put a field together from pieces.  Fields are <<time, level, row, column>>; what goes with a field is *)
(* matched with its dimensions by name.                                                                              *)
EXTENDS TimeAgg
(* K as a field of whole numbers over the dimensions of F given by position *)
Over(A, dims) == IF A.err # "" THEN A ELSE IF Len(A.dims) # Len(dims) \/ SetOf(A.dims) # SetOf(dims) THEN Refused("dims") ELSE Transpose(A, dims)
SameLengths(A, F) == \A d \in SetOf(A.dims) \cap SetOf(F.dims) : SizeOf(A, d) = SizeOf(F, d)
Fits4(K, F, more) ==
  IF F.err # "" THEN F.err ELSE IF K.err # "" THEN K.err
  ELSE IF \E i \in DOMAIN more : more[i].err # "" THEN more[CHOOSE i \in DOMAIN more : more[i].err # ""].err
  ELSE IF \E A \in SetOf(more) \cup {K} : ~SameLengths(A, F) THEN "sizes"
  ELSE IF \E k \in DOMAIN K.c : K.c[k] = Unknown \/ (K.c[k] # Missing /\ K.c[k][2] # 1) THEN "unmodelled" ELSE ""
LevelsAt(K, y, x) == LET c == K.c[y * K.shape[2] + x + 1] IN IF c = Missing THEN 0 ELSE c[1]
Cell4(F, t, z, y, x) == F.c[FlatOf(<<t, z, y, x>>, F.shape) + 1]
Cell3(F, t, y, x) == F.c[FlatOf(<<t, y, x>>, F.shape) + 1]
CellsOf(shape, V(_)) == TLCEval([k \in 1 .. Prod(shape) |-> V(CoordsOf(k - 1, shape))])
Made(F, dims, shape, u, V(_)) == Arr(dims, shape, CellsOf(shape, V), u, F.pos, "f")
Rank(A, n) == A.err # "" \/ Len(A.dims) = n
Horizontal(F) == <<F.dims[Len(F.dims) - 1], F.dims[Len(F.dims)]>>
(* sums over the valid cells of a sequence of pairs (weight, cell); none: missing *)
ValidPairs(ps) == SelectSeq(ps, LAMBDA p : p[1] # Missing /\ p[2] # Missing)
RECURSIVE PairSum(_)
PairSum(ps) == IF ps = <<>> THEN Zero ELSE RAdd(RMul(ps[1][1], ps[1][2]), PairSum(Tail(ps)))
RECURSIVE WeightSum(_)
WeightSum(ps) == IF ps = <<>> THEN Zero ELSE RAdd(ps[1][1], WeightSum(Tail(ps)))
PairsSum(ps) == LET v == ValidPairs(ps) IN IF v = <<>> THEN Missing ELSE PairSum(v)
PairsMean(ps) == LET v == ValidPairs(ps) IN IF v = <<>> THEN Missing ELSE RDiv(PairSum(v), WeightSum(v))
(* the cells of the ocean of a field: of all columns, the levels above the bottom *)
Columns(K, shape) == [k \in 1 .. shape[1] * shape[2] |-> CoordsOf(k - 1, shape)]
RECURSIVE LevelList(_, _, _)
LevelList(K, nz, s) == IF s = <<>> THEN <<>> ELSE [z \in 1 .. MinI(LevelsAt(K, s[1][1], s[1][2]), nz) |-> <<z - 1, s[1][1], s[1][2]>>] \o LevelList(K, nz, Tail(s))
Ocean(K, F) == LevelList(K, F.shape[2], Columns(K, <<F.shape[3], F.shape[4]>>))
(* ---- *)
BottomLayer(K0, F) ==
  IF ~Rank(F, 4) THEN Refused("rank") ELSE
  LET K == IF F.err # "" THEN F ELSE Over(K0, Horizontal(F)) e == Fits4(K, F, <<>>) IN
  IF e # "" THEN Refused(e)
  ELSE IF \E k \in DOMAIN K.c : K.c[k][1] > F.shape[2] THEN Refused("unmodelled")
  ELSE Made(F, <<F.dims[1], F.dims[3], F.dims[4]>>, <<F.shape[1], F.shape[3], F.shape[4]>>, F.u,
            LAMBDA c : LET n == LevelsAt(K, c[2], c[3]) IN IF n <= 0 THEN Missing ELSE Cell4(F, c[1], n - 1, c[2], c[3]))
Leveled(K0, L, F, V(_, _, _)) ==
  IF ~Rank(F, 4) THEN Refused("rank") ELSE IF ~Rank(L, 1) THEN Refused("dims") ELSE
  LET K == IF F.err # "" THEN F ELSE Over(K0, Horizontal(F)) e == Fits4(K, F, <<L>>) IN
  IF e # "" THEN Refused(e) ELSE IF L.shape[1] # F.shape[2] THEN Refused("sizes")
  ELSE Made(F, <<F.dims[1], L.dims[1], F.dims[3], F.dims[4]>>, F.shape, F.u,
            LAMBDA c : LET n == LevelsAt(K, c[3], c[4]) IN IF c[2] >= n THEN Missing ELSE V(F, n, c))
(* what a level has more than the one above it (the first: than nothing) *)
DownDifference(K, L, F) == Leveled(K, L, F, LAMBDA A, n, c : LET v == Cell4(A, c[1], c[2], c[3], c[4]) IN IF c[2] = 0 THEN v ELSE RSub(v, Cell4(A, c[1], c[2] - 1, c[3], c[4])))
(* what is absorbed in a level: what reaches it without what reaches the next; at the bottom, all *)
Absorbed(K, L, F) == Leveled(K, L, F, LAMBDA A, n, c : LET v == Cell4(A, c[1], c[2], c[3], c[4]) IN
                                         IF c[2] = n - 1 \/ c[2] = A.shape[2] - 1 THEN v ELSE RSub(v, Cell4(A, c[1], c[2] + 1, c[3], c[4])))
SurfaceMean(K0, W0, F) ==
  IF ~Rank(F, 3) THEN Refused("rank") ELSE
  LET K == IF F.err # "" THEN F ELSE Over(K0, Horizontal(F)) W == IF F.err # "" THEN F ELSE Over(W0, Horizontal(F)) e == Fits4(K, F, <<W>>)
      wet == SelectSeq(Columns(K, <<F.shape[2], F.shape[3]>>), LAMBDA yx : LevelsAt(K, yx[1], yx[2]) > 0)
  IN IF e # "" THEN Refused(e)
     ELSE Made(F, <<F.dims[1]>>, <<F.shape[1]>>, F.u,
               LAMBDA c : PairsMean([i \in DOMAIN wet |-> <<At(W, Horizontal(F), wet[i]), Cell3(F, c[1], wet[i][1], wet[i][2])>>]))
VolumeMean(K0, D, W0, F) ==
  IF ~Rank(F, 4) THEN Refused("rank") ELSE
  LET K == IF F.err # "" THEN F ELSE Over(K0, Horizontal(F)) W == IF F.err # "" THEN F ELSE Over(W0, Horizontal(F))
      Z == IF F.err # "" THEN F ELSE Over(D, <<F.dims[2]>>)
      e == Fits4(K, F, <<W, Z>>)
      o == Ocean(K, F)
  IN IF e # "" THEN Refused(e)
     ELSE Made(F, <<F.dims[1]>>, <<F.shape[1]>>, F.u,
               LAMBDA c : PairsMean([i \in DOMAIN o |-> <<RMul(Z.c[o[i][1] + 1], At(W, Horizontal(F), <<o[i][2], o[i][3]>>)), Cell4(F, c[1], o[i][1], o[i][2], o[i][3])>>]))
LayerSums(K0, D, F, where, dims, shape, Part(_, _)) ==
  LET K == IF F.err # "" THEN F ELSE Over(K0, Horizontal(F)) Z == IF F.err # "" THEN F ELSE Over(D, <<F.dims[2]>>) e == Fits4(K, F, <<Z>>)
      o == Ocean(K, F)
      at(c) == SelectSeq(o, LAMBDA zyx : Part(zyx, c) /\ (where = "all" \/ zyx[1] = LevelsAt(K, zyx[2], zyx[3]) - 1))
  IN IF e # "" THEN Refused(e)
     ELSE IF where # "all" /\ \E k \in DOMAIN K.c : K.c[k][1] > F.shape[2] THEN Refused("unmodelled")
     ELSE IF Z.pos # "" THEN Refused("unmodelled")
     ELSE Made(F, dims, shape, UMul(Z.u, F.u),
               LAMBDA c : LET s == at(c) IN PairsSum([i \in DOMAIN s |-> <<Z.c[s[i][1] + 1], Cell4(F, c[1], s[i][1], s[i][2], s[i][3])>>]))
BottomSum(K, D, F) == IF ~Rank(F, 4) THEN Refused("rank") ELSE IF F.err # "" THEN F
                      ELSE LayerSums(K, D, F, "bottom", <<F.dims[1]>>, <<F.shape[1]>>, LAMBDA zyx, c : TRUE)
LayerSum(K, D, F) == IF ~Rank(F, 4) THEN Refused("rank") ELSE IF F.err # "" THEN F
                     ELSE LayerSums(K, D, F, "all", <<F.dims[1], F.dims[3], F.dims[4]>>, <<F.shape[1], F.shape[3], F.shape[4]>>,
                                    LAMBDA zyx, c : zyx[2] = c[2] /\ zyx[3] = c[3])
SeaFraction(K) == IF K.err # "" THEN K ELSE IF Len(K.dims) # 2 THEN Refused("rank")
                  ELSE [MapCells(K, LAMBDA c : IF c = Missing THEN Missing ELSE IF ~IsNum(c) THEN Unknown ELSE IF RLt(Zero, c) THEN One ELSE Zero) EXCEPT !.dt = "f"]
(* ---- fields put together from pieces *)
(* P(i): the i-th piece at given other coordinates *)
Stacked(F, at, L, shape, P(_, _)) ==
  LET dims == SubSeq(F.dims, 1, at - 1) \o <<L.dims[1]>> \o SubSeq(F.dims, at, Len(F.dims))
      sh == SubSeq(shape, 1, at - 1) \o <<L.shape[1]>> \o SubSeq(shape, at, Len(shape))
  IN Made(F, dims, sh, F.u, LAMBDA c : P(c[at], SubSeq(c, 1, at - 1) \o SubSeq(c, at + 1, Len(c))))
Pools(A, B0, C0, L) ==
  IF A.err # "" THEN A ELSE IF B0.err # "" THEN B0 ELSE IF C0.err # "" THEN C0 ELSE IF L.err # "" THEN L
  ELSE IF Len(A.dims) # 3 \/ Len(L.dims) # 1 THEN Refused("rank")
  ELSE LET B == Conv(Over(B0, A.dims), A.u) C == Conv(Over(C0, A.dims), A.u) IN
       IF B.err # "" THEN B ELSE IF C.err # "" THEN C
       ELSE IF B.shape # A.shape \/ C.shape # A.shape THEN Refused("sizes")
       ELSE IF L.shape[1] # 3 THEN Refused("sizes") ELSE IF B.pos # A.pos \/ C.pos # A.pos THEN Refused("unmodelled")
       ELSE Stacked(A, 2, L, A.shape, LAMBDA i, c : (<<A, B, C>>[i + 1]).c[FlatOf(c, A.shape) + 1])
LandUses(F, L) ==
  IF F.err # "" THEN F ELSE IF L.err # "" THEN L ELSE IF Len(F.dims) # 4 \/ Len(L.dims) # 1 THEN Refused("rank")
  ELSE IF F.shape[2] < 9 THEN Refused("sizes") ELSE IF L.shape[1] # 4 THEN Refused("sizes")
  ELSE Made(F, <<F.dims[1], L.dims[1], F.dims[3], F.dims[4]>>, <<F.shape[1], 4, F.shape[3], F.shape[4]>>, F.u,
            LAMBDA c : LET v(z) == Cell4(F, c[1], z, c[3], c[4]) IN
                       CASE c[2] = 0 -> v(0) [] c[2] = 1 -> Zero [] c[2] = 2 -> v(1) [] OTHER -> RAdd(v(6), RAdd(v(7), v(8))))
Expanded(A, Y, X) ==
  IF A.err # "" THEN A ELSE IF Y.err # "" THEN Y ELSE IF X.err # "" THEN X ELSE IF Len(A.dims) # 1 \/ Len(Y.dims) # 1 \/ Len(X.dims) # 1 THEN Refused("rank")
  ELSE Made(A, <<A.dims[1], Y.dims[1], X.dims[1]>>, <<A.shape[1], Y.shape[1], X.shape[1]>>, A.u, LAMBDA c : A.c[c[1] + 1])
(* the first (smaller) or second half of a field along a dimension *)
Hemisphere(A, d, side) ==
  IF A.err # "" THEN A ELSE IF Len(A.dims) # 3 THEN Refused("rank") ELSE IF ~InSeq(d, A.dims) \/ side \notin {"<", ">"} THEN Refused("unmodelled")
  ELSE LET k == IndexIn(d, A.dims) n == A.shape[k] h == n \div 2 IN
       IF h = 0 THEN Refused("unmodelled")
       ELSE LET sh == [A.shape EXCEPT ![k] = IF side = "<" THEN h ELSE n - h] IN
            [A EXCEPT !.shape = sh, !.c = CellsOf(sh, LAMBDA c : A.c[FlatOf([c EXCEPT ![k] = c[k] + (IF side = "<" THEN 0 ELSE h)], A.shape) + 1])]
Holds(how, x, y) == CASE how = ">=" -> RLe(y, x) [] how = "<=" -> RLe(x, y) [] how = "==" -> x = y [] how = "<" -> RLt(x, y) [] OTHER -> RLt(y, x)
Where(A, how, x, B0, y) ==
  IF A.err # "" THEN A ELSE IF B0.err # "" THEN B0 ELSE IF Len(A.dims) # 3 THEN Refused("rank") ELSE IF how \notin {">=", "<=", "==", "<", ">"} THEN Refused("unmodelled")
  ELSE LET flat == Over(B0, Tail(A.dims))
           B == IF flat.err # "" THEN Over(B0, A.dims) ELSE Made([flat EXCEPT !.dt = "f"], A.dims, <<A.shape[1]>> \o flat.shape, flat.u, LAMBDA c : flat.c[FlatOf(Tail(c), flat.shape) + 1])
       IN
       IF B.err # "" THEN B ELSE IF B.shape # A.shape THEN Refused("sizes")
       ELSE [Arr(A.dims, A.shape, [k \in DOMAIN A.c |-> IF A.c[k] = Missing THEN Missing ELSE IF ~IsNum(A.c[k]) THEN Unknown ELSE IF Holds(how, A.c[k], x) THEN B.c[k] ELSE y], B.u, B.pos, "f") EXCEPT !.err = ""]
Burnt(A) == IF A.err # "" THEN A ELSE IF Len(A.dims) # 3 THEN Refused("rank")
            ELSE Rows(A, Steps(A), LAMBDA k, j : RMul(CellAt(A, k, j), I2R(MonthDays[Month(k)] * 8640000)))
SameField(A) == IF A.err # "" THEN A ELSE IF Len(A.dims) # 3 THEN Refused("rank") ELSE [A EXCEPT !.dt = "f"]
=============================================================================
