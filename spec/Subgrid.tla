------------------------------ MODULE Subgrid ------------------------------
(* Functions that put the tiles of a land grid on the cells of a map, and others that take regions, kinds of land, and *)
(* ages from fields.  A tile (land unit, or part of one with one plant type) belongs to the cell of the list of grid   *)
(* cells with its place; a cell of the map is found in that list by its column and row, counted from one.             *)
EXTENDS Columns
Line(A) == Len(A.dims) = 1
ErrIn(s) == LET b == {i \in DOMAIN s : s[i].err # ""} IN IF b = {} THEN "" ELSE s[CHOOSE i \in b : \A j \in b : i <= j].err
Clear(s) == \A i \in DOMAIN s : Line(s[i]) /\ s[i].pos = "" /\ \A k \in DOMAIN s[i].c : IsNum(s[i].c[k])
Alike(s) == \A i \in DOMAIN s : s[i].dims = s[1].dims /\ s[i].shape = s[1].shape
Places(a) == Clear(SubSeq(a, 4, Len(a))) /\ (\A i \in 1 .. 3 : Line(a[i])) /\ Alike(SubSeq(a, 4, 7)) /\ Alike(SubSeq(a, 8, 10)) /\ SameUnit(a[6].u, a[8].u) /\ SameUnit(a[7].u, a[9].u)
(* which cell of the list (0: none) is in a row and column of the map *)
Listed(I, J, y, x) == LET S == {g \in DOMAIN I.c : I.c[g] = I2R(x + 1) /\ J.c[g] = I2R(y + 1)} IN IF S = {} THEN 0 ELSE CHOOSE g \in S : \A h \in S : g <= h
TilesAt(Lon, Lat, lon, lat) == {k \in DOMAIN Lon.c : Lon.c[k] = lon /\ Lat.c[k] = lat}
KindIn(c, lo, hi) == RLe(I2R(lo), c) /\ RLe(c, I2R(hi))
InUse(active, weight) == {k \in DOMAIN active.c : active.c[k] = One /\ RLt(Zero, weight.c[k])}
(* mean over tiles, of which none may be without a value *)
TileMean(F, t, W, S) ==
  LET s == SelectSeq([k \in DOMAIN W.c |-> k], LAMBDA k : k \in S) v(k) == F.c[t * F.shape[2] + k] IN
  IF s = <<>> \/ \E k \in S : v(k) = Missing THEN Missing ELSE PairsMean([i \in DOMAIN s |-> <<W.c[s[i]], v(s[i])>>])
(* a: time, rows, columns, column and row of grid cells and their places, places of units, their kinds, whether they  *)
(* are in use, their weights, kinds of land use                                                                      *)
Kind(type) == CASE type = "veg" -> 0 [] type = "pasture" -> 1 [] type = "crop" -> 2 [] OTHER -> 3
OfKind(L, k) == {i \in DOMAIN L.c : CASE k = 0 -> L.c[i] = One [] k = 1 -> FALSE [] k = 2 -> L.c[i] = I2R(2) [] OTHER -> KindIn(L.c[i], 7, 9)}
LandUnits(F0, type, a) ==
  LET e == ErrIn(<<F0>> \o a) IN
  IF e # "" THEN Refused(e)
  ELSE IF ~Places(SubSeq(a, 1, 12)) \/ ~Alike(SubSeq(a, 8, 12)) \/ ~Line(a[13]) \/ type \notin {"veg", "pasture", "crop", "urban", "all"} THEN Refused("unmodelled")
  ELSE IF a[13].shape # <<4>> THEN Refused("sizes")
  ELSE LET F == Over(F0, a[1].dims \o a[8].dims)
           used == InUse(a[11], a[12])
           tiles(k, y, x) == LET g == Listed(a[4], a[5], y, x) IN IF g = 0 THEN {} ELSE TilesAt(a[8], a[9], a[6].c[g], a[7].c[g]) \cap used \cap OfKind(a[10], k)
           V(k, c) == TileMean(F, c[1], a[12], tiles(k, c[2], c[3]))
           dims == <<a[1].dims[1], a[2].dims[1], a[3].dims[1]>> shape == <<a[1].shape[1], a[2].shape[1], a[3].shape[1]>>
       IN IF F.err # "" THEN F
          ELSE IF F.shape # a[1].shape \o a[8].shape THEN Refused("sizes")
          ELSE IF \E y \in 0 .. shape[2] - 1, x \in 0 .. shape[3] - 1, k \in {0, 2} : Cardinality(tiles(k, y, x)) > 1 THEN Refused("unmodelled")
          ELSE IF type = "all" THEN Made(F, <<dims[1], a[13].dims[1], dims[2], dims[3]>>, <<shape[1], 4, shape[2], shape[3]>>, F.u, LAMBDA c : V(c[2], <<c[1], c[3], c[4]>>))
          ELSE Made(F, dims, shape, F.u, LAMBDA c : V(Kind(type), c))
(* a: ..., places of units, their kinds, places of plant types, whether they are in use, their types, weights in the  *)
(* cell and in the unit                                                                                              *)
Plants(P, type) == {k \in DOMAIN P.c : CASE type = "grass" -> KindIn(P.c[k], 12, 14) [] type = "shrub" -> KindIn(P.c[k], 9, 11) [] OTHER -> KindIn(P.c[k], 1, 8)}
PlantTypes(F0, type, a) ==
  LET e == ErrIn(<<F0>> \o a) IN
  IF e # "" THEN Refused(e)
  ELSE IF ~Places(a) \/ ~Alike(SubSeq(a, 11, 16)) \/ ~SameUnit(a[6].u, a[11].u) \/ ~SameUnit(a[7].u, a[12].u) \/ type \notin {"grass", "shrub", "tree"} \/ \E k \in DOMAIN a[16].c : RLe(a[16].c[k], Zero) THEN Refused("unmodelled")
  ELSE LET F == Over(F0, a[1].dims \o a[11].dims)
           used == InUse(a[13], a[15]) \cap Plants(a[14], type)
           tiles(y, x) == LET g == Listed(a[4], a[5], y, x) IN
                          IF g = 0 THEN {} ELSE IF TilesAt(a[8], a[9], a[6].c[g], a[7].c[g]) \cap OfKind(a[10], 0) = {} THEN {} ELSE TilesAt(a[11], a[12], a[6].c[g], a[7].c[g]) \cap used
       IN IF F.err # "" THEN F
          ELSE IF F.shape # a[1].shape \o a[11].shape THEN Refused("sizes")
          ELSE Made(F, <<a[1].dims[1], a[2].dims[1], a[3].dims[1]>>, <<a[1].shape[1], a[2].shape[1], a[3].shape[1]>>, F.u, LAMBDA c : TileMean(F, c[1], a[16], tiles(c[2], c[3])))
(* ---- *)
(* land that is not wooded: by its use, where there is land *)
NonWoody(P, C0, L0, U0) ==
  LET e == ErrIn(<<P, C0, L0, U0>>) IN
  IF e # "" THEN Refused(e)
  ELSE IF Len(P.dims) # 4 \/ Len(C0.dims) # 4 THEN Refused("rank")
  ELSE LET C == Over(C0, <<P.dims[1], C0.dims[2], P.dims[3], P.dims[4]>>) L == Over(L0, Horizontal(P)) f == ErrIn(<<C, L>>) IN
       IF f # "" THEN Refused(f) ELSE IF ~Line(U0) THEN Refused("rank")
       ELSE IF U0.shape # <<4>> \/ P.shape[2] < 15 \/ C.shape[2] < 2 \/ <<C.shape[1], C.shape[3], C.shape[4]>> # <<P.shape[1], P.shape[3], P.shape[4]>> \/ L.shape # <<P.shape[3], P.shape[4]>> THEN Refused("sizes")
       ELSE Made(P, <<P.dims[1], U0.dims[1], P.dims[3], P.dims[4]>>, <<P.shape[1], 4, P.shape[3], P.shape[4]>>, P.u,
                 LAMBDA c : LET v(z) == Cell4(P, c[1], z, c[3], c[4]) land == L.c[c[3] * L.shape[2] + c[4] + 1] crop == Cell4(C, c[1], 1, c[3], c[4]) IN
                            CASE c[2] = 0 -> RAdd(v(12), RAdd(v(13), v(14)))
                              [] ~IsNum(land) -> land
                              [] RLt(One, land) -> Missing
                              [] c[2] = 2 -> IF ~IsNum(crop) THEN crop ELSE IF RLt(Zero, crop) THEN I2R(100) ELSE Zero
                              [] OTHER -> Zero)
(* the parts of a transport: of one region, of the rest of the other, of all of it *)
Basins(F, comp, B) ==
  LET e == ErrIn(<<F, B>>) IN
  IF e # "" THEN Refused(e)
  ELSE IF Len(F.dims) # 5 THEN Refused("rank") ELSE IF ~Line(B) THEN Refused("unmodelled")
  ELSE IF B.shape # <<3>> \/ F.shape[2] < 2 \/ comp >= F.shape[3] THEN Refused("sizes")
  ELSE Made(F, <<F.dims[1], F.dims[5], F.dims[4], B.dims[1]>>, <<F.shape[1], F.shape[5], F.shape[4], 3>>, F.u,
            LAMBDA c : LET v(r) == F.c[FlatOf(<<c[1], r, comp, c[3], c[2]>>, F.shape) + 1] IN
                       CASE c[4] = 0 -> v(1) [] c[4] = 1 -> RSub(v(0), v(1)) [] OTHER -> v(0))
ZonalMean(A) == IF A.err # "" THEN A ELSE IF Len(A.dims) < 4 THEN Refused("rank") ELSE Reduce(A, "mean", {A.dims[4]})
(* how long ago (in years) the first column of the first level had the value that a cell has now                     *)
(* (a date YYYYMMDD ends the month before it), in 24ths of years *)
DateYears(n) == 24 * (n \div 10000) + 2 * (((n \div 100) % 100) - 1) - 1
AgeAt(ref, years, v, t) ==
  LET n == Len(ref) since(i) == Norm(years[t] - years[i], 24) IN
  IF RLe(v, ref[1][1]) THEN since(ref[1][2]) ELSE IF RLe(ref[n][1], v) THEN since(ref[n][2])
  ELSE LET i == CHOOSE j \in 1 .. n - 1 : RLe(ref[j][1], v) /\ RLt(v, ref[j + 1][1])
       IN RSub(since(ref[i][2]), RMul(RDiv(RSub(v, ref[i][1]), RSub(ref[i + 1][1], ref[i][1])), Norm(years[ref[i + 1][2]] - years[ref[i][2]], 24)))
AgeOfAir(F0, D, T, Y, Z) ==
  LET e == ErrIn(<<F0, D, T, Y, Z>>) IN
  IF e # "" THEN Refused(e)
  ELSE IF ~Line(D) \/ ~Line(T) \/ ~Line(Y) \/ ~Line(Z) \/ D.pos # "" \/ D.shape # T.shape \/ \E k \in DOMAIN D.c : ~IsNum(D.c[k]) \/ D.c[k][2] # 1 \/ D.c[k][1] < 10000 THEN Refused("unmodelled")
  ELSE LET F == Over(F0, <<T.dims[1], Z.dims[1], Y.dims[1]>>) IN
       IF F.err # "" THEN F ELSE IF F.shape # <<T.shape[1], Z.shape[1], Y.shape[1]>> \/ (\E k \in DOMAIN F.c : F.c[k] # Missing /\ ~IsNum(F.c[k])) THEN Refused("unmodelled")
       ELSE LET years == TLCEval([k \in DOMAIN D.c |-> DateYears(D.c[k][1])])
                ref == TLCEval(SelectSeq([k \in DOMAIN D.c |-> <<Cell3(F, k - 1, 0, 0), k>>], LAMBDA p : p[1] # Missing))
            IN IF \E i \in 1 .. Len(ref) - 1 : ~RLt(ref[i][1], ref[i + 1][1]) THEN Refused("unmodelled")
               ELSE [Made(F, F.dims, F.shape, BaseUnit("yr"), LAMBDA c : LET v == Cell3(F, c[1], c[2], c[3]) IN IF ref = <<>> \/ v = Missing THEN Missing ELSE AgeAt(ref, years, v, c[1] + 1)) EXCEPT !.pos = ""]
=============================================================================
