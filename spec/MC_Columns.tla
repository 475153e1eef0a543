----------------------------- MODULE MC_Columns -----------------------------
(* Columns of the ocean that get deeper or are filled up, over which a field changes cell by cell: the laws of the      *)
(* functions of columns.                                                                                             *)
EXTENDS Columns, TLC
CONSTANT NZ, NX
Values == {Missing, Zero, One, I2R(3)}
VARIABLE depth, field, last
vars == <<depth, field, last>>
Shape == <<1, NZ, 1, NX>>
FieldOf(f) == Arr(<<"t", "z", "y", "x">>, Shape, [k \in 1 .. NZ * NX |-> f[((k - 1) \div NX) + 1][((k - 1) % NX) + 1]], UOne, "", "f")
DepthOf(d) == Arr(<<"y", "x">>, <<1, NX>>, [k \in 1 .. NX |-> I2R(d[k])], UOne, "", "i")
Dz == Arr(<<"z">>, <<NZ>>, [k \in 1 .. NZ |-> I2R(k)], UOne, "", "f")
Area == Arr(<<"x", "y">>, <<NX, 1>>, [k \in 1 .. NX |-> I2R(k)], UOne, "", "f")
Zs == Arr(<<"w">>, <<NZ>>, [k \in 1 .. NZ |-> I2R(k)], UOne, "", "f")
Init == /\ depth = [i \in 1 .. NX |-> 0] /\ field = [z \in 1 .. NZ |-> [i \in 1 .. NX |-> One]] /\ last = <<"", 0, 0>>
Dig == \E i \in 1 .. NX : depth[i] < NZ /\ depth' = [depth EXCEPT ![i] = @ + 1] /\ UNCHANGED field /\ last' = <<"dig", i, 0>>
Fill == \E i \in 1 .. NX : depth[i] > 0 /\ depth' = [depth EXCEPT ![i] = @ - 1] /\ UNCHANGED field /\ last' = <<"fill", i, 0>>
Set == \E z \in 1 .. NZ, i \in 1 .. NX, v \in Values : field' = [field EXCEPT ![z][i] = v] /\ UNCHANGED depth /\ last' = <<"set", i, z>>
Next == Dig \/ Fill \/ Set
Spec == Init /\ [][Next]_vars
View == <<depth, field>>
(* ---- *)
F == FieldOf(field)
K == DepthOf(depth)
Wet == {<<z, i>> \in (1 .. NZ) \X (1 .. NX) : z <= depth[i]}
V(z, i) == field[z][i]
AllValid == \A p \in Wet : V(p[1], p[2]) # Missing
Ones(A) == \A k \in DOMAIN A.c : A.c[k] \in {One, Missing}
(* nothing below the bottom matters, and everything above it does *)
Below == [z \in 1 .. NZ |-> [i \in 1 .. NX |-> IF z <= depth[i] THEN V(z, i) ELSE I2R(7)]]
Results(f) == LET A == FieldOf(f) IN
  <<BottomLayer(K, A), DownDifference(K, Zs, A), Absorbed(K, Zs, A), VolumeMean(K, Dz, Area, A), BottomSum(K, Dz, A), LayerSum(K, Dz, A)>>
BelowIsNothing == Results(field) = Results(Below)
(* adding up what each level has more than the one above gives back the field *)
RECURSIVE UpTo(_, _, _)
UpTo(D, z, i) == IF z = 0 THEN Zero ELSE RAdd(Cell4(D, 0, z - 1, 0, i - 1), UpTo(D, z - 1, i))
DifferencesAddUp == AllValid => LET D == DownDifference(K, Zs, F) IN \A p \in Wet : UpTo(D, p[1], p[2]) = V(p[1], p[2])
(* all that enters a column is absorbed in it *)
AllAbsorbed == AllValid => LET A == Absorbed(K, Zs, F) IN \A i \in 1 .. NX : depth[i] > 0 => UpTo(A, depth[i], i) = V(1, i)
OnlyTheOcean == \A A \in {DownDifference(K, Zs, F), Absorbed(K, Zs, F)} : \A z \in 1 .. NZ, i \in 1 .. NX : z > depth[i] => Cell4(A, 0, z - 1, 0, i - 1) = Missing
(* the bottom layer is what the last level adds to the column *)
BottomIsLast == LET B == BottomLayer(K, F) IN \A i \in 1 .. NX : B.c[i] = IF depth[i] = 0 THEN Missing ELSE V(depth[i], i)
BottomAddsUp == LET B == BottomLayer(K, F) s == BottomSum(K, Dz, F) IN
  s.c[1] = LET ok == {i \in 1 .. NX : B.c[i] # Missing} IN IF ok = {} THEN Missing ELSE RSumSeq([i \in 1 .. NX |-> IF i \in ok THEN RMul(I2R(depth[i]), B.c[i]) ELSE Zero])
(* sums of layers by columns *)
ColumnSums == AllValid => LET s == LayerSum(K, Dz, F) IN \A i \in 1 .. NX : s.c[i] = IF depth[i] = 0 THEN Missing ELSE RSumSeq([z \in 1 .. depth[i] |-> RMul(I2R(z), V(z, i))])
(* means lie between what they are of, weigh cells by volume, and exist exactly if there is a valid cell *)
MeansLie == LET m == VolumeMean(K, Dz, Area, F).c[1] ok == {V(p[1], p[2]) : p \in Wet} \ {Missing} IN
  IF ok = {} THEN m = Missing ELSE (\E a \in ok : RLe(a, m)) /\ (\E a \in ok : RLe(m, a))
MeanOfMeans == AllValid /\ Wet # {} =>
  LET vol == RSumSeq([i \in 1 .. NX |-> RMul(I2R(i), RSumSeq([z \in 1 .. depth[i] |-> I2R(z)])) ])
      sum == RSumSeq([i \in 1 .. NX |-> RMul(I2R(i), RSumSeq([z \in 1 .. depth[i] |-> RMul(I2R(z), V(z, i))])) ])
  IN VolumeMean(K, Dz, Area, F).c[1] = RDiv(sum, vol)
Surface == Arr(<<"t", "y", "x">>, <<1, 1, NX>>, [i \in 1 .. NX |-> field[1][i]], UOne, "", "f")
SurfaceIsFirst == LET one == [i \in 1 .. NX |-> IF depth[i] > 0 THEN 1 ELSE 0] IN
  SurfaceMean(K, Area, Surface).c = VolumeMean(DepthOf(one), Dz, Area, F).c
Sea == \A i \in 1 .. NX : SeaFraction(K).c[i] = IF depth[i] > 0 THEN One ELSE Zero
(* what is put together can be taken apart: halves of a field make the whole one *)
HalvesFit == NX < 2 \/ LET S == Surface a == Hemisphere(S, "x", "<") b == Hemisphere(S, "x", ">") IN a.c \o b.c = S.c
=============================================================================
