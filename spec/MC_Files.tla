------------------------------ MODULE MC_Files ------------------------------
(* Assembly of an output file, for every small specification: variables with dimensions, references (bounds and   *)
(* coordinates), some of them with files of their own.  Variables enter the file one at a time, in any order      *)
(* that some rule allows; what the file holds in the end must not depend on that order, must be the least set that  *)
(* the rules of the specification allow, and must be what module Flow says (Contents).                            *)
EXTENDS Flow, TLC
CONSTANTS N, Metas, Coords
Names == [i \in 1 .. N |-> "v" \o ToString(i)]
NameSet == {Names[i] : i \in 1 .. N}
DimSets == {{}, {"a"}, {"b"}, {"a", "b"}}
AsSeq(S) == IF S = {} THEN <<>> ELSE IF S = {"a", "b"} THEN <<"a", "b">> ELSE <<CHOOSE d \in S : TRUE>>
SeqsOf(S) == {<<>>} \cup {<<x>> : x \in S}
VARIABLES spec, in
(* spec: run with a single file owned by the first variable *)
VarRec(i, D, b, c) == [n |-> Names[i], kind |-> "def", dims |-> AsSeq(D), bounds |-> b, coords |-> c]
Specs == {[vars |-> [i \in 1 .. N |-> VarRec(i, D[i], B[i], C[i])],
           files |-> <<[n |-> "f1", owner |-> Names[1], meta |-> M]>> \o (IF T = 0 THEN <<>> ELSE <<[n |-> "f2", owner |-> Names[T], meta |-> <<>>]>>)] :
             D \in [1 .. N -> DimSets], B \in [1 .. N -> NameSet \cup {""}], C \in [1 .. N -> IF Coords THEN {<<>>, <<Names[N]>>} ELSE {<<>>}], M \in (IF Metas THEN SeqsOf(NameSet) ELSE {<<>>}), T \in {0, 2}}
F == spec.files[1]
Own == {spec.files[k].owner : k \in DOMAIN spec.files}
V(n) == VarOf(spec, n)
(* the rules *)
Seed0 == {F.owner} \cup MSet(F.meta)
FitsIn(n) == n \notin Own /\ V(n).dims # <<>> /\ MSet(V(n).dims) \subseteq UNION {MSet(V(m).dims) : m \in Seed0}
NamedBy(n, S) == \E m \in S : V(m).bounds = n \/ n \in MSet(V(m).coords)
Allowed(n, S) == n \in Seed0 \/ FitsIn(n) \/ NamedBy(n, S)
Init == spec \in Specs /\ in = {}
Add(n) == n \notin in /\ Allowed(n, in) /\ in' = in \cup {n} /\ UNCHANGED spec
Next == \E n \in NameSet : Add(n)
Spec == Init /\ [][Next]_<<spec, in>>
Complete == \A n \in NameSet \ in : ~Allowed(n, in)
Closed(S) == Seed0 \subseteq S /\ (\A n \in NameSet : FitsIn(n) => n \in S) /\ \A n \in NameSet : NamedBy(n, S) => n \in S
(* --- checked *)
Confluent == Complete => in = Contents(spec, F)
Within == in \subseteq Contents(spec, F)
Least == Complete => Closed(in) /\ \A S \in SUBSET in : Closed(S) => S = in
(* variables with files of their own enter other files only when they are named *)
OwnersNamed == Complete => \A n \in in \cap Own : n \in Seed0 \/ NamedBy(n, in)
(* scalars too *)
ScalarsNamed == Complete => \A n \in in : V(n).dims = <<>> => n \in Seed0 \/ NamedBy(n, in)
=============================================================================
