----------------------------- MODULE MC_DimMap -----------------------------
(* The derivation of the dimension map, for every list of variables within the bounds.                            *)
EXTENDS DimMap
CONSTANTS NVars, Same
OutDims == {"x", "y", "z"}
InpDims == {"a", "b", "c"}
Lists(S) == {<<>>} \cup UNION {{s \in [1 .. n -> S] : Cardinality(MSet(s)) = n} : n \in 1 .. Cardinality(S)}
Vars == {[out |-> o, inp |-> i] : o \in Lists(OutDims), i \in Lists(InpDims)}
(* declared and defined dimensions differ in number only in the models without Same *)
Sensible == IF Same THEN {v \in Vars : Len(v.out) = Len(v.inp)} ELSE Vars
VARIABLES vs, m, todo
Ranked(s) == [k \in DOMAIN s |-> [out |-> s[k].out, inp |-> s[k].inp, rank |-> k]]
Init == vs \in {Ranked(s) : s \in [1 .. NVars -> Sensible]} /\ m = MapState(TRUE, EmptyMap) /\ todo = SortVars(vs)
Step == /\ todo # <<>> /\ m.ok /\ m' = MapStep(m, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED vs
Next == Step
Spec == Init /\ [][Next]_<<vs, m, todo>>
Done == todo = <<>> /\ m.ok
OneToOne == Injective(m.o2i)
(* what was matched stays matched *)
Extends == [][\A d \in DOMAIN m.o2i : d \in DOMAIN m'.o2i /\ m'.o2i[d] = m.o2i[d]]_<<vs, m, todo>>
Covered == Done => \A k \in DOMAIN vs : MSet(vs[k].out) \subseteq DOMAIN m.o2i
OnlyUsed == \A d \in DOMAIN m.o2i : \E k \in DOMAIN vs : d \in MSet(vs[k].out) /\ m.o2i[d] \in MSet(vs[k].inp)
(* the order in which variables are listed does not matter *)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
OrderFree == todo = SortVars(vs) => \A i, j \in DOMAIN vs : DeriveMap(Swap(vs, i, j)) = DeriveMap(vs)
(* one consistent renaming of everything is always found *)
Pi == {f \in [OutDims -> InpDims] : \A a, b \in OutDims : f[a] = f[b] => a = b}
Possible == todo = SortVars(vs) => \A f \in Pi :
   (\A k \in DOMAIN vs : vs[k].inp = [i \in DOMAIN vs[k].out |-> f[vs[k].out[i]]]) => DeriveMap(vs).ok /\ \A d \in DOMAIN DeriveMap(vs).o2i : DeriveMap(vs).o2i[d] = f[d]
=============================================================================
