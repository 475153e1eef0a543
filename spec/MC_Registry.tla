----------------------------- MODULE MC_Registry -----------------------------
(* All histories of loading a few classes with every choice of key and bases: what a name means depends on the set *)
(* of classes with that name only.                                                                               *)
EXTENDS Registry
CONSTANTS MaxIds, Keys, MaxBases
VARIABLE cs
BaseLists(cls) == LET B == {cls[i].id : i \in DOMAIN cls} \cup {Root, "object"} IN UNION {{b \in [1 .. n -> B] : Cardinality({b[i] : i \in 1 .. n}) = n} : n \in 1 .. MaxBases}
Init == cs = <<>>
IdSeq == <<"A", "B", "C", "D">>
Load == Len(cs) < MaxIds /\ \E id \in {IdSeq[Len(cs) + 1]}, k \in Keys \cup {""} : \E b \in BaseLists(cs) : cs' = Append(cs, [id |-> id, key |-> k, bases |-> b])
Next == Load
Spec == Init /\ [][Next]_cs
Count(k) == Cardinality({i \in DOMAIN cs : IsFunction(cs, cs[i].id) /\ KeyOf(cs, cs[i].id) = k})
ExactlyOne == \A k \in Keys \cup {RootKey, "zz"} : Resolve(cs, k).ok <=> Count(k) = 1
Meant == \A k \in Keys : Resolve(cs, k).ok => KeyOf(cs, Resolve(cs, k).id) = k
Listed == \A k \in Keys : Resolve(cs, k).ok => k \in Names(cs)
(* loading more changes a name only by adding a function of that name *)
Stable == [][\A k \in Keys : Resolve(cs, k).ok => (Resolve(cs', k) = Resolve(cs, k) \/ Resolve(cs', k).id = "several")]_cs
NeverLess == [][Functions(cs) \subseteq Functions(cs')]_cs
(* the order in which independent classes were loaded does not matter *)
Swapped(i) == [cs EXCEPT ![i] = cs[i + 1], ![i + 1] = cs[i]]
OrderFree == \A i \in 1 .. Len(cs) - 1 : \A k \in Keys : Resolve(Swapped(i), k) = Resolve(cs, k)
=============================================================================
