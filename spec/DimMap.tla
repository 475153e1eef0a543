------------------------------- MODULE DimMap -------------------------------
(* Derivation of the correspondence between input and output dimensions: variables with the fewest dimensions   *)
(* first (names break ties), dimensions that are already matched are set aside, and the others are paired in    *)
(* order.  A variable is [out: its dimensions, inp: the dimensions of its definition].                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EmptyMap == [x \in {} |-> x]
MSet(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Drop(_, _)
Drop(s, S) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in S THEN <<>> ELSE <<s[1]>>) \o Drop(Tail(s), S)
MapState(ok, o2i) == [ok |-> ok, o2i |-> o2i]
MapStep(m, v) ==
  IF ~m.ok THEN m
  ELSE LET uo == Drop(v.out, DOMAIN m.o2i)
           ui == Drop(v.inp, {m.o2i[d] : d \in MSet(v.out) \cap DOMAIN m.o2i})
       IN IF Len(uo) # Len(ui) THEN MapState(FALSE, m.o2i)
          ELSE IF \E i \in DOMAIN ui : ui[i] \in {m.o2i[d] : d \in DOMAIN m.o2i} THEN MapState(FALSE, m.o2i)
          ELSE MapState(TRUE, [d \in MSet(uo) |-> ui[CHOOSE i \in DOMAIN uo : uo[i] = d]] @@ m.o2i)
RECURSIVE MapFold(_, _)
MapFold(m, vs) == IF vs = <<>> THEN m ELSE MapFold(MapStep(m, vs[1]), Tail(vs))
(* vs: sequence of [out, inp, rank] in any order *)
Precedes(v, w) == Len(v.out) < Len(w.out) \/ (Len(v.out) = Len(w.out) /\ v.rank < w.rank)
RECURSIVE Insert(_, _)
Insert(v, s) == IF s = <<>> THEN <<v>> ELSE IF Precedes(v, s[1]) THEN <<v>> \o s ELSE <<s[1]>> \o Insert(v, Tail(s))
RECURSIVE SortVars(_)
SortVars(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortVars(Tail(s)))
DeriveMap(vs) == MapFold(MapState(TRUE, EmptyMap), SortVars(vs))
Injective(o2i) == \A a, b \in DOMAIN o2i : o2i[a] = o2i[b] => a = b
(* the map covers a variable: renaming the dimensions of its definition gives exactly its dimensions *)
Covers(o2i, v) == /\ MSet(v.out) \subseteq DOMAIN o2i
                  /\ {o2i[d] : d \in MSet(v.out)} = MSet(v.inp) /\ Len(v.out) = Len(v.inp)
ToOut(o2i, d) == IF \E o \in DOMAIN o2i : o2i[o] = d THEN CHOOSE o \in DOMAIN o2i : o2i[o] = d ELSE d
=============================================================================
