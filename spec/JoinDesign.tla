----------------------------- MODULE JoinDesign -----------------------------
(* The combination rule for two slices of one axis, as the implementation states it.  MC_Join shows that it     *)
(* selects the same positions as the two slices applied one after the other.                                    *)
EXTENDS PySlice
JoinSlices(s1, s2, n) ==
  LET a1 == Start(s1, n)  b1 == Stop(s1, n)  c1 == Step(s1)
      n1 == Len(Range(a1, b1, c1))
      a2 == Start(s2, n1) b2 == Stop(s2, n1) c2 == Step(s2)
  IN IF (b1 - a1) * c1 > 0 /\ (b2 - a2) * c2 > 0
     THEN LET a == a1 + a2 * c1  b == a1 + b2 * c1
          IN [k |-> "s", a |-> <<a>>, b |-> IF a > b /\ b < 0 THEN <<>> ELSE <<b>>, c |-> <<c1 * c2>>]
     ELSE EmptySlice
JoinInt(s1, v, n) == LET n1 == Len(SlicePos(s1, n)) IN Start(s1, n) + (IF v < 0 THEN v + n1 ELSE v) * Step(s1)
=============================================================================
