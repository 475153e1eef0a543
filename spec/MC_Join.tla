------------------------------- MODULE MC_Join -------------------------------
(* Every axis length up to N, every pair of slices with bounds within -B..B and steps within -S..S: the combined *)
(* slice selects what the two select one after the other; an integer after a slice likewise.                     *)
EXTENDS JoinDesign, TLC
CONSTANTS N, B, S
Bounds == {<<>>} \cup {<<x>> : x \in -B .. B}
Steps == {<<>>} \cup {<<x>> : x \in (-S .. S) \ {0}}
Slices == [k : {"s"}, a : Bounds, b : Bounds, c : Steps]
VARIABLES n, s1
Init == n \in 0 .. N /\ s1 = FullSlice
Next == s1 = FullSlice /\ s1' \in Slices /\ n' = n
Spec == Init /\ [][Next]_<<n, s1>>
Compose(p, q) == [i \in DOMAIN q |-> p[q[i] + 1]]
SliceLaw == LET p == SlicePos(s1, n) IN
            \A s2 \in Slices : SlicePos(JoinSlices(s1, s2, n), n) = Compose(p, SlicePos(s2, Len(p)))
IntLaw == LET p == SlicePos(s1, n) IN \A v \in -Len(p) .. (Len(p) - 1) : JoinInt(s1, v, n) = p[(IF v < 0 THEN v + Len(p) ELSE v) + 1]
InRange == \A i \in DOMAIN SlicePos(s1, n) : SlicePos(s1, n)[i] \in 0 .. (n - 1)
=============================================================================
