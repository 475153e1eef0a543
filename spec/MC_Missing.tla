----------------------------- MODULE MC_Missing -----------------------------
(* Missing cells: exactly the cells where an operand is missing or the operation is undefined.                    *)
EXTENDS Phys
CONSTANT Many
Cells == IF Many THEN {Missing, Zero, One, <<-4, 1>>, <<9, 1>>} ELSE {Missing, Zero, <<-4, 1>>}
VARIABLES A, B
Init == /\ \E f \in [1 .. 4 -> Cells] : A = Arr(<<"x", "y">>, <<2, 2>>, f, BaseUnit("degC"), "up", "f")
        /\ \E g \in [1 .. 2 -> {Missing, Zero, <<2, 1>>}] : B = Arr(<<"y">>, <<2>>, g, BaseUnit("K"), "", "f")
Next == UNCHANGED <<A, B>>
Spec == Init /\ [][Next]_<<A, B>>
Mis(C, k) == C.c[k] = Missing
BAt(k) == B.c[((k - 1) % 2) + 1]
K == 1 .. 4
Binary == \A k \in K : \A R \in {AddA(A, B), SubA(A, B), MulA(A, B)} : Mis(R, k) <=> Mis(A, k) \/ BAt(k) = Missing
Division == \A k \in K : Mis(DivA(A, B), k) <=> Mis(A, k) \/ BAt(k) \in {Missing, Zero}
Unary == \A k \in K : \A R \in {NegA(A), Flip(A), Conv(A, BaseUnit("K")), LimitA(A, <<Zero>>, <<One>>), Toward(A, "down"), ChDims(A, <<"p">>)} : Mis(R, k) <=> Mis(A, k)
Roots == LET R == SqrtA([A EXCEPT !.u = UOne]) IN \A k \in K : Mis(R, k) <=> Mis(A, k) \/ (IsNum(A.c[k]) /\ A.c[k][1] < 0)
Moves == LET T == Transpose(A, <<"y", "x">>) IN \A k \in K : Mis(T, k) <=> A.c[2 * ((k - 1) % 2) + ((k - 1) \div 2) + 1] = Missing
Reduce4 == {"sum", "mean", "min", "max"}
Reductions == \A h \in Reduce4 : \A k \in 1 .. 2 : Mis(Reduce(A, h, {"y"}), k) <=> Mis(A, 2 * k - 1) /\ Mis(A, 2 * k)
Jointly == \A h \in Reduce4 : Mis(Reduce(A, h, {"x", "y"}), 1) <=> \A k \in K : Mis(A, k)
=============================================================================
