---------------------------- MODULE MC_Direction ----------------------------
(* The signed quantity along the upward direction does not depend on the direction in which the operands of a      *)
(* linear expression are stored.                                                                                  *)
EXTENDS Phys
D == {"", "up", "down"}
VARIABLES A, B, n
Init == /\ A \in {Arr(<<>>, <<>>, <<x>>, UOne, p, "f") : x \in {<<2, 1>>, <<-3, 1>>, Missing}, p \in D}
        /\ B \in {Arr(<<>>, <<>>, <<x>>, UOne, p, "f") : x \in {<<5, 1>>, <<-7, 1>>, Zero}, p \in D}
        /\ n \in {-2, -1, 0, 1, 2, 3}
Next == UNCHANGED <<A, B, n>>
Spec == Init /\ [][Next]_<<A, B, n>>
Up(C) == IF C.pos = "down" THEN RNeg(C.c[1]) ELSE C.c[1]
Directed == A.pos # "" /\ B.pos # ""
Linear == Directed => /\ Up(AddA(A, B)) = RAdd(Up(A), Up(B)) /\ Up(SubA(A, B)) = RSub(Up(A), Up(B)) /\ Up(NegA(A)) = RNeg(Up(A))
FlipInvariant == Up(Flip(A)) = Up(A) /\ (Directed => Up(AddA(A, Flip(B))) = Up(AddA(A, B)) /\ Up(AddA(Flip(A), B)) = Up(AddA(A, B)))
ResultDirection == \A R \in {AddA(A, B), SubA(A, B), MulA(A, B), DivA(A, B)} : R.pos = (IF A.pos # "" THEN A.pos ELSE B.pos)
HalfDirected == A.pos = "" \/ B.pos = "" => AddA(A, B).c = <<RAdd(A.c[1], B.c[1])>> /\ MulA(A, B).c = <<RMul(A.c[1], B.c[1])>>
TowardOK == \A p \in {"up", "down"} : Toward(A, p).pos = p /\ (A.pos # "" => Up(Toward(A, p)) = Up(A)) /\ (A.pos = "" => Toward(A, p).c = A.c) /\ Toward(Toward(A, p), p) = Toward(A, p)
FlipTwice == Flip(Flip(A)) = A
PowerDirection == LET P == PowA(A, Scalar(I2R(n), "i")) IN P.err = "" => P.pos = (IF n % 2 = 0 THEN "" ELSE A.pos)
PowerOdd == n % 2 = 1 /\ n > 0 => Up(PowA(Flip(A), Scalar(I2R(n), "i"))) = Up(PowA(A, Scalar(I2R(n), "i")))
ConvKeeps == \A u \in {BaseUnit("%"), UOne} : Conv(A, u).pos = A.pos
=============================================================================
