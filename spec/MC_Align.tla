------------------------------ MODULE MC_Align ------------------------------
(* Operations match dimensions by name: for every storage order of the operands the result is the same quantity,    *)
(* and transposition moves every cell together with its coordinates.                                              *)
EXTENDS Phys
CONSTANT Dims
Names == Dims
Len3 == [d \in Names |-> CASE d = "x" -> 2 [] d = "y" -> 3 [] OTHER -> 1]
Orders(S) == {s \in UNION {[1 .. n -> S] : n \in {Cardinality(S)}} : SetOf(s) = S}
Shape(s) == [i \in DOMAIN s |-> Len3[s[i]]]
(* the value at a cell encodes its coordinates *)
W(d) == CASE d = "x" -> 1 [] d = "y" -> 2 [] OTHER -> 6
RECURSIVE Code(_, _)
Code(s, co) == IF s = <<>> THEN 0 ELSE W(s[1]) * co[1] + Code(Tail(s), Tail(co))
Build(s, k) == Arr(s, Shape(s), [i \in 1 .. Prod(Shape(s)) |-> I2R(k * (1 + Code(s, CoordsOf(i - 1, Shape(s)))))], UOne, "", "f")
VARIABLES A, B, p, q
Init == \E S \in SUBSET Names, T \in SUBSET Names : \E s \in Orders(S), t \in Orders(T) :
           A = Build(s, 1) /\ B = Build(t, 100) /\ p \in Orders(S) /\ q \in Orders(T)
Next == UNCHANGED <<A, B, p, q>>
Spec == Init /\ [][Next]_<<A, B, p, q>>
SameQ(C, D) == SetOf(C.dims) = SetOf(D.dims) /\ Transpose(C, D.dims).c = D.c /\ Transpose(C, D.dims).shape = D.shape
Ops == <<AddA(A, B), SubA(A, B), MulA(A, B), DivA(A, B)>>
Permuted == LET C == Transpose(A, p) D == Transpose(B, q) IN <<AddA(C, D), SubA(C, D), MulA(C, D), DivA(C, D)>>
OrderFree == \A i \in 1 .. 4 : SameQ(Permuted[i], Ops[i])
LeftFirst == \A i \in 1 .. 4 : SubSeq(Ops[i].dims, 1, Len(A.dims)) = A.dims
TransposeBack == Transpose(Transpose(A, p), A.dims) = A
Moves == \A k \in DOMAIN Transpose(A, p).c : Transpose(A, p).c[k] = I2R(1 + Code(p, CoordsOf(k - 1, Shape(p))))
ReduceFree == \A S \in SUBSET Names : SameQ(Reduce(Transpose(A, p), "sum", S), Reduce(A, "sum", S)) /\ SameQ(Reduce(Transpose(A, p), "max", S), Reduce(A, "max", S))
ReduceJoint == \A d \in Names : Reduce(Reduce(A, "sum", {d}), "sum", Names) = Reduce(A, "sum", Names)
=============================================================================
