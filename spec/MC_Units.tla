------------------------------ MODULE MC_Units ------------------------------
(* Laws of unit conversion and unit algebra, for every combination of the units and values below.                  *)
EXTENDS Phys
CONSTANT Many
Names == IF ~Many THEN {"K", "degC", "m", "km", "s", "1", "%", "km/h"} ELSE {"K", "degC", "degF", "m", "cm", "km", "s", "min", "hour", "day", "Pa", "hPa", "1", "%", "m2", "m s-1", "km/h"}
Refs == {UnitOf([n |-> n, ref |-> <<y, m, 1, 0>>, cal |-> c]) : n \in {"days", "hours"}, y \in {1999, 2000}, m \in IF Many THEN {1, 3} ELSE {3}, c \in {"noleap", "standard"}}
AllUnits == {BaseUnit(n) : n \in Names} \cup Refs
Values == IF Many THEN {Zero, One, <<-5, 2>>, <<40, 1>>, Missing} ELSE {<<-5, 2>>, Missing}
VARIABLES u, v, w, x, y
Init == u \in AllUnits /\ v \in AllUnits /\ w \in {t \in AllUnits : Convertible(u, t)} /\ x \in Values /\ y \in {Zero, <<3, 1>>, Missing}
Next == UNCHANGED <<u, v, w, x, y>>
Spec == Init /\ [][Next]_<<u, v, w, x, y>>
X(n) == Arr(<<>>, <<>>, <<x>>, n, "", "f")
Y(n) == Arr(<<>>, <<>>, <<y>>, n, "", "f")
(* where a scale or a value goes beyond TLC's integers nothing is claimed *)
Claimed(A) == A.u.k # Unknown /\ A.c[1] # Unknown
Same(A, B) == IF A.err # "" \/ B.err # "" THEN A.err = B.err \/ A.u.k = Unknown \/ B.u.k = Unknown
              ELSE Claimed(A) /\ Claimed(B) => SameUnit(A.u, B.u) /\ A.c = B.c
(* convertible is an equivalence *)
Equivalence == Convertible(u, u) /\ (Convertible(u, v) <=> Convertible(v, u)) /\ (Convertible(u, v) => Convertible(v, w) /\ Convertible(w, v))
RoundTrip == Convertible(u, v) /\ Reciprocal(u, v) = FALSE => Same(Conv(Conv(X(u), v), u), X(u))
Path == Convertible(u, v) => Same(Conv(Conv(X(u), w), v), Conv(X(u), v))
(* the units in which the right operand is stored do not matter; without offsets neither do those of the left one *)
RightUnits == Same(AddA(X(v), Conv(Y(u), w)), AddA(X(v), Y(u))) /\ Same(SubA(X(v), Conv(Y(u), w)), SubA(X(v), Y(u)))
LeftUnits == u.o = Zero /\ w.o = Zero /\ u.ref = <<>> => Same(Conv(AddA(Conv(X(u), w), Y(v)), u), AddA(X(u), Y(v)))
Products == u.o = Zero /\ w.o = Zero /\ u.ref = <<>> /\ v.ref = <<>> /\ ~Reciprocal(u, w) =>
              Same(Conv(MulA(Conv(X(u), w), Y(v)), UMul(u, v)), MulA(X(u), Y(v)))
              /\ (y # Zero => Same(Conv(DivA(Conv(X(u), w), Y(v)), UDiv(u, v)), DivA(X(u), Y(v))))
Commutes == u.ref = <<>> /\ v.ref = <<>> => Same(MulA(X(u), Y(v)), MulA(Y(v), X(u)))
Powers == u.ref = <<>> /\ u.o = Zero => Same(PowA(X(u), Scalar(<<2, 1>>, "i")), MulA(X(u), X(u))) /\ (x = Missing \/ x = Zero \/ Same(PowA(X(u), Scalar(<<-1, 1>>, "f")), DivA(Scalar(One, "f"), X(u))))
=============================================================================
