-------------------------------- MODULE Rat --------------------------------
(* Exact rational cells <<n, d>>, d > 0, in lowest terms.                                                        *)
(*   Missing: a masked cell.   Unknown: not representable with TLC's 32 bit integers (the specification then    *)
(*   makes no claim about the cell; the trace checks count how often).   <<n, -1>>: not a finite number.        *)
EXTENDS Integers, Sequences
Missing == <<0, 0>>
Unknown == <<1, 0>>
MaxI == 2147483647
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
MulOK(a, b) == a = 0 \/ b = 0 \/ AbsI(a) <= MaxI \div AbsI(b)
AddOK(a, b) == IF a >= 0 THEN b <= MaxI - a ELSE b >= -MaxI - a
IsNum(x) == x[2] > 0
I2R(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Norm(n, d) == LET g == Gcd(AbsI(n), AbsI(d)) IN IF d > 0 THEN <<n \div g, d \div g>> ELSE <<(-n) \div g, (-d) \div g>>
(* results: Missing dominates, then Unknown *)
Lift2(x, y, v) == IF x = Missing \/ y = Missing THEN Missing ELSE IF ~IsNum(x) \/ ~IsNum(y) THEN Unknown ELSE v
RAdd(x, y) ==
  Lift2(x, y, LET g == Gcd(x[2], y[2]) b == x[2] \div g d == y[2] \div g
              IN IF ~MulOK(x[1], d) \/ ~MulOK(y[1], b) \/ ~MulOK(x[2], d) THEN Unknown
                 ELSE IF ~AddOK(x[1] * d, y[1] * b) THEN Unknown
                 ELSE Norm(x[1] * d + y[1] * b, x[2] * d))
RNeg(x) == IF IsNum(x) THEN <<-x[1], x[2]>> ELSE IF x = Missing THEN Missing ELSE Unknown
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) ==
  Lift2(x, y, IF x[1] = 0 \/ y[1] = 0 THEN Zero
              ELSE LET g == Gcd(AbsI(x[1]), y[2]) h == Gcd(AbsI(y[1]), x[2])
                       a == x[1] \div g  d == y[2] \div g  c == y[1] \div h  b == x[2] \div h
                   IN IF MulOK(a, c) /\ MulOK(b, d) THEN <<a * c, b * d>> ELSE Unknown)
RInv(x) == IF ~IsNum(x) THEN (IF x = Missing THEN Missing ELSE Unknown) ELSE IF x[1] = 0 THEN Missing
           ELSE IF x[1] > 0 THEN <<x[2], x[1]>> ELSE <<-x[2], -x[1]>>
(* division by zero gives a missing cell *)
RDiv(x, y) == IF x = Missing \/ y = Missing THEN Missing ELSE IF IsNum(y) /\ y[1] = 0 THEN Missing ELSE RMul(x, RInv(y))
RECURSIVE RPowN(_, _)
RPowN(x, n) == IF n = 0 THEN One ELSE IF n = 1 THEN x ELSE RMul(x, RPowN(x, n - 1))
RPow(x, n) == IF n >= 0 THEN (IF x = Missing THEN Missing ELSE RPowN(x, n)) ELSE RInv(RPowN(x, -n))
(* comparison without overflow, by continued fractions: -1, 0, 1 *)
RECURSIVE RCmp(_, _)
RCmp(x, y) == LET fx == x[1] \div x[2] fy == y[1] \div y[2]
              IN IF fx < fy THEN -1 ELSE IF fx > fy THEN 1
                 ELSE LET rx == x[1] % x[2] ry == y[1] % y[2]
                      IN IF rx = 0 /\ ry = 0 THEN 0 ELSE IF rx = 0 THEN -1 ELSE IF ry = 0 THEN 1
                         ELSE RCmp(<<y[2], ry>>, <<x[2], rx>>)
RLt(x, y) == RCmp(x, y) = -1
RLe(x, y) == RCmp(x, y) # 1
RAbs(x) == IF IsNum(x) THEN <<AbsI(x[1]), x[2]>> ELSE x
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RMax(x, y) == IF RLe(x, y) THEN y ELSE x
(* integer square root of n >= 0, or -1 *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, k) == IF k * k = n THEN k ELSE IF k * k > n \/ k >= 46340 THEN -1 ELSE ISqrtFrom(n, k + 1)
RSqrt(x) == IF x = Missing THEN Missing ELSE IF ~IsNum(x) THEN Unknown ELSE IF x[1] < 0 THEN Missing
            ELSE LET a == ISqrtFrom(x[1], 0) b == ISqrtFrom(x[2], 1) IN IF a >= 0 /\ b > 0 THEN <<a, b>> ELSE Unknown
(* floor, and truncation towards zero *)
RTrunc(x) == IF ~IsNum(x) THEN x ELSE IF x[1] >= 0 THEN <<x[1] \div x[2], 1>> ELSE <<-((-x[1]) \div x[2]), 1>>
(* does an observed cell agree with the expected one?  denominators above the bound of the projection are not    *)
(* recoverable from a float, so no claim is made then                                                            *)
Agree(exp, obs, maxden) == \/ exp = Unknown
                           \/ exp = obs
                           \/ IsNum(exp) /\ obs = Unknown /\ (exp[2] > maxden \/ AbsI(exp[1]) \div exp[2] >= 1000)
                           \/ IsNum(exp) /\ exp[2] > maxden /\ obs # Missing /\ (obs[2] > 0 \/ obs = <<7, -1>>)
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN Zero ELSE RAdd(s[1], RSumSeq(Tail(s)))
=============================================================================
