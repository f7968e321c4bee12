--------------------------------- MODULE Rat ---------------------------------
(* Rational numbers <<numerator, denominator>>, reduced, denominator > 0.   *)
(* TLC stops with an error if a product leaves the 32-bit range.            *)
EXTENDS Integers
LOCAL AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(AbsI(n), AbsI(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), AbsI(d) \div g>>
R(n) == <<n, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(AbsI(a[1]), b[2])
                  h == Gcd(AbsI(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE Norm((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RLe(a, b) == RSub(a, b)[1] <= 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
=============================================================================
