-------------------------------- MODULE Rational --------------------------------
(* Non-negative rationals as reduced pairs <<n, d>>; Inf = <<1, 0>>.              *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
R(n, d) == IF d = 0 THEN <<1, 0>> ELSE LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Whole(n) == <<n, 1>>
Inf == <<1, 0>>
Zero == <<0, 1>>
IsInf(a) == a[2] = 0
Add(a, b) == IF IsInf(a) \/ IsInf(b) THEN Inf
             ELSE LET g == Gcd(a[2], b[2]) IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Mul(a, b) == IF IsInf(a) \/ IsInf(b) THEN Inf
             ELSE LET x == R(a[1], b[2]) y == R(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Inv(a) == <<a[2], a[1]>>
Div(a, b) == IF b[1] = 0 THEN Inf ELSE IF IsInf(b) THEN Zero ELSE Mul(a, Inv(b))
Leq(a, b) == IF IsInf(b) THEN TRUE ELSE IF IsInf(a) THEN FALSE
             ELSE LET g == Gcd(a[2], b[2]) IN a[1] * (b[2] \div g) <= b[1] * (a[2] \div g)
Lt(a, b) == ~Leq(b, a)
Max(a, b) == IF Leq(a, b) THEN b ELSE a
Min(a, b) == IF Leq(a, b) THEN a ELSE b
RECURSIVE MaxOf(_), SumOf(_)
MaxOf(s) == IF s = <<>> THEN Zero ELSE Max(s[1], MaxOf(Tail(s)))
SumOf(s) == IF s = <<>> THEN Zero ELSE Add(s[1], SumOf(Tail(s)))
=============================================================================
