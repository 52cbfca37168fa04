------------------------------ MODULE Rational ------------------------------
(* Exact rationals [n |-> numerator, d |-> positive denominator], in lowest terms. *)
EXTENDS Kit
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == Gcd(Abs(n), Abs(d)) IN
              IF n = 0 THEN [n |-> 0, d |-> 1] ELSE [n |-> s * (n \div g), d |-> (s * d) \div g]
R(n) == [n |-> n, d |-> 1]
RAdd(a, b) == LET g == Gcd(a.d, b.d) IN Norm(a.n * (b.d \div g) + b.n * (a.d \div g), a.d * (b.d \div g))
RNeg(a) == [n |-> -a.n, d |-> a.d]
RSub(a, b) == RAdd(a, RNeg(b))
\* cross-cancelled, so that intermediate products stay small
RMul(a, b) == LET x == Norm(a.n, b.d)
                  y == Norm(b.n, a.d) IN Norm(x.n * y.n, x.d * y.d)
RInv(a) == Norm(a.d, a.n)
RDiv(a, b) == RMul(a, RInv(b))
RPos(a) == a.n > 0
RSum(s) == FoldLeft(RAdd, R(0), s)
=============================================================================
