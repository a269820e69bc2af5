----------------------------------- MODULE Rat -----------------------------------
(* Exact rationals [n, d] in lowest terms, and their comparison with rounded results. *)
EXTENDS VLib
S == 1000                      \* the drivers report rounded thousandths
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- rationals ----
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
R(n, d) == LET g == Gcd(Abs(n), d) IN [n |-> n \div g, d |-> d \div g]
RZ == R(0, 1)
RAdd(a, b) == LET g == Gcd(a.d, b.d) IN R(a.n * (b.d \div g) + b.n * (a.d \div g), a.d * (b.d \div g))
RMul(a, b) == LET x == R(a.n, b.d) y == R(b.n, a.d) IN R(x.n * y.n, x.d * y.d)
RNeg(a) == [a EXCEPT !.n = -@]
\* obs is S * a rounded, up to one unit
Near(a, obs) == Abs(obs) < 1500000000 /\ LET q == a.n \div a.d r == a.n % a.d IN
                LET z == obs - S * q IN z \in -2..(S + 2) /\ Abs(z * a.d - S * r) <= a.d
RSum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN RZ ELSE RAdd(F[i - 1], s[i]) IN F[Len(s)]
RMin(a, b) == IF a.n * b.d <= b.n * a.d THEN a ELSE b
RLess(a, b) == a.n * b.d < b.n * a.d
RLeq(a, b) == a.n * b.d <= b.n * a.d
==================================================================================
