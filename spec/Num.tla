------------------------------------- MODULE Num -------------------------------------
(* Cosmological distances in units of the Hubble distance, and the numerical methods    *)
(* behind them.  Distances are integers in units of 1/S; densities are in hundredths,   *)
(* redshifts in units of 1/p.zd.  The integral over 1/E is evaluated here independently of the *)
(* code, with fixed point arithmetic, and results are compared within Near.             *)
EXTENDS VLib
S == 100000
Empty == <<>>
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
Abs(x) == IF x < 0 THEN -x ELSE x
\* floor(a * b / c) for naturals, whatever the product
RECURSIVE MD(_, _, _)
MD(a, b, c) == IF b = 0 THEN <<0, 0>> ELSE LET h == MD(a, b \div 2, c) r == 2 * h[2] + (IF b % 2 = 1 THEN a ELSE 0) IN <<2 * h[1] + (r \div c), r % c>>
MulDiv(a, b, c) == b * (a \div c) + MD(a % c, b, c)[1]
RECURSIVE Newton(_, _)
Newton(x, r) == LET n == (r + (x \div r)) \div 2 IN IF n >= r THEN r ELSE Newton(x, n)
ISqrt(x) == IF x = 0 THEN 0 ELSE Newton(x, 44722)
\* the square root of x as a fraction
Root(x) == LET k == ISqrt(2000000000 \div x) IN <<ISqrt(x * k * k), k>>

\* --------------------------------------------------------------------- cosmology
OmegaK(p) == 100 - p.m - p.l
\* E(x)^2 in millionths, for 1 + x = u / d
E2(p, u, d) == LET t2 == MulDiv(u * u, 1000000, d * d) t3 == MulDiv(t2, u, d) k == OmegaK(p) IN
               MulDiv(t3, p.m, 100) + (IF k < 0 THEN - MulDiv(t2, -k, 100) ELSE MulDiv(t2, k, 100)) + p.l * 10000
E(p, z) == LET r == Root(E2(p, p.zd + z, p.zd)) IN MulDiv(r[1], S, 1000 * r[2])
InvE(p, u, d) == LET r == Root(E2(p, u, d)) IN MulDiv(1000 * r[2], S, r[1])
\* comoving: the integral of 1/E from 0 to z (Simpson's rule on n intervals)
DC(p, z) == LET n == IF z <= 2 * p.zd THEN 16 ELSE 32 IN
            LET f == [i \in 1..(n + 1) |-> (IF i = 1 \/ i = n + 1 THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2) * InvE(p, p.zd * n + z * (i - 1), p.zd * n)] IN
            MulDiv(SumSeq(f), z, 3 * p.zd * n)
\* transverse: sinh(sqrt(k) x) / sqrt(k), which for k < 0 is a sine
RECURSIVE Series(_, _, _, _)
Series(t, q, sg, j) == IF t = 0 \/ j > 30 THEN 0 ELSE t + sg * Series(MulDiv(t, q, S * (2 * j) * (2 * j + 1)), q, sg, j + 1)
DT(p, x) == LET k == OmegaK(p) IN IF k = 0 THEN x ELSE Series(x, MulDiv(MulDiv(x, x, S), Abs(k), 100), IF k > 0 THEN 1 ELSE -1, 1)
DL(p, z, dt) == MulDiv(dt, p.zd + z, p.zd)
Vol(p, z, dt) == MulDiv(MulDiv(dt, dt, S), S, E(p, z))
\* how precisely the model itself knows a distance
Near(a, b, z) == Abs(a - b) <= 6 + 2 * z + (Abs(b) \div (IF z <= 8 THEN 5000 ELSE 400))
Close(a, b) == Abs(a - b) <= 3 + (Abs(b) \div 20000)
\* what is seen at a redshift: E, comoving, transverse, luminosity distance, the distance the modulus stands for, volume element, and the comoving distance at a lower precision
At(p, z, o) ==
  LET dc == DC(p, z) IN
  IF z = 0 THEN o = <<S, 0, 0, 10, 10, 0, 0>>
  ELSE /\ Close(o[1], E(p, z))
       /\ Near(o[2], dc, (4 * z) \div p.zd)
       \* the relations between the distances hold for the distances of the code
       /\ Close(o[3], DT(p, o[2]))
       /\ Close(o[4], DL(p, z, o[3]))
       /\ Close(o[5], o[4])
       /\ Close(o[6], Vol(p, z, o[3]))
       /\ Abs(o[7] - o[2]) <= 2 + (o[2] \div 500)
Cosmo(st, e) ==
  LET v == e.obs.v n == Len(e.zs)
      good == /\ e.obs.k = "ok" /\ Len(v) = 5 + 7 * n
              \* the parameters, and the Hubble distance in kpc
              /\ SubSeq(v, 1, 4) = <<e.m, e.l, OmegaK(e), e.h>> /\ Abs(v[5] - (299792458 \div e.h)) <= 1
              /\ \A i \in 1..n : At(e, e.zs[i], SubSeq(v, 7 * i - 1, 7 * i + 5))
              \* further away at higher redshifts
              /\ \A i, j \in 1..n : e.zs[i] < e.zs[j] => v[7 * i] < v[7 * j]
  IN Ret(st, IF good THEN e.obs
             ELSE Ok(<<e.m, e.l, OmegaK(e), e.h, 299792458 \div e.h>> \o
                     Flat([i \in 1..n |-> LET z == e.zs[i] c == DC(e, z) t == DT(e, c) IN
                                          IF z = 0 THEN <<S, 0, 0, 10, 10, 0, 0>> ELSE <<E(e, z), c, t, DL(e, z, t), DL(e, z, t), Vol(e, z, t), c>>])))

\* ------------------------------------------------------------------ numerical methods
\* the extended Simpson's rule on the nodes f[1..N+1]: in units of h / 24
Weight(i, n) == LET k == Min2(i - 1, n + 1 - i) IN <<9, 28, 23, 24>>[Min2(k, 3) + 1]
Rule(f) == LET n == Len(f) - 1 IN SumSeq([i \in 1..(n + 1) |-> Weight(i, n) * f[i]])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* the integral of a polynomial between a / 2 and b / 2, in 1/3840
Integral(c, a, b) == SumSeq([i \in 1..Len(c) |-> c[i] * (Pow(b, i) - Pow(a, i)) * (3840 \div (i * Pow(2, i)))])
\* value and derivatives of a polynomial at x / 2, in 1/64
Value(c, x) == SumSeq([i \in 1..Len(c) |-> c[i] * Pow(x, i - 1) * (64 \div Pow(2, i - 1))])
Deriv(c) == [i \in 1..(Len(c) - 1) |-> c[i + 1] * i]
Within(e, x, tol) == e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Abs(e.obs.v[1] - x) <= tol
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "cosmo" -> Cosmo(st, e)
    [] e.op = "simp" -> Ret(st, IF e.order < e.min THEN Throw ELSE Ok(<<Rule(e.fv) * e.w>>))
    [] e.op = "adapt" -> LET x == Integral(e.c, e.a, e.b) IN Ret(st, IF Within(e, x, 2 + (x \div e.prec)) THEN e.obs ELSE Ok(<<x>>))
    \* both solutions, the smaller one first
    [] e.op = "sq" -> Ret(st, IF e.a = 0 THEN (IF e.b = 0 THEN Throw ELSE Ok(<<e.p, e.p>>)) ELSE Ok(<<Min2(e.p, e.q), Max2(e.p, e.q)>>))
    [] e.op = "der" -> LET x == IF e.n = 1 THEN Value(Deriv(e.c), e.x) ELSE Value(Deriv(Deriv(e.c)), e.x) IN Ret(st, IF Within(e, x, 1) THEN e.obs ELSE Ok(<<x>>))
==================================================================================
