------------------------------------ MODULE MCNum ------------------------------------
(* All cosmologies over small sets of densities, at all redshifts of Zs; the model is   *)
(* checked against closed forms and the laws the distances obey.                        *)
EXTENDS Num, Json
CONSTANTS Ms, Ls, Zs, Emit
VARIABLES p
Ok2(m, l) == \A z \in Zs : \A i \in 0..32 : E2([m |-> m, l |-> l, zd |-> 4], 128 + z * i, 128) > 100000
Init == p = <<>>
Next == p = <<>> /\ \E m \in Ms, l \in Ls : Ok2(m, l) /\ \E z \in Zs : p' = <<[m |-> m, l |-> l, z |-> z, zd |-> 4]>>
Spec == Init /\ [][Next]_p
P == p[1]
X == DC(P, P.z)
\* empty of matter and curvature: the integrand is 1
DeSitter == (p # <<>> /\ P.m = 0 /\ P.l = 100) => Near(X, (P.z * S) \div 4, P.z)
\* without a cosmological constant: Mattig's formula for the luminosity distance; nothing but curvature: (z + z^2 / 2)
Milne == (p # <<>> /\ P.m = 0 /\ P.l = 0) => Near(DL(P, P.z, DT(P, X)), ((P.z * S) \div 4) + (P.z * P.z * (S \div 32)), P.z + 8)
Mattig == (p # <<>> /\ P.m > 0 /\ P.l = 0 /\ P.z > 0) =>
          LET r == Root(1000000 + P.m * P.z * 2500)                 \* sqrt(1 + m z), in thousandths
              s == MulDiv(r[1], S, 1000 * r[2])
              a == MulDiv(P.m * P.z, S, 400)
              b == IF P.m < 200 THEN - MulDiv(200 - P.m, s - S, 100) ELSE MulDiv(P.m - 200, s - S, 100)
          IN a + b >= 0 => Abs(DL(P, P.z, DT(P, X)) - MulDiv(2 * (a + b), 10000, P.m * P.m)) <= 60 + 8 * P.z + (80000 \div (P.m * P.m)) + (DL(P, P.z, DT(P, X)) \div 200)
\* farther at higher redshifts, nearer with more matter, farther with more of the constant
Monotone == p # <<>> => \A z \in Zs : z < P.z => DC(P, z) < X
Densities == p # <<>> => /\ \A m \in Ms : (m < P.m /\ Ok2(m, P.l) /\ P.z > 0) => DC([m |-> m, l |-> P.l, zd |-> 4], P.z) > X
                         /\ \A l \in Ls : (l > P.l /\ Ok2(P.m, l) /\ P.z > 0) => DC([m |-> P.m, l |-> l, zd |-> 4], P.z) > X
\* positive curvature of space makes objects look larger
Curved == p # <<>> => (OmegaK(P) > 0 => DT(P, X) >= X) /\ (OmegaK(P) < 0 => DT(P, X) <= X)
PrintH == (Emit /\ p # <<>>) => PrintT("GEN" \o ToJson(<<[op |-> "cosmo", m |-> P.m, l |-> P.l, h |-> 70, zd |-> 4, zs |-> <<0, P.z>>]>>))
==================================================================================
