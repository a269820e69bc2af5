----------------------------------- MODULE MCCat -----------------------------------
(* All settings with all fluxes and errors of a small set.                             *)
EXTENDS Cat, Json
CONSTANTS Emit
Vals == {-6336, -128, -64, 0, 64, 320, 640, NaN, PInf, NInf}
Errs == {-6336, -128, -64, 0, 8, 64, 128, PInf, NInf}
VARIABLES flux, err, s, n, mag
vars == <<flux, err, s, n, mag>>
Init == /\ mag \in {0, 1} /\ n \in {1, 2, 4}
        /\ flux \in IF mag = 1 THEN {-6336, -160, 0, 160, 320, 480, 640, NaN} ELSE Vals
        /\ err \in IF mag = 1 THEN {-6336, -128, -64, 0, 64, 128, 192} ELSE Errs
        /\ s \in [miss : {0, 1}, flag : {-6336, 0, 320}, up : {0, 1}, uflag : {-6336, -64, 64}]
        /\ (mag = 1 /\ flux = -6336 => s.flag = -6336)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
P == Phot(flux, err, s, 2 * n)
Sound == mag = 0 /\ P # <<>> =>
           /\ (P[3] = 1 => s.miss = 1 /\ P[2] = 0)
           /\ (P[4] = 1 => s.up = 1 /\ P[1] > 0 /\ P[3] = 0)
           /\ (P[3] = 0 => P[2] > 0 /\ P[1] # NaN)
           /\ P[1] = flux
PrintH == Emit => PrintT("GEN" \o ToJson([flux |-> flux, err |-> err, n |-> n, mag |-> mag, miss |-> s.miss, flag |-> s.flag, up |-> s.up, uflag |-> s.uflag]))
==================================================================================
