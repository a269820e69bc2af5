----------------------------------- MODULE MCHist -----------------------------------
(* Every histogram of at most N small values, clipped up to K times.                    *)
EXTENDS Hist, Json
CONSTANTS N, K, Emit, Kinds
VARIABLES st, h
vars == <<st, h>>
Xs == UNION {[1..n -> 0..4] : n \in 0..N}
Sorted(x) == \A i \in 2..Len(x) : x[i - 1] <= x[i]
EdgeSets == {<<0, 4>>, <<0, 1, 4>>, <<1, 2, 3>>, <<0, 2, 2, 4>>, <<1, 2, 3, 4>>}
Init == st = Empty /\ h = <<>>
Build == /\ h = <<>>
         /\ \E x \in Xs, k \in Kinds, t \in {0, 2}, ed \in EdgeSets, w \in {0, 1} :
              /\ Sorted(x)
              /\ k # 0 => ed = <<0, 4>>
              /\ LET e == [op |-> "hist", kind |-> k, ty |-> t, ed |-> IF k = 0 THEN ed ELSE <<>>, x |-> x, w |-> IF w = 0 THEN <<>> ELSE [i \in 1..Len(x) |-> 1 + (i % 2)]] IN
                 st' = Apply(st, e).s /\ h' = <<e>>
Args == IF h[1].ty = 2 THEN {-1, 0, 1, 2, 3, 4, 5} ELSE {-3, 1, 5, 7, 9, 13, 19}
Clip == /\ h # <<>> /\ Len(h) <= K
        /\ \E a, b \in Args : a <= b /\ LET e == [op |-> "clip", g |-> 1, a |-> a, b |-> b] IN st' = Apply(st, e).s /\ h' = Append(h, e)
Next == Build \/ Clip
Spec == Init /\ [][Next]_vars
H == st[1]
\* nothing is counted twice or lost; what is left is a stretch of bins that holds the asked range where it was not cut before
CountLaw == st # <<>> => Sum(H.c) = WeightOf(h[1], LAMBDA i : Bin(H, ValPos(H, h[1].x[i])) # 0) /\ Len(H.c) = H.nb /\ Len(H.E) = H.nb + 1
AllCounted == (st # <<>> /\ h[1].kind # 0) => Sum(H.c) = WeightOf(h[1], LAMBDA i : TRUE)
ClipLaw == (st # <<>> /\ H.nb > 0) => 1 <= H.l /\ H.l <= H.r /\ H.r <= H.nb
ClipKeeps == (Len(h) = 2) => \A i \in 1..H.nb : LET a == ArgPos(H, h[2].a) b == ArgPos(H, h[2].b) IN
                (H.E[i] <= b /\ (a < H.E[i + 1] \/ (i = H.nb /\ a = H.E[i + 1]))) => i \in H.l..H.r
PrintH == (Emit /\ h # <<>>) => PrintT("GEN" \o ToJson(h))
==================================================================================
