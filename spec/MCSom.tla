----------------------------------- MODULE MCSom -----------------------------------
(* Every small map, trained with every short sequence of inputs.                        *)
EXTENDS Som, Json
CONSTANTS Sizes, Vals, N, K, Ts, Emit
VARIABLES st, h
vars == <<st, h>>
Ws(n) == [1..n -> Vals]
Init == st = Empty /\ h = <<>>
Build == /\ h = <<>>
         /\ \E s \in Sizes, f \in {0, 1} : LET z == <<s \div 10, s % 10>> IN \E w \in Ws(z[1] * z[2]) :
              LET e == [op |-> "som", x |-> z[1], y |-> z[2], d |-> 1, f |-> f, init |-> w] IN
              st' = Apply(st, e).s /\ h' = <<e>>
Fit == /\ h # <<>> /\ Len(h) <= K
       /\ \E T \in Ts, nk \in {0, 1}, r \in {3, 5, 7}, lk \in {0, 1, 3}, n \in 0..N : \E x \in [1..n -> Vals] :
            /\ nk = 1 => r = 3
            /\ LET e == [op |-> "train", g |-> 1, T |-> T, nk |-> nk, nr |-> r, lk |-> lk, pol |-> 0, n |-> 0, in |-> Map(LAMBDA v : <<v>>, x)] IN
               st' = Apply(st, e).s /\ h' = Append(h, e)
Next == Build \/ Fit
Spec == Init /\ [][Next]_vars
H == st[1]
All(g) == {g.w[c][1] : c \in Cells(g)}
Seen == {h[1].init[i] : i \in 1..Len(h[1].init)} \cup UNION {{h[j].in[i][1] : i \in 1..Len(h[j].in)} : j \in 2..Len(h)}
\* weights never leave the range of what was seen
HullLaw == h # <<>> => \A v \in All(H) : (\E z \in Seen : z <= v) /\ (\E z \in Seen : z >= v)
\* an input learnt in full by its cell is found at no distance
LearnLaw == (Len(h) > 1 /\ Last1(h).op = "train" /\ Last1(h).T = 1 /\ Last1(h).lk = 0 /\ Last1(h).in # <<>>) => Last1(Last1(h).in) \in {H.w[c] : c \in Cells(H)}
\* a best cell exists for every input, and none is closer
BestLaw == h # <<>> => \A v \in Vals : LET B == BestCells(H, H.w, <<v>>, <<>>) IN B # {} /\ \A b \in B, v2 \in All(H) : Abs(H.w[b][1] - v) <= Abs(v2 - v)
PrintH == (Emit /\ h # <<>>) => PrintT("GEN" \o ToJson(h))
==================================================================================
