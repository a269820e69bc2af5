------------------------------- MODULE MCGridInterp -------------------------------
(* All small two-axis grids over the given shapes and values: laws of the model.       *)
EXTENDS GridInterp, Json
CONSTANTS Emit, Vs
VARIABLES st, h
vars == <<st, h>>
Axes == {<<0>>, <<0, 1>>, <<-1, 1>>, <<0, 1, 3>>}
Init == st = Empty /\ h = <<>>
Next == /\ h = <<>>
        /\ \E k1, k2 \in Axes, d \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}, rv \in {0, 1}, ex \in {0, 1} :
           \E v \in [1..(Len(k1) * Len(k2)) -> Vs] :
             LET sh == <<Len(k1), Len(k2)>> IN
             LET e == [op |-> "grid", kn |-> <<k1, k2>>, sh |-> IF rv = 1 THEN Rev(sh) ELSE sh, vals |-> v, rev |-> rv, ext |-> ex, disc |-> d, cubic |-> 0] IN
             st' = Apply(st, e).s /\ h' = <<e>>
Spec == Init /\ [][Next]_vars
G == st[1]
Corner == st # <<>> => \A i \in 1..Len(G.kn[1]), j \in 1..Len(G.kn[2]) : At(G, <<2 * G.kn[1][i], 2 * G.kn[2][j]>>, <<>>) = R(Cell(G, <<i, j>>), 1)
Qs == -3..7
\* inside the grid every value is between the smallest and the largest one
Between == st # <<>> => \A q \in Qs, p \in Qs : LET r == At(G, <<q, p>>, <<>>) IN
   G.ext = 0 => \/ r = RZ
                \/ (\E x \in Range(G.vals) : RLeq(R(x, 1), r)) /\ (\E x \in Range(G.vals) : RLeq(r, R(x, 1)))
PrintH == (Emit /\ h # <<>>) => PrintT("GEN" \o ToJson(h))
==================================================================================
