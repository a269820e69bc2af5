-------------------------------- MODULE GridInterp --------------------------------
(* Interpolation on a grid with any number of axes, continuous or discrete.            *)
(* kn[a]: the knots of axis a, in the order of the arguments; disc[a] = 1: discrete;   *)
(* sh: the shape of the values, whose axes are in the same order or (rev = 1) reversed;*)
(* vals: row-major values.  Arguments are given in halves.                             *)
EXTENDS Rat
Empty == <<>>
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Sizes(kn) == [a \in 1..Len(kn) |-> Len(kn[a])]
Sorted(k) == \A i \in 2..Len(k) : k[i - 1] <= k[i]
Bad(e) == \/ (IF e.rev = 1 THEN Rev(e.sh) ELSE e.sh) # Sizes(e.kn)
          \/ \E a \in 1..Len(e.kn) : e.disc[a] = 0 /\ ~Sorted(e.kn[a])
          \/ e.cubic = 1
Cell(g, idx) == g.vals[1 + Ravel([i \in 1..Len(idx) |-> (IF g.rev = 1 THEN Rev(idx) ELSE idx)[i] - 1], g.sh)]
\* the segment of a continuous axis with at least two knots that is used for q: the first or last one when q is outside
Seg(k, q) == IF q <= 2 * k[1] THEN 1 ELSE IF q > 2 * k[Len(k)] THEN Len(k) - 1
             ELSE (CHOOSE i \in 2..Len(k) : 2 * k[i] >= q /\ 2 * k[i - 1] < q) - 1
RECURSIVE At(_, _, _)
At(g, q, idx) ==
  LET a == Len(idx) + 1 IN
  IF a > Len(g.kn) THEN R(Cell(g, idx), 1)
  ELSE LET k == g.kn[a] x == q[a] IN
    IF g.disc[a] = 1 THEN (IF \E i \in 1..Len(k) : 2 * k[i] = x THEN At(g, q, Append(idx, CHOOSE i \in 1..Len(k) : 2 * k[i] = x /\ \A j \in 1..(i - 1) : k[j] # k[i])) ELSE RZ)
    ELSE IF g.ext = 0 /\ (x < 2 * k[1] \/ x > 2 * k[Len(k)]) THEN RZ
    ELSE IF Len(k) = 1 THEN At(g, q, Append(idx, 1))
    ELSE LET i == Seg(k, x) d == 2 * (k[i + 1] - k[i]) w == x - 2 * k[i] IN
         RAdd(RMul(At(g, q, Append(idx, i)), R(d - w, d)), RMul(At(g, q, Append(idx, i + 1)), R(w, d)))
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "grid" -> IF Bad(e) THEN Ret(st, Throw)
                        ELSE Ret(Append(st, [kn |-> e.kn, sh |-> e.sh, vals |-> e.vals, rev |-> e.rev, ext |-> e.ext, disc |-> e.disc]), Okay)
    [] e.op = "cp" -> Ret(Append(st, st[e.g]), Okay)
    [] e.op = "at" -> Ret(st, IF e.obs.k = "ok" /\ Len(e.obs.v) = Len(e.qs) /\ \A i \in 1..Len(e.qs) : Near(At(st[e.g], e.qs[i], <<>>), e.obs.v[i]) THEN e.obs
                              ELSE Res("values", Flat([i \in 1..Len(e.qs) |-> LET r == At(st[e.g], e.qs[i], <<>>) IN <<r.n, r.d>>]), <<>>))
==================================================================================
