---------------------------------- MODULE MCGrid ----------------------------------
(* All short histories of slicing, iterating and fixing on small grids.              *)
EXTENDS Grid, Json
CONSTANTS Shape, Depth, Emit, Ops
VARIABLES st, h
vars == <<st, h>>
N == Len(Shape)
KN == [a \in 1..N |-> [i \in 1..Shape[a] |-> 2 * i]]
Ev0 == [op |-> "grid", kn |-> KN]
Fixes == {[op |-> o, ax |-> a, by |-> b, x |-> x, g |-> 1, i |-> 1] : o \in {"slice", "fix"}, a \in 1..N, b \in {"i"}, x \in 0..2}
Cand(s) ==
  ({[f EXCEPT !.g = k] : f \in {f \in Fixes : f.op = "slice" /\ f.x <= Shape[f.ax]}, k \in 1..Len(s.g)}
   \cup {[f EXCEPT !.i = k] : f \in {f \in Fixes : f.op = "fix" /\ f.x < Shape[f.ax]}, k \in 1..Len(s.it)}
   \cup {[op |-> "it", g |-> k] : k \in 1..Len(s.g)}
   \cup {[op |-> "next", i |-> k] : k \in {k \in 1..Len(s.it) : s.it[k].pos < Total(RootOf(s, s.it[k].g))}})
Init == st = Apply(Empty, Ev0).s /\ h = <<Ev0>>
Next == /\ Len(h) < Depth
        /\ \E e \in {e \in Cand(st) : e.op \in Ops} :
             /\ e.op = "it" => Len(st.it) < 1
             /\ LET a == Apply(st, e) IN st' = a.s
             /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars
\* a slice has as many cells as its axes say, all with the fixed values, and each cell once
SliceSound == \A g \in 1..Len(st.g) :
   LET c == Cells(st, g) v == View(st, g) IN
     /\ Len(c) = Prod(Sizes(v))
     /\ \A p \in 1..Len(c), a \in 1..N : Vals(RootOf(st, g), c[p])[a] \in Range(v[a])
     /\ \A n \in 1..Len(c) : ViewPos(st, g, Coord(n - 1, Sizes(v))) = c[n]
\* an iterator stands on a cell of its slice, or at the end
IterSound == \A i \in 1..Len(st.it) : LET q == st.it[i] r == RootOf(st, q.g) IN
   /\ q.pos \in 0..Total(r)
   /\ q.pos < Total(r) => Match(q.pos, Sizes(r.kn), q.fix) /\ Match(q.pos, Sizes(r.kn), st.g[q.g].fix)
PrintH == (Emit /\ (Len(h) = Depth \/ ~ENABLED Next)) => PrintT("GEN" \o ToJson(h))
==================================================================================
