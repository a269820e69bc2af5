---------------------------------- MODULE MCNdArr ----------------------------------
(* Bounded exhaustive exploration of NdArr: checks the view invariants and prints   *)
(* every explored history, to be replayed into the real class.                      *)
EXTENDS NdArr, Json
CONSTANTS Depth, MaxH, StartsN, WithConcat, Emit
VARIABLES st, hist
vars == <<st, hist>>

Seq0(n) == [i \in 1..n |-> 10 + i]
MkOp(sh, at) == [op |-> "mk", shape |-> sh, attrs |-> at, how |-> "vec",
                 data |-> Seq0(Prod(IF at = <<>> THEN sh ELSE Append(sh, Len(at))))]
Starts == SubSeq(<< <<<<2, 3>>, <<>>>>, <<<<2, 1, 2>>, <<>>>>, <<<<2>>, <<"ID", "Z">>>>, <<<<3>>, <<>>>> >>, 1, StartsN)
Shapes == {<<6>>, <<3, 2>>, <<2, 2>>, <<4>>, <<3>>, <<1, 3>>, <<2>>}
StartOps == {MkOp(s[1], s[2]) : s \in Range(Starts)}

H == 1..Len(st.arrs)
Room == Len(st.arrs) < MaxH
LastCoord(a) == [i \in 1..Len(a.shape) |-> a.shape[i] - 1]
Ops == (IF Room THEN {[op |-> o, h |-> h, i |-> i] : o \in {"slice", "rslice"}, h \in H, i \in {0, 1, 2}} ELSE {})
       \cup (IF Room THEN {[op |-> o, h |-> h] : o \in {"copy", "dup"}, h \in H} ELSE {})
       \cup {[op |-> "reshape", h |-> h, shape |-> s] : h \in H, s \in Shapes}
       \cup {[op |-> "set", h |-> h, c |-> LastCoord(st.arrs[h]), v |-> 90 + Len(hist)] : h \in {x \in H : st.arrs[x].cells # <<>>}}
       \cup (IF WithConcat THEN {[op |-> "concat", h |-> h, g |-> g] : h \in H, g \in H} ELSE {})

Init == \E m \in StartOps : LET a == Apply(Empty, m) IN st = a.s /\ hist = <<m>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : LET a == Apply(st, o) IN
             /\ a.r.k = "ok" \/ o.op = "reshape"
             /\ ~(o.op \in {"reshape", "concat"} /\ Stale(st.arrs[o.h]))
             /\ ~(o.op = "concat" /\ Stale(st.arrs[o.g]))
             /\ st' = a.s /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
PrintH == (Emit /\ Len(hist) = Depth) => PrintT("GEN" \o ToJson(hist))

\* A handle denotes distinct cells of its buffer, as many as its shape says, and
\* named handles have one name per position of the last axis.
WellFormed == \A h \in H : LET a == st.arrs[h] IN
  /\ Len(a.cells) = Prod(a.shape)
  /\ \A i, j \in 1..Len(a.cells) : i # j => a.cells[i] # a.cells[j]
  /\ \A i \in 1..Len(a.cells) : a.cells[i] \in 1..Len(st.bufs[a.b])
  /\ a.attrs # <<>> => IF Len(a.shape) = 1 THEN Len(a.attrs) <= a.shape[1] ELSE Len(a.attrs) = Last1(a.shape)

\* The slices of an array, put together, are the array; cutting first and last axis commutes.
SlicesCover == \A h \in H : LET a == st.arrs[h] IN
  Len(a.shape) > 1 =>
    /\ Flat([i \in 1..a.shape[1] |-> Last1(Slice(st, [h |-> h, i |-> i - 1]).s.arrs).cells]) = a.cells
    /\ UNION {Range(Last1(RSlice(st, [h |-> h, i |-> i]).s.arrs).cells) : i \in 0..(Last1(a.shape) - 1)} = Range(a.cells)
    /\ Len(a.shape) > 2 => \A i \in 0..(a.shape[1] - 1), j \in 0..(Last1(a.shape) - 1) :
         LET s1 == Slice(st, [h |-> h, i |-> i]).s
             s2 == RSlice(s1, [h |-> Len(s1.arrs), i |-> j]).s
             t1 == RSlice(st, [h |-> h, i |-> j]).s
             t2 == Slice(t1, [h |-> Len(t1.arrs), i |-> i]).s
         IN Last1(s2.arrs).cells = Last1(t2.arrs).cells

\* An element written through one handle is the element read through every handle
\* that denotes the cell, and nothing else changes.
Aliasing == \A h, g \in H : LET a == st.arrs[h] b == st.arrs[g] IN
  a.cells # <<>> =>
    LET c == LastCoord(a) s2 == Set(st, [h |-> h, c |-> c, v |-> 777]).s IN
    \A k \in 1..Len(b.cells) :
      Vals(s2, b)[k] = IF a.b = b.b /\ b.cells[k] = Cell(a, c) THEN 777 ELSE Vals(st, b)[k]
==================================================================================
