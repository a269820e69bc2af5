---------------------------------- MODULE KdTree ----------------------------------
(* Range queries on a set of points (KdTree/KdTree/KdTree.h).                       *)
(* Coordinates and radii are integers (the driver maps them to exact doubles).      *)
(* A point is its coordinate tuple; it is identified by its position in the input,  *)
(* so duplicated points are different points.                                       *)
EXTENDS VLib
Empty == [pts |-> <<>>]
RECURSIVE D2R(_, _, _)
D2R(p, c, i) == IF i = 0 THEN 0 ELSE (p[i] - c[i]) * (p[i] - c[i]) + D2R(p, c, i - 1)
D2(p, c) == D2R(p, c, Len(c))
InRange(p, c, r) == D2(p, c) < r * r
\* what the library promises: the positions, in increasing order
Hits(pts, c, r) == SelectSeq([i \in 1..Len(pts) |-> i], LAMBDA i : InRange(pts[i], c, r))
Apply(st, e) ==
  CASE e.op = "new"   -> [s |-> Empty, r |-> Okay]
    [] e.op = "build" -> [s |-> [pts |-> e.pts], r |-> Okay]
    [] e.op = "query" -> [s |-> st, r |-> Ok(Hits(st.pts, e.c, e.r))]
Known(st, e) == {}

\* ------------------------------------------------------------- the algorithm itself
\* A node is [leaf, ids, axis, split2, kids]; split2 is twice the splitting value.
\* Sorting puts ties in an arbitrary order: SortedBy is the set of possible orders.
SortedBy(pts, ids, ax) ==
  {o \in [1..Len(ids) -> Range(ids)] :
     /\ {o[i] : i \in 1..Len(ids)} = Range(ids)
     /\ \A i \in 1..(Len(ids) - 1) : pts[o[i]][ax] <= pts[o[i + 1]][ax]}
RECURSIVE Trees(_, _, _, _, _)
Trees(pts, ids, ax, N, S) ==
  IF Len(ids) <= S THEN {[leaf |-> TRUE, ids |-> Range(ids), axis |-> 1, split2 |-> 0, kids |-> <<>>]}
  ELSE UNION {LET h == Len(ids) \div 2 IN
         {[leaf |-> FALSE, ids |-> {}, axis |-> ax, split2 |-> pts[o[h]][ax] + pts[o[h + 1]][ax], kids |-> <<a, b>>] :
            a \in Trees(pts, SubSeq(o, 1, h), (ax % N) + 1, N, S),
            b \in Trees(pts, SubSeq(o, h + 1, Len(ids)), (ax % N) + 1, N, S)}
         : o \in SortedBy(pts, ids, ax)}
RECURSIVE Query(_, _, _, _)
Query(pts, t, c, r) ==
  IF t.leaf THEN {i \in t.ids : InRange(pts[i], c, r)}
  ELSE IF 2 * (c[t.axis] + r) < t.split2 THEN Query(pts, t.kids[1], c, r)
  ELSE IF 2 * (c[t.axis] - r) > t.split2 THEN Query(pts, t.kids[2], c, r)
  ELSE Query(pts, t.kids[1], c, r) \cup Query(pts, t.kids[2], c, r)
==================================================================================
