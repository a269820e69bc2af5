---------------------------------- MODULE MCKdTree ----------------------------------
(* For every small point set, every tree the algorithm may build (ties in any order)  *)
(* and every query, pruning loses nothing and invents nothing.                         *)
EXTENDS KdTree, Json
CONSTANTS N, S, NPts, Vals0, Emit
VARIABLES pts, done
Coords == [1..N -> Vals0]
Init == pts \in UNION {[1..n -> Coords] : n \in 0..NPts} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED pts
Spec == Init /\ [][Next]_<<pts, done>>
Radii == 0..3
Centres == [1..N -> {v - 1 : v \in Vals0} \cup Vals0]
PruningIsExact ==
  done \/ \A t \in Trees(pts, [i \in 1..Len(pts) |-> i], 1, N, S) :
    \A c \in Centres, r \in Radii : Query(pts, t, c, r) = Range(Hits(pts, c, r))
PrintH == (Emit /\ ~done /\ (\A i \in 1..(Len(pts) - 1) : Ravel(pts[i], [k \in 1..N |-> 9]) <= Ravel(pts[i + 1], [k \in 1..N |-> 9])))
             => PrintT("GEN" \o ToJson(pts))
==================================================================================
