----------------------------------- MODULE MCPdf -----------------------------------
(* Every PDF with N samples and values 0..M: the laws of the model.                     *)
EXTENDS Pdf, Json
CONSTANTS N, M, Emit
VARIABLES y
X == [i \in 1..N |-> i + (i \div 3)]
Init == y \in [1..N -> 0..M] /\ \E i \in 1..N : y[i] > 0
Next == UNCHANGED y
Spec == Init /\ [][Next]_y
C == [x |-> X, y |-> Sums(y)]
\* every sample with probability belongs to exactly one mode, and the modes come highest first
ModeLaw == \A k \in {0, 3, 8} : LET ms == Modes(X, y, k) IN
   /\ \A i \in 1..N : (y[i] > 0) <=> (Cardinality({m \in 1..Len(ms) : i \in ms[m].l..ms[m].r}) = 1)
   /\ \A m \in 2..Len(ms) : ms[m].peak <= ms[m - 1].peak
   /\ SumSeq([m \in 1..Len(ms) |-> ms[m].a2]) = SumSeq([i \in 1..N |-> y[i] * Dx2(X, i)])
IntervalLaw == \A k \in {1, 8, 13, 16} :
   /\ MinIntervals(C, k) # {}
   /\ LET t == Tray(C, k) IN t[1] <= t[2]
PrintH == Emit => PrintT("GEN" \o ToJson(y))
==================================================================================
