----------------------------------- MODULE MCIds -----------------------------------
(* The algorithm: read the clock, take the later of it and the last id plus one, and   *)
(* install it with compare-and-swap.  The clock shows anything.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K, T
Threads == 1..N
VARIABLES last, pc, id, prev, left, given
vars == <<last, pc, id, prev, left, given>>
Init == last = 0 /\ pc = [t \in Threads |-> "idle"] /\ id = [t \in Threads |-> 0] /\ prev = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> K] /\ given = <<>>
Read(t) == pc[t] = "idle" /\ left[t] > 0 /\ \E now \in 1..T : id' = [id EXCEPT ![t] = now]
           /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<last, prev, left, given>>
Load(t) == pc[t] = "load" /\ prev' = [prev EXCEPT ![t] = last] /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<last, id, left, given>>
New(t) == IF id[t] > prev[t] THEN id[t] ELSE prev[t] + 1
Cas(t) == pc[t] = "cas" /\ IF last = prev[t]
          THEN last' = New(t) /\ given' = Append(given, New(t)) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<id, prev>>
          ELSE pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<last, id, prev, left, given>>
Next == \E t \in Threads : Read(t) \/ Load(t) \/ Cas(t)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 1..Len(given) : i # j => given[i] # given[j]
==================================================================================
