------------------------------ MODULE TrThreadPool ------------------------------
(* Recorded histories of the real pool must be behaviours of ThreadPool: TLC finds *)
(* where the unlogged internal steps went.                                         *)
EXTENDS ThreadPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
TInit == l = 1 /\ st = Empty
TNext == \/ /\ l <= Len(Trace)
            /\ \E s \in Event(st, Trace[l]) : st' = s
            /\ l' = l + 1
         \/ /\ l <= Len(Trace)
            /\ \E s \in Silent(st) : st' = s
            /\ l' = l
TSpec == TInit /\ [][TNext]_<<l, st>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
TInv == Mark /\ TypeOK(st) /\ Once(st) /\ Bounded(st)
TPost == PrintT(<<"ACC", TLCGet(1) - 1, Len(Trace)>>)
==================================================================================
