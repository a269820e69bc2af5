----------------------------------- MODULE TrIds -----------------------------------
EXTENDS Ids, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
TInit == l = 1 /\ st = Empty
TNext == /\ l <= Len(Trace)
         /\ \E s \in Event(st, Trace[l]) : st' = s
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
Mark == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
TInv == Mark /\ Distinct(st)
TPost == PrintT(<<"ACC", TLCGet(1) - 1, Len(Trace)>>)
==================================================================================
