---------------------------------- MODULE TrCatConf ----------------------------------
(* Trace validation: every recorded step of the real code must be the step the    *)
(* specification CatConf takes, with the observation it predicts.                   *)
EXTENDS CatConf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
TInit == l = 1 /\ st = Empty
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] a == CApply(st, e) IN
              /\ IF Same(a.r, e.obs) THEN TRUE
                 ELSE LET k == {f \in Known(st, e) : Same(f.r, e.obs)} IN
                      IF k # {} THEN PrintT(<<"KNOWN", (CHOOSE f \in k : TRUE).id, l>>)
                      ELSE PrintT(<<"EXPECTED", l, a.r, "OBSERVED", e.obs>>) /\ FALSE
              /\ st' = a.s
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
TPost == PrintT(<<"ACC", TLCGet("stats").diameter - 1, Len(Trace)>>)
==================================================================================
