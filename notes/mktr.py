#!/usr/bin/env python3
"""mktr.py NAME...: writes spec/TrNAME.tla, the trace specification of the functional module NAME."""
import os, sys
T = r'''---------------------------------- MODULE Tr%(n)s ----------------------------------
(* Trace validation: every recorded step of the real code must be the step the    *)
(* specification %(n)s takes, with the observation it predicts.                   *)
EXTENDS %(n)s, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
TInit == l = 1 /\ st = Empty
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] a == Apply(st, e) IN
              /\ IF Same(a.r, e.obs) THEN TRUE
                 ELSE LET k == {f \in Known(st, e) : Same(f.r, e.obs)} IN
                      IF k # {} THEN PrintT(<<"KNOWN", (CHOOSE f \in k : TRUE).id, l>>)
                      ELSE PrintT(<<"EXPECTED", l, a.r, "OBSERVED", e.obs>>) /\ FALSE
              /\ st' = a.s
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
TPost == PrintT(<<"ACC", TLCGet("stats").diameter - 1, Len(Trace)>>)
==================================================================================
'''
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
for n in sys.argv[1:]:
    open(os.path.join(d, "Tr%s.tla" % n), "w").write(T % dict(n=n))
