----------------------------------- MODULE MCKern -----------------------------------
(* Every text of up to five characters of a small alphabet, as every type, and every    *)
(* history of objects and holders of up to five steps.                                  *)
EXTENDS Kern, Json
CONSTANTS Emit, MaxT, MaxH
VARIABLES st, h
Chars == {"1", ",", " ", "x", "-", "."}
Seps == {<<",", " ">>, <<",">>, <<"x">>}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxT}
TextInit == st = Empty /\ \E t \in Texts, ty \in {"int", "double", "string"}, s \in Seps : h = <<[op |-> "tovec", t |-> t, ty |-> ty, seps |-> s, obs |-> Throw]>>
HoldInit == st = Empty /\ h = <<[op |-> "new", x |-> 0]>>
Init == TextInit \/ HoldInit
Free(o) == st.o[o].on = 1 /\ \A i \in 1..Len(st.h) : st.h[i].own = 1 => st.h[i].o # o
Events ==
  {[op |-> "obj", x |-> 1, kind |-> "derived"], [op |-> "inst", x |-> 2, kind |-> "base"], [op |-> "inst", x |-> 3, kind |-> "derived"]}
  \cup {[op |-> "hold", o |-> o] : o \in {i \in 1..Len(st.o) : st.o[i].on = 1}}
  \cup {[op |-> k, h |-> i, x |-> 7] : k \in {"get", "set", "drop"}, i \in {j \in 1..Len(st.h) : st.h[j].on = 1 /\ st.o[st.h[j].o].on = 1}}
  \cup {[op |-> k, o |-> o, x |-> 8] : k \in {"oset", "oget"}, o \in {i \in 1..Len(st.o) : st.o[i].on = 1}}
Next == /\ h[1].op = "new" /\ Len(h) < MaxH
        /\ \E e \in Events : st' = Apply(st, e).s /\ h' = Append(h, e)
Spec == Init /\ [][Next]_<<st, h>>
\* of the parts: none contains a separator, and putting them together again gives the same parts
Lists == h[1].op = "tovec" =>
  LET e == h[1] p == Parts(e) IN
  /\ \A i \in 1..Len(p) : \A j \in 1..Len(p[i]) : p[i][j] \notin Range(e.seps)
  /\ \A i \in 2..(Len(p) - 1) : p[i] # <<>>
  /\ (e.ty # "string" /\ ToVec(e).k = "ok") => Len(ToVec(e).s) = Len(p)
\* an owned object lives as long as its holder; the others are not touched
Lives == \A i \in 1..Len(st.h) : st.h[i].own = 1 => st.o[st.h[i].o].on = st.h[i].on
PrintH == (Emit /\ (h[1].op = "tovec" \/ Len(h) = MaxH)) => PrintT("GEN" \o ToJson(h))
==================================================================================
