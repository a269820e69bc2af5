------------------------------------ MODULE Kern ------------------------------------
(* The helpers of the kernel: lists of values in a text, the tail of a tuple, and       *)
(* holders of an instance or of a reference to one.  Texts are sequences of characters. *)
(* st.o: the objects, [on, x, kind]; st.h: the holders, [on, own, o]                     *)
EXTENDS VLib, SequencesExt
Empty == [o |-> <<>>, h |-> <<>>]
Known(st, e) == {}
\* ------------------------------------------------------------------------ the lists
Blank == {" ", "\t", "\n", "\r"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
Value(c) == IdxOf(c, Digits) - 1
RECURSIVE TrimL(_)
TrimL(t) == IF t = <<>> THEN t ELSE IF t[1] \in Blank THEN TrimL(Tail(t)) ELSE t
RECURSIVE TrimR(_)
TrimR(t) == IF t = <<>> THEN t ELSE IF t[Len(t)] \in Blank THEN TrimR(Front1(t)) ELSE t
Trim(t) == TrimR(TrimL(t))
\* separators next to each other count as one
RECURSIVE Split(_, _, _)
Split(t, seps, cur) ==
  IF t = <<>> THEN <<cur>>
  ELSE IF \E i \in 1..Len(seps) : seps[i] = t[1]
       THEN <<cur>> \o Split(LET k == {j \in 1..Len(t) : \A i \in 1..j : t[i] \in Range(seps)} IN SubSeq(t, Cardinality(k) + 1, Len(t)), seps, <<>>)
       ELSE Split(Tail(t), seps, Append(cur, t[1]))
Text(t) == Join(t, "")
RECURSIVE Strip0(_)
Strip0(t) == IF Len(t) > 1 /\ t[1] = "0" THEN Strip0(Tail(t)) ELSE t
Unsigned(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
Sign(t) == t # <<>> /\ t[1] \in {"+", "-"}
Body(t) == IF Sign(t) THEN Tail(t) ELSE t
Minus(t) == t # <<>> /\ t[1] = "-"
\* not above another number of digits without leading zeros
RECURSIVE NotAbove(_, _)
NotAbove(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE IF a = <<>> THEN TRUE ELSE IF a[1] = b[1] THEN NotAbove(Tail(a), Tail(b)) ELSE Value(a[1]) < Value(b[1])
Max32(neg) == <<"2", "1", "4", "7", "4", "8", "3", "6", "4", IF neg THEN "8" ELSE "7">>
Max64(neg) == <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", IF neg THEN "8" ELSE "7">>
\* the text of a value of a type, or <<>> if the text has none
IntOf(t, max(_)) == LET b == Strip0(Body(t)) IN
  IF ~Unsigned(Body(t)) \/ ~NotAbove(b, max(Minus(t))) THEN <<>> ELSE <<IF Minus(t) /\ b # <<"0">> THEN "-" \o Text(b) ELSE Text(b)>>
\* decimal numbers: the digits before and after the point; trailing zeros do not matter
RECURSIVE StripR(_)
StripR(t) == IF t # <<>> /\ t[Len(t)] = "0" THEN StripR(Front1(t)) ELSE t
DecOf(t) ==
  LET b == Body(t) k == {i \in 1..Len(b) : b[i] = "."} IN
  IF b = <<>> \/ Cardinality(k) > 1 \/ (\E i \in 1..Len(b) : b[i] # "." /\ ~IsDigit(b[i])) \/ b = <<".">> THEN <<>>
  ELSE LET p == IF k = {} THEN Len(b) + 1 ELSE CHOOSE i \in k : TRUE
           w == Strip0(<<"0">> \o SubSeq(b, 1, p - 1))
           f == StripR(SubSeq(b, p + 1, Len(b)))
       IN <<(IF Minus(t) /\ (w # <<"0">> \/ f # <<>>) THEN "-" ELSE "") \o Text(w) \o (IF f = <<>> THEN "" ELSE "." \o Text(f))>>
ValueOf(ty, t) == CASE ty = "int" -> IntOf(t, Max32) [] ty = "long" -> IntOf(t, Max64) [] ty = "double" -> DecOf(t) [] ty = "string" -> <<Text(t)>>
Parts(e) == Split(Trim(e.t), e.seps, <<>>)
\* an empty part at either end (or an empty text) is left open for texts; no number is empty
ToVec(e) ==
  LET p == Parts(e) r == Map(LAMBDA x : ValueOf(e.ty, x), p) IN
  IF \E i \in 1..Len(p) : r[i] = <<>> THEN Throw
  ELSE IF e.ty = "string" /\ \E i \in 1..Len(p) : p[i] = <<>>
       THEN LET q == SelectSeq(p, LAMBDA x : x # <<>>) IN IF e.obs = OkS(Map(Text, q)) THEN e.obs ELSE OkS(Map(Text, p))
       ELSE OkS(Flat(r))
\* ---------------------------------------------------------------------- the holders
Alive(o) == Cardinality({i \in 1..Len(o) : o[i].on = 1})
\* what an object says of itself: a derived one adds 1000
Says(ob) == IF ob.kind = "derived" THEN ob.x + 1000 ELSE ob.x
Apply(st, e) ==
  CASE e.op = "new" -> [s |-> Empty, r |-> Okay]
    [] e.op = "tovec" -> [s |-> st, r |-> ToVec(e)]
    [] e.op = "tail" -> [s |-> st, r |-> OkS(Tail(e.x))]
    [] e.op = "obj" -> LET o == Append(st.o, [on |-> 1, x |-> e.x, kind |-> e.kind]) IN [s |-> [st EXCEPT !.o = o], r |-> Ok(<<Alive(o)>>)]
    [] e.op = "inst" -> LET o == Append(st.o, [on |-> 1, x |-> e.x, kind |-> e.kind]) IN
                        [s |-> [o |-> o, h |-> Append(st.h, [on |-> 1, own |-> 1, o |-> Len(o)])], r |-> Ok(<<Alive(o)>>)]
    [] e.op = "hold" -> [s |-> [st EXCEPT !.h = Append(@, [on |-> 1, own |-> 0, o |-> e.o])], r |-> Ok(<<Alive(st.o)>>)]
    [] e.op = "get" -> LET h == st.h[e.h] IN [s |-> st, r |-> Ok(<<Says(st.o[h.o]), h.o>>)]
    [] e.op = "set" -> [s |-> [st EXCEPT !.o[st.h[e.h].o].x = e.x], r |-> Okay]
    [] e.op = "oset" -> [s |-> [st EXCEPT !.o[e.o].x = e.x], r |-> Okay]
    [] e.op = "oget" -> [s |-> st, r |-> Ok(<<Says(st.o[e.o])>>)]
    [] e.op = "drop" -> LET h == st.h[e.h] o == IF h.own = 1 THEN [st.o EXCEPT ![h.o].on = 0] ELSE st.o IN
                        [s |-> [o |-> o, h |-> [st.h EXCEPT ![e.h].on = 0]], r |-> Ok(<<Alive(o)>>)]
==================================================================================
