------------------------------ MODULE MCThreadPool ------------------------------
(* ThreadPool closed with a client that submits every task, blocks, and possibly  *)
(* destroys the pool: safety of every history and the liveness of block().        *)
EXTENDS ThreadPool
CONSTANTS N, Tasks, Failing, WithDtor
VARIABLES st, pc, todo
vars == <<st, pc, todo>>
E(op, th, t, v) == [op |-> op, th |-> th, t |-> t, v |-> v]
Init == st = Start0(N) /\ pc = "submit" /\ todo = Tasks
Do(e) == \E s \in Event(st, e) : st' = s

CallSubmit(t) == pc = "submit" /\ t \in todo /\ Do(E("submit", 0, t, 0)) /\ todo' = todo \ {t} /\ pc' = "insub"
RetSubmit     == pc = "insub" /\ PendT(st) = {} /\ pc' = (IF todo = {} /\ ~WithDtor THEN "block" ELSE "submit") /\ UNCHANGED <<st, todo>>
CallDtor      == pc = "submit" /\ WithDtor /\ Do(E("dtor", 0, 0, 0)) /\ pc' = "indtor" /\ UNCHANGED todo
RetDtor       == pc = "indtor" /\ Do(E("dtorret", 0, 0, 0)) /\ pc' = "over" /\ UNCHANGED todo
RetBlock      == pc = "block" /\ Do(E("blockret", 0, 0, 0)) /\ pc' = "returned" /\ UNCHANGED todo
ThrowBlock(t) == pc = "block" /\ Do(E("blockthrow", 0, t, 0)) /\ pc' = "thrown" /\ UNCHANGED todo
StartT(t, w)  == Do(E("start", w, t, 0)) /\ UNCHANGED <<pc, todo>>
EndT(t, w)    == Do(E("end", w, t, Bit(t \in Failing))) /\ UNCHANGED <<pc, todo>>
Internal      == st' \in Silent(st) /\ UNCHANGED <<pc, todo>>
Stay          == pc \in {"returned", "thrown", "over"} /\ UNCHANGED vars
Next == \/ \E t \in Tasks : CallSubmit(t) \/ ThrowBlock(t)
        \/ RetSubmit \/ CallDtor \/ RetDtor \/ RetBlock \/ Internal \/ Stay
        \/ \E t \in Tasks, w \in 1..N : StartT(t, w) \/ EndT(t, w)
Fair == /\ WF_vars(Internal) /\ WF_vars(RetSubmit) /\ WF_vars(RetBlock) /\ WF_vars(RetDtor)
        /\ WF_vars(\E t \in Tasks : CallSubmit(t))
        /\ WF_vars(\E t \in Tasks : ThrowBlock(t))
        /\ \A t \in Tasks : WF_vars(\E w \in 1..N : StartT(t, w)) /\ WF_vars(\E w \in 1..N : EndT(t, w))
Spec == Init /\ [][Next]_vars /\ Fair

Inv == /\ TypeOK(st) /\ Once(st) /\ Bounded(st)
       \* block() returns normally only when every task ran and none failed
       /\ (pc = "returned" => st.done = Tasks /\ st.exc = {} /\ Failing = {})
       /\ (pc = "thrown" => st.exc # {} /\ st.exc \subseteq Failing /\ st.running = {} /\ st.taken = {})
       /\ (pc = "over" => st.running = {} /\ st.taken = {})
BlockReturns == pc = "block" ~> pc \in {"returned", "thrown"}
TasksRun     == Failing = {} /\ ~WithDtor => <>(st.done = Tasks)
DtorReturns  == pc = "indtor" ~> pc = "over"
==================================================================================
