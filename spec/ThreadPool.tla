------------------------------- MODULE ThreadPool -------------------------------
(* Euclid::ThreadPool as its users see it.                                        *)
(* Events are what a user can observe (calls, returns, tasks starting and ending);*)
(* Silent steps are the internal linearization points: a task enters the queue,   *)
(* a worker takes the next task, a failure is recorded, the pool is stopped.      *)
EXTENDS VLib

\* queue    tasks waiting, oldest first       pend     tasks inside submit(), not queued yet
\* taken    handed to a worker, not started   running  [t, th] executing
\* failed   ended by an exception that is not recorded yet
\* exc      tasks whose exception is recorded stop     "no" / "called" / "yes"
\* thrown   (pool without threads) tasks whose exception leaves through submit()
\* calls    what the observers' pending calls have seen so far
Start0(n) == [n |-> n, queue |-> <<>>, pend |-> {}, taken |-> {}, running |-> {}, failed |-> {}, exc |-> {},
              done |-> {}, thrown |-> {}, workers |-> {}, stop |-> "no", calls |-> {}, fin |-> FALSE]
Empty == [Start0(0) EXCEPT !.fin = TRUE]

Busy(st) == Cardinality(st.taken) + Cardinality(st.running) + Cardinality(st.failed)
PendT(st) == {p.t : p \in st.pend}
RunT(st)  == {r.t : r \in st.running}
Idle(st)  == st.queue = <<>> /\ st.pend = {} /\ st.taken = {} /\ st.running = {} /\ st.failed = {}

\* ------------------------------------------------------------------ silent steps
Enq(st)  == IF st.n = 0 THEN {} ELSE {[st EXCEPT !.pend = @ \ {p}, !.queue = Append(@, p.t)] : p \in st.pend}
Take(st) == IF st.n > 0 /\ st.queue # <<>> /\ st.exc = {} /\ st.stop # "yes" /\ Busy(st) < st.n
            THEN {[st EXCEPT !.queue = Tail(@), !.taken = @ \cup {Head(st.queue)}]} ELSE {}
Rec(st)  == {[st EXCEPT !.failed = @ \ {t}, !.exc = @ \cup {t}] : t \in st.failed}
Stop(st) == IF st.stop = "called" THEN {[st EXCEPT !.stop = "yes"]} ELSE {}
Snap(st) == {[st EXCEPT !.calls = (@ \ {c}) \cup {[c EXCEPT !.v = Len(st.queue)]}] :
               c \in {x \in st.calls : x.k = "queued" /\ x.v = -1}}
Silent(st) == Enq(st) \cup Take(st) \cup Rec(st) \cup Stop(st) \cup Snap(st)

\* ------------------------------------------------------------------------ events
If(c, s) == IF c THEN {s} ELSE {}
Call(st, k, th, v) == {[st EXCEPT !.calls = @ \cup {[k |-> k, th |-> th, v |-> v]}]}
Of(st, k, th) == CHOOSE c \in st.calls : c.k = k /\ c.th = th
Has(st, k, th) == \E c \in st.calls : c.k = k /\ c.th = th
Ret(st, k, th) == [st EXCEPT !.calls = @ \ {Of(st, k, th)}]

Event(st, e) ==
  CASE e.op = "new"    -> If(st.fin, Start0(e.v))
    [] e.op = "submit" -> {[st EXCEPT !.pend = @ \cup {[t |-> e.t, th |-> e.th]}]}
    [] e.op = "subret" -> If(e.t \notin PendT(st) /\ e.t \notin st.thrown, st)
    [] e.op = "subthrow" -> If(st.n = 0 /\ e.v \in st.thrown, [st EXCEPT !.thrown = @ \ {e.v, e.t}, !.done = @ \cup {e.t}])
    [] e.op = "start"  ->
         IF st.n = 0
         THEN If([t |-> e.t, th |-> e.th] \in st.pend /\ e.t \notin RunT(st),
                 [st EXCEPT !.running = @ \cup {[t |-> e.t, th |-> e.th]}])
         ELSE If(/\ e.t \in st.taken
                 /\ \A r \in st.running : r.th # e.th
                 /\ Cardinality(st.workers \cup {e.th}) <= st.n,
                 [st EXCEPT !.taken = @ \ {e.t}, !.running = @ \cup {[t |-> e.t, th |-> e.th]}, !.workers = @ \cup {e.th}])
    [] e.op = "end"    ->
         LET r == [t |-> e.t, th |-> e.th]
             s == [st EXCEPT !.running = @ \ {r}, !.pend = @ \ {r}, !.done = @ \cup {e.t}] IN
         If(r \in st.running,
            IF e.v = 0 THEN s ELSE IF st.n = 0 THEN [s EXCEPT !.thrown = @ \cup {e.t}] ELSE [s EXCEPT !.failed = @ \cup {e.t}])
    [] e.op = "block"      -> {st}
    [] e.op = "blockret"   -> If(Idle(st) /\ st.exc = {}, st)
    [] e.op = "blockthrow" -> If(e.t \in st.exc /\ st.taken = {} /\ st.running = {} /\ st.failed = {}, st)
    [] e.op = "check"      -> Call(st, "check", e.th, Bit(st.exc = {}))
    [] e.op = "checkret"   -> If(IF e.v = 1 THEN st.exc # {} ELSE Of(st, "check", e.th).v = 1, Ret(st, "check", e.th))
    [] e.op = "checkthrow" -> If(e.t \in st.exc, Ret(st, "check", e.th))
    [] e.op = "queued"     -> Call(st, "queued", e.th, -1)
    [] e.op = "queuedret"  -> If(Of(st, "queued", e.th).v = e.v, Ret(st, "queued", e.th))
    [] e.op = "running"    -> {[st EXCEPT !.calls = @ \cup {[k |-> "runset", th |-> e.th, v |-> r.t] : r \in st.running}]}
    [] e.op = "runningret" ->
         LET was == {c \in st.calls : c.k = "runset" /\ c.th = e.th}
         IN If(st.n = 0 \/ (e.v <= st.n /\ e.v >= Cardinality({c \in was : c.v \in RunT(st)})), [st EXCEPT !.calls = @ \ was])
    [] e.op = "active"     -> Call(st, "active", e.th, Bit(st.exc = {} /\ st.failed = {} /\ st.stop = "no"))
    [] e.op = "activeret"  -> If(e.v >= 0 /\ e.v <= st.n /\ (st.exc = {} /\ st.failed = {} /\ st.stop = "no" => e.v = st.n),
                                 Ret(st, "active", e.th))
    [] e.op = "allended"   -> {st}
    [] e.op = "dtor"       -> {[st EXCEPT !.stop = "called"]}
    [] e.op = "dtorwait"   -> If(st.stop = "yes", st)
    [] e.op = "dtorret"    -> If(st.stop = "yes" /\ st.taken = {} /\ st.running = {}, st)
    [] e.op = "fin"        -> {[st EXCEPT !.fin = TRUE]}
    [] OTHER -> {}        \* deadlock, stuck, crash, hang: never allowed

\* --------------------------------------------------------------------- invariants
TypeOK(st) == Cardinality(RunT(st)) = Cardinality(st.running)
Once(st)   == /\ st.taken \cap RunT(st) = {} /\ st.taken \cap st.done = {} /\ RunT(st) \cap st.done = {}
              /\ Range(st.queue) \cap (st.taken \cup RunT(st) \cup st.done) = {}
              /\ Cardinality(Range(st.queue)) = Len(st.queue)
Bounded(st) == st.n > 0 => Busy(st) <= st.n
==================================================================================
