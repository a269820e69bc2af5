----------------------------- MODULE ThreadPoolImpl -----------------------------
(* How the implementation provides ThreadPool: a mutex, a deque, three flags per  *)
(* worker and polling.  One action per access to shared state.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, NT, Failing, WithDtor
W == 1..N
VARIABLES queue, lock, exc, run, slp, don, wpc, cur, cpc, k, ran, active
vars == <<queue, lock, exc, run, slp, don, wpc, cur, cpc, k, ran, active>>
Init == /\ queue = <<>> /\ lock = 0 /\ exc = 0 /\ k = 1 /\ cpc = "submit" /\ ran = <<>> /\ active = {}
        /\ run = [w \in W |-> TRUE] /\ slp = [w \in W |-> FALSE] /\ don = [w \in W |-> FALSE]
        /\ wpc = [w \in W |-> "lock"] /\ cur = [w \in W |-> 0]
C == N + 1   \* the client's lock id
Set(f, w, v) == [f EXCEPT ![w] = v]

WLock(w)  == wpc[w] = "lock" /\ lock = 0 /\ lock' = w /\ wpc' = Set(wpc, w, "test")
             /\ UNCHANGED <<queue, exc, run, slp, don, cur, cpc, k, ran, active>>
WTest(w)  == /\ wpc[w] = "test" /\ lock' = 0
             /\ IF ~run[w] \/ exc # 0 THEN wpc' = Set(wpc, w, "out1") /\ UNCHANGED <<queue, cur>>
                ELSE IF queue # <<>> THEN wpc' = Set(wpc, w, "exec") /\ cur' = Set(cur, w, Head(queue)) /\ queue' = Tail(queue)
                ELSE wpc' = Set(wpc, w, "sleep") /\ UNCHANGED <<queue, cur>>
             /\ UNCHANGED <<exc, run, slp, don, cpc, k, ran, active>>
WExec(w)  == wpc[w] = "exec" /\ active' = active \cup {cur[w]} /\ wpc' = Set(wpc, w, "finish")
             /\ UNCHANGED <<queue, lock, exc, run, slp, don, cur, cpc, k, ran>>
WFinish(w) == /\ wpc[w] = "finish" /\ active' = active \ {cur[w]} /\ ran' = Append(ran, cur[w])
              /\ wpc' = Set(wpc, w, IF cur[w] \in Failing THEN "rec" ELSE "lock")
              /\ UNCHANGED <<queue, lock, exc, run, slp, don, cur, cpc, k>>
WRec(w)   == wpc[w] = "rec" /\ lock = 0 /\ exc' = cur[w] /\ wpc' = Set(wpc, w, "lock")
             /\ UNCHANGED <<queue, lock, run, slp, don, cur, cpc, k, ran, active>>
WSleep(w) == wpc[w] = "sleep" /\ slp' = Set(slp, w, TRUE) /\ wpc' = Set(wpc, w, "wake")
             /\ UNCHANGED <<queue, lock, exc, run, don, cur, cpc, k, ran, active>>
WWake(w)  == wpc[w] = "wake" /\ slp' = Set(slp, w, FALSE) /\ wpc' = Set(wpc, w, "lock")
             /\ UNCHANGED <<queue, lock, exc, run, don, cur, cpc, k, ran, active>>
WOut1(w)  == wpc[w] = "out1" /\ slp' = Set(slp, w, TRUE) /\ wpc' = Set(wpc, w, "out2")
             /\ UNCHANGED <<queue, lock, exc, run, don, cur, cpc, k, ran, active>>
WOut2(w)  == wpc[w] = "out2" /\ don' = Set(don, w, TRUE) /\ wpc' = Set(wpc, w, "gone")
             /\ UNCHANGED <<queue, lock, exc, run, slp, cur, cpc, k, ran, active>>
Worker(w) == WLock(w) \/ WTest(w) \/ WExec(w) \/ WFinish(w) \/ WRec(w) \/ WSleep(w) \/ WWake(w) \/ WOut1(w) \/ WOut2(w)

Keep == UNCHANGED <<exc, slp, don, wpc, cur, ran, active>>
CSubmit == /\ cpc = "submit" /\ k <= NT /\ lock = 0 /\ queue' = Append(queue, k) /\ k' = k + 1
           /\ cpc' = "submit" /\ UNCHANGED <<lock, run>> /\ Keep
CGo     == /\ cpc = "submit" /\ cpc' = (IF WithDtor THEN "stop" ELSE "poll") /\ (k > NT \/ WithDtor)
           /\ k' = 1 /\ UNCHANGED <<queue, lock, run>> /\ Keep
CPoll   == /\ cpc = "poll" /\ lock = 0 /\ (queue = <<>> \/ exc # 0) /\ cpc' = "waitw" /\ k' = 1
           /\ UNCHANGED <<queue, lock, run>> /\ Keep
CWait   == /\ cpc = "waitw" /\ k <= N /\ slp[k] /\ k' = k + 1 /\ UNCHANGED <<queue, lock, run, cpc>> /\ Keep
CCheck  == /\ cpc = "waitw" /\ k > N /\ lock = 0 /\ cpc' = (IF exc = 0 THEN "returned" ELSE "thrown")
           /\ UNCHANGED <<queue, lock, run, k>> /\ Keep
CStop   == /\ cpc = "stop" /\ lock = 0 /\ run' = [w \in W |-> FALSE] /\ cpc' = "waitd" /\ k' = 1
           /\ UNCHANGED <<queue, lock>> /\ Keep
CWaitD  == /\ cpc = "waitd" /\ k <= N /\ don[k] /\ k' = k + 1 /\ UNCHANGED <<queue, lock, run, cpc>> /\ Keep
CJoin   == /\ cpc = "waitd" /\ k > N /\ (\A w \in W : wpc[w] = "gone") /\ cpc' = "over" /\ UNCHANGED <<queue, lock, run, k>> /\ Keep
Client == CSubmit \/ CGo \/ CPoll \/ CWait \/ CCheck \/ CStop \/ CWaitD \/ CJoin
Next == Client \/ \E w \in W : Worker(w)
\* the system's scheduler is fair; a mutex that is free again and again is eventually had
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in W : WF_vars(Worker(w)) /\ SF_vars(WLock(w)) /\ SF_vars(WRec(w))
        /\ SF_vars(CPoll) /\ SF_vars(CSubmit) /\ SF_vars(CWait) /\ SF_vars(CCheck) /\ SF_vars(CStop) /\ WF_vars(CGo) /\ WF_vars(CWaitD) /\ WF_vars(CJoin)

Inv == /\ \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j                      \* no task twice
       /\ Cardinality(active) <= N
       /\ (cpc = "returned" => active = {} /\ Len(ran) = NT /\ Failing = {})
       /\ (cpc = "thrown" => active = {} /\ exc \in Failing /\ \A w \in W : wpc[w] \notin {"exec", "finish", "rec"})
       /\ (cpc = "over" => active = {})
BlockReturns == cpc = "poll" ~> cpc \in {"returned", "thrown"}
DtorReturns  == cpc = "stop" ~> cpc = "over"
==================================================================================
