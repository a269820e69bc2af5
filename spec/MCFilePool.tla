------------------------------- MODULE MCFilePool -------------------------------
(* FilePool closed with clients and with a pool that does what it needs, one step  *)
(* at a time.  Checks the invariants in every interleaving and that no state is    *)
(* stuck; with Sequential = TRUE the histories are printed for replay.             *)
EXTENDS FilePool, Json
CONSTANTS Cl, Keys, Lim, MaxOps, Sequential, Types
VARIABLES st, h, n
vars == <<st, h, n>>
E(op, th, t, v, x, y, s) == [op |-> op, th |-> th, t |-> t, v |-> v, x |-> x, y |-> y, s |-> s]
Init == st = [Fresh EXCEPT !.lim = <<Lim>>] /\ h = <<>> /\ n = 0
Do(e) == st' \in Event(st, e)
Busy(c) == \E x \in st.fl : x.th = c
Hold(c) == {a \in st.acc : a.th = c}
FreshFd == CHOOSE i \in 1..(Len(st.open) + 1) : FdIdx(st, i) = {} /\ \A j \in 1..(i - 1) : FdIdx(st, j) # {}
Conflict(key, w) == \E a \in st.acc : a.key = key /\ (w \/ a.wr)
Free == Sequential => st.fl = {}

\* ------------------------------------------------------------------- the clients
Req(c, key, m, ty) ==
  /\ ~Busy(c) /\ Hold(c) = {} /\ n < MaxOps /\ Free
  /\ (Sequential /\ ~Try(m) => ~Conflict(key, Wr(m)))
  /\ Do(E("req", c, c, key, m, ty, ""))
  /\ n' = n + 1 /\ h' = IF Sequential THEN Append(h, <<"get", c, key, m, ty>>) ELSE h
Rel(c) == /\ ~Busy(c) /\ Hold(c) # {} /\ Free /\ Do(E("rel", c, c, 0, 0, 0, ""))
          /\ h' = (IF Sequential THEN Append(h, <<"rel", c>>) ELSE h) /\ UNCHANGED n
RelRet(c) == Calls(st, "rel", c) # {} /\ Do(E("relret", c, c, 0, 0, 0, "")) /\ UNCHANGED <<h, n>>

\* ---------------------------------------------------------------------- the pool
\* the lock has been granted: no other request of the file is past it in a conflicting mode
Granted(c) == /\ ~Conflict(c.key, Wr(c.m))
              /\ \A x \in st.fl : x.k = "req" /\ x # c /\ x.key = c.key /\ (Wr(c.m) \/ Wr(x.m)) =>
                   \A i \in DOMAIN st.open : st.open[i].usr # x.t
Usable(c) == {i \in DOMAIN st.open : LET f == st.open[i] IN
               f.key = c.key /\ f.wr = Wr(c.m) /\ f.ty = c.ty /\ (f.usr = c.t \/ (f.usr = 0 /\ \A j \in DOMAIN st.open : st.open[j].usr # c.t))}
Wrong(c)  == {i \in DOMAIN st.open : LET f == st.open[i] IN
               f.key = c.key /\ f.usr = 0 /\ (f.wr # Wr(c.m) \/ (Wr(c.m) /\ f.ty # c.ty))}
Full == Len(st.open) >= Lim
Step(c) ==
  /\ c.k = "req" /\ UNCHANGED <<h, n>>
  /\ \/ Try(c.m) /\ ~Granted(c) /\ Do(E("null", c.th, c.t, 0, 0, 0, ""))
     \/ Granted(c) /\ Wrong(c) # {} /\ \E i \in Wrong(c) : Do(E("close", c.th, st.open[i].fd, 0, 0, 0, ""))
     \/ Granted(c) /\ Wrong(c) = {} /\ \E i \in Usable(c) : Do(E("got", c.th, c.t, st.open[i].fd, Bit(~Wr(c.m)), 0, ""))
     \/ /\ Granted(c) /\ Wrong(c) = {} /\ Usable(c) = {} /\ Full
        /\ \E i \in DOMAIN st.open : Idle(st.open[i]) /\ (\A j \in 1..(i - 1) : ~Idle(st.open[j]))
                                     /\ Do(E("close", c.th, st.open[i].fd, 0, 0, 0, ""))
     \/ /\ Granted(c) /\ Usable(c) = {} /\ Full /\ (\A i \in DOMAIN st.open : ~Idle(st.open[i]))
        /\ Do(E("thr", c.th, c.t, 0, 0, 0, "limit"))
     \/ /\ Granted(c) /\ Wrong(c) = {} /\ Usable(c) = {} /\ ~Full
        /\ Do(E("open", c.th, FreshFd, c.key, Bit(Wr(c.m)), c.ty, ""))
Next == \/ \E c \in Cl : Rel(c) \/ RelRet(c) \/ \E key \in Keys, m \in 0..3, ty \in Types : Req(c, key, m, ty)
        \/ \E c \in st.fl : Step(c)
Spec == Init /\ [][Next]_vars
Inv == Inv0(st)
\* whatever the threads wait for, somebody can go on
NoStuck == st.fl # {} => \/ \E c \in st.fl : c.k = "rel" \/ ENABLED Step(c)
                         \/ \E c \in Cl : ~Busy(c) /\ Hold(c) # {}
\* a request that overlaps nothing is served
Served == \A c \in st.fl : c.k = "req" /\ c.ov = {} => Granted(c)
View == <<st, n>>
PrintH == (Sequential /\ st.fl = {} /\ n = MaxOps) => PrintT("GEN" \o ToJson(h))
==================================================================================
