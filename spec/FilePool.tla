-------------------------------- MODULE FilePool --------------------------------
(* Euclid::FilePool as its users see it: file managers with a limit on open files, *)
(* one handler per file, accessors that lend a descriptor to shared readers or to  *)
(* one writer.  key = 10 * manager + file.                                         *)
EXTENDS VLib, FiniteSetsExt

\* open   descriptors open, in order of last use: [fd, key, wr, ty, usr, dir]
\*        (usr = 0: idle, may be closed; -1: kept by a direct user; else the request)
\* acc    accessors held [t, th, key, wr, fd]
\* fl     calls in progress [k, th, t, key, m, ty, ov, fault, pk, nc]; ov: requests that overlapped it;
\*        pk: most files open in its manager meanwhile, nc: files closed in it
\* par    two calls have overlapped (the order of uses is not known exactly any more)
\* dead   managers the users have let go (accessors may still keep them)
\* refs   references the users hold to handlers: [key, h] -> how many
Empty == [lim |-> <<>>, open |-> <<>>, acc |-> {}, fl |-> {}, refs |-> <<>>, par |-> FALSE, dead |-> {}, fin |-> TRUE]
Fresh == [Empty EXCEPT !.fin = FALSE]

Mgr(key) == key \div 10
Wr(m) == m % 2 = 1
Try(m) == m \div 2 = 1
OpenOf(st, m) == SelectSeq(st.open, LAMBDA f : Mgr(f.key) = m)
FdIdx(st, fd) == {i \in DOMAIN st.open : st.open[i].fd = fd}
Idle(f) == f.usr = 0
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
ToBack(s, i, r) == Append(Remove(s, i), r)

Calls(st, k, th) == {c \in st.fl : c.k = k /\ c.th = th}
\* requests and accessors, as others see them
Seen(st) == {[t |-> a.t, key |-> a.key, wr |-> a.wr, call |-> FALSE] : a \in st.acc}
            \cup {[t |-> c.t, key |-> c.key, wr |-> Wr(c.m), call |-> TRUE] : c \in {x \in st.fl : x.k \in {"req", "rel"}}}
            \cup {[t |-> 0, key |-> c.key, wr |-> TRUE, call |-> TRUE] : c \in {x \in st.fl : x.k \notin {"req", "rel"}}}
\* files open, and files that a call still going on has closed but perhaps not accounted for yet
Counted(st, m) == Len(OpenOf(st, m)) + FoldSet(LAMBDA c, n : c.nc + n, 0, st.fl)
Begin(st, k, th, t, key, m, ty, s) ==
  LET c == [k |-> k, th |-> th, t |-> t, key |-> key, m |-> m, ty |-> ty, ov |-> Seen(st), fault |-> FALSE, s |-> s,
             pk |-> Counted(st, Mgr(key)), nc |-> 0]
      me == [t |-> IF k \in {"req", "rel"} THEN t ELSE 0, key |-> key, wr |-> k \notin {"req", "rel"} \/ Wr(m), call |-> TRUE]
  IN [st EXCEPT !.par = @ \/ st.fl # {}, !.fl = {[x EXCEPT !.ov = @ \cup {me}] : x \in @} \cup {c}]
End(st, k, th) == [st EXCEPT !.fl = @ \ Calls(st, k, th)]
Alone(st) == Cardinality(st.fl) <= 1
\* no other call has overlapped this one
Undisturbed(st, c) == Cardinality(st.fl) = 1 /\ \A o \in c.ov : ~o.call /\ \E a \in st.acc : a.t = o.t
If(c, s) == IF c THEN {s} ELSE {}

RefKeys(st, key) == {r \in DOMAIN st.refs : r[1] = key /\ st.refs[r] > 0}
AddRef(st, key, h, d) == [st EXCEPT !.refs = [r \in DOMAIN @ \cup {<<key, h>>} |->
                            (IF r \in DOMAIN @ THEN @[r] ELSE 0) + (IF r = <<key, h>> THEN d ELSE 0)]]
\* nobody refers to the file's handler any more
Gone(st, key) == /\ RefKeys(st, key) = {}
                 /\ \A a \in st.acc : a.key # key
                 /\ \A c \in st.fl : c.key # key

\* is closing f justified, when a single call c is going on?
MayClose(st, c, f) ==
  \/ c.k = "req" /\ c.key = f.key /\ ~f.dir /\ (Wr(c.m) # f.wr \/ (Wr(c.m) /\ c.ty # f.ty))    \* change of mode or of type
  \/ c.k = "req" /\ Mgr(c.key) = Mgr(f.key)                                          \* room for another file
     /\ LET os == OpenOf(st, Mgr(f.key))
        IN Len(os) >= st.lim[Mgr(f.key) + 1]
           /\ \A i \in DOMAIN os : os[i].fd = f.fd /\ ~st.par => \A j \in 1..(i - 1) : ~Idle(os[j])
  \/ c.k \in {"rel", "drop"} /\ c.key = f.key /\ ~f.dir
  \/ c.k = "dclose" /\ c.t = f.fd
  \/ st.par /\ RefKeys(st, f.key) = {} /\ \A a \in st.acc : a.key # f.key            \* its handler is gone
  \/ Mgr(f.key) \in st.dead                                                            \* the manager is going
  \/ c.k \in {"mgrdrop", "closeall"} /\ Mgr(c.key) = Mgr(f.key)

Event(st, e) ==
  CASE e.op = "mgr" -> LET s == IF st.fin THEN Fresh ELSE st IN {[s EXCEPT !.lim = Append(@, e.t)]}
    \* ------------------------------------------------------------------ handlers
    [] e.op = "geth" -> {Begin(st, "geth", e.th, 0, e.v, 0, 0, "")}
    [] e.op = "gethret" ->
         If(/\ e.x > 0
            /\ (RefKeys(st, e.v) # {} => <<e.v, e.x>> \in RefKeys(st, e.v))
            /\ \A r \in DOMAIN st.refs : st.refs[r] > 0 /\ r[2] = e.x => r[1] = e.v,
            AddRef(End(st, "geth", e.th), e.v, e.x, 1))
    [] e.op = "drop"    -> {Begin(AddRef(st, e.v, e.x, -1), "drop", e.th, 0, e.v, 0, 0, "")}
    [] e.op = "dropret" ->
         LET s == End(st, "drop", e.th)
         IN If((s.fl = {} /\ Gone(s, e.v)) => \A i \in DOMAIN s.open : s.open[i].key = e.v => s.open[i].dir, s)
    [] e.op = "has"     -> {Begin(st, "has", e.th, 0, e.v, 0, 0, "")}
    [] e.op = "hasret"  -> If(/\ (RefKeys(st, e.v) # {} /\ (\A c \in Calls(st, "has", e.th) : \A o \in c.ov : o.t # 0 \/ o.key # e.v) => e.x = 1)
                              /\ ((\A c \in Calls(st, "has", e.th) : Undisturbed(st, c)) /\ Gone(End(st, "has", e.th), e.v) => e.x = 0), End(st, "has", e.th))
    \* ----------------------------------------------------------------- accessors
    [] e.op = "req" -> {Begin(st, "req", e.th, e.t, e.v, e.x, e.y, e.s)}
    [] e.op = "got" ->
         LET c == CHOOSE x \in st.fl : x.k = "req" /\ x.t = e.t
             I == FdIdx(st, e.v)
         IN IF I = {} THEN {} ELSE
            LET i == CHOOSE j \in I : TRUE
                f == st.open[i]
                w == Wr(c.m)
            IN If(/\ f.key = c.key /\ f.ty = c.ty /\ f.wr = w /\ f.usr \in {0, c.t}
                  /\ e.x = Bit(~w)
                  /\ \A a \in st.acc : a.key = c.key => ~w /\ ~a.wr,
                  [st EXCEPT !.fl = @ \ {c}, !.acc = @ \cup {[t |-> c.t, th |-> c.th, key |-> c.key, wr |-> w, fd |-> e.v]},
                             !.open = ToBack(@, i, [f EXCEPT !.usr = c.t])])
    [] e.op = "null" ->
         LET c == CHOOSE x \in st.fl : x.k = "req" /\ x.t = e.t
         IN If(Try(c.m) /\ \E o \in c.ov : o.t # 0 /\ o.key = c.key /\ (Wr(c.m) \/ o.wr), [st EXCEPT !.fl = @ \ {c}])
    [] e.op = "thr" ->
         LET c == CHOOSE x \in st.fl : x.k = "req" /\ x.t = e.t
             os == OpenOf(st, Mgr(c.key))
             lim == st.lim[Mgr(c.key) + 1]
         IN If(\/ e.s = "open" /\ c.fault
               \/ e.s = "limit" /\ (IF Undisturbed(st, c)
                                    THEN Len(os) >= lim /\ \A i \in DOMAIN os : ~Idle(os[i])
                                    ELSE \* the limit was reached, or others were about to reach it
                                         c.pk + Cardinality({o \in c.ov : o.t # 0 /\ Mgr(o.key) = Mgr(c.key)}) >= lim),
               [st EXCEPT !.fl = @ \ {c}])
    [] e.op = "rel" ->
         LET A == {a \in st.acc : a.t = e.t} IN
         IF A = {} THEN {} ELSE
         LET a == CHOOSE x \in A : TRUE
             s == Begin([st EXCEPT !.acc = @ \ A], "rel", e.th, e.t, a.key, Bit(a.wr), 0, "")
         IN {[s EXCEPT !.open = [i \in DOMAIN @ |-> IF @[i].fd = a.fd THEN [@[i] EXCEPT !.usr = 0] ELSE @[i]]]}
    [] e.op = "relret" -> {End(st, "rel", e.th)}
    \* --------------------------------------------------------------- descriptors
    [] e.op = "open" ->
         LET C == Calls(st, "req", e.th) IN
         IF C = {} THEN {} ELSE
         LET c == CHOOSE x \in C : TRUE
         IN If(/\ c.key = e.v /\ Wr(c.m) = (e.x = 1) /\ c.ty = e.y
               /\ Len(OpenOf(st, Mgr(e.v))) < st.lim[Mgr(e.v) + 1]
               /\ FdIdx(st, e.t) = {},
               [st EXCEPT !.fl = {IF Mgr(x.key) = Mgr(e.v) /\ x.pk < Counted(st, Mgr(e.v)) + 1
                                  THEN [x EXCEPT !.pk = Counted(st, Mgr(e.v)) + 1] ELSE x : x \in @},
                          !.open = Append(@, [fd |-> e.t, key |-> e.v, wr |-> e.x = 1, ty |-> e.y, usr |-> c.t, dir |-> c.s = "d"])])
    [] e.op = "openfail" -> {[st EXCEPT !.fl = {IF c.k = "req" /\ c.th = e.th THEN [c EXCEPT !.fault = TRUE] ELSE c : c \in @}]}
    [] e.op = "close" ->
         LET I == FdIdx(st, e.t) IN
         IF I = {} THEN {} ELSE
         LET i == CHOOSE j \in I : TRUE
             f == st.open[i]
             ok == /\ f.usr = 0 \/ (f.usr = -1 /\ \E c \in st.fl : c.k = "dclose" /\ c.t = e.t)
                   /\ \A c \in st.fl : Undisturbed(st, c) => MayClose(st, c, f)
                   /\ st.fl # {}
         IN If(ok, [st EXCEPT !.open = Remove(@, i), !.fl = {IF c.th = e.th THEN [c EXCEPT !.nc = @ + 1] ELSE c : c \in @}])
    \* ------------------------------------------------ direct users of the manager
    [] e.op = "dgot" ->
         LET c == CHOOSE x \in st.fl : x.k = "req" /\ x.t = e.t
             I == FdIdx(st, e.v)
         IN If(I # {} /\ \A i \in I : st.open[i].usr = c.t,
               [st EXCEPT !.fl = @ \ {c},
                          !.open = [i \in DOMAIN @ |-> IF i \in I THEN [@[i] EXCEPT !.usr = IF e.x = 1 THEN 0 ELSE -1] ELSE @[i]]])
    [] e.op = "dused" -> LET i == CHOOSE j \in FdIdx(st, e.t) : TRUE IN {[st EXCEPT !.open = ToBack(@, i, @[i])]}
    [] e.op \in {"dlock", "dfree"} ->
         {[st EXCEPT !.open = [i \in DOMAIN @ |-> IF @[i].fd = e.t THEN [@[i] EXCEPT !.usr = IF e.op = "dlock" THEN -1 ELSE 0] ELSE @[i]]]}
    [] e.op = "dclose" -> LET i == CHOOSE j \in FdIdx(st, e.t) : TRUE
                          IN {Begin(st, "dclose", e.th, e.t, st.open[i].key, 0, 0, "")}
    [] e.op = "dcloseret" -> {End(st, "dclose", e.th)}
    [] e.op = "closeall" -> {Begin(st, "closeall", e.th, 0, e.v, 0, 0, "")}
    [] e.op = "closeallret" ->
         If((\A c \in st.fl : Undisturbed(st, c)) => \A i \in DOMAIN st.open : Mgr(st.open[i].key) = Mgr(e.v) => ~Idle(st.open[i]), End(st, "closeall", e.th))
    [] e.op = "used" ->
         LET n == Len(OpenOf(st, Mgr(e.v))) IN
         If(e.y = st.lim[Mgr(e.v) + 1] /\ (st.fl = {} => e.t = n /\ e.x = e.y - n), st)
    [] e.op = "mgrdrop" -> {Begin([st EXCEPT !.dead = @ \cup {Mgr(e.v)}], "mgrdrop", e.th, 0, e.v, 0, 0, "")}
    [] e.op = "mgrdropret" ->
         LET s == End(st, "mgrdrop", e.th)
         IN If((s.fl = {} /\ \A a \in s.acc : Mgr(a.key) # Mgr(e.v)) => OpenOf(s, Mgr(e.v)) = <<>>, s)
    [] e.op = "quiet" -> If(st.open = <<>> /\ st.acc = {} /\ st.fl = {}, st)
    [] e.op = "fin" -> {[st EXCEPT !.fin = TRUE, !.lim = <<>>]}
    [] OTHER -> {}          \* deadlock, stuck, crash, hang, geththr: never allowed

\* --------------------------------------------------------------------- invariants
Exclusive(st) == \A a, b \in st.acc : a.key = b.key /\ a # b => ~a.wr /\ ~b.wr
OneUser(st)   == \A a, b \in st.acc : a.fd = b.fd => a = b
InUseOpen(st) == \A a \in st.acc : \E i \in DOMAIN st.open : st.open[i].fd = a.fd /\ st.open[i].usr = a.t
Limit(st)     == \A m \in 1..Len(st.lim) : Len(OpenOf(st, m - 1)) <= st.lim[m]
OneHandler(st) == \A r, q \in DOMAIN st.refs : st.refs[r] > 0 /\ st.refs[q] > 0 /\ r[1] = q[1] => r = q
Inv0(st) == Exclusive(st) /\ OneUser(st) /\ InUseOpen(st) /\ Limit(st) /\ OneHandler(st)
==================================================================================
