---------------------------------- MODULE Config ----------------------------------
(* The configuration manager: registration with declared and extra dependencies,      *)
(* the options it publishes, the three initialisation phases, access; and the names   *)
(* of wildcard options.                                                               *)
EXTENDS VLib
N == 8
Ids == 0..(N - 1)
NewM == [ph |-> "reg", reg |-> {}, extra |-> {}]
Empty == [decl |-> {}, m |-> [k \in 1..2 |-> NewM]]
Known(st, e) == {}

Succ(G, S) == {p[2] : p \in {q \in G : q[1] \in S}}
RECURSIVE Close(_, _)
Close(G, S) == LET T == S \cup Succ(G, S) IN IF T = S THEN S ELSE Close(G, T)
\* everything i needs, i included
Needs(G, i) == Close(G, {i})
Graph(st, k) == {p \in st.decl \cup st.m[k].extra : p[1] \in st.m[k].reg /\ p[2] \in st.m[k].reg}
Cyclic(G) == \E p \in G : p[1] \in Close(G, {p[2]})
Up(S) == SelectSeq([i \in 1..N |-> i - 1], LAMBDA x : x \in S)

\* the options of the registered configurations, by group: configuration i offers
\* "o<i>" in group g0 or g1, and "a<i>" in the group all
Group(name, opt, S) == IF S = {} THEN <<>> ELSE <<name>> \o Map(LAMBDA i : opt \o ToString(i), Up(S))
Options(reg) == Group("all", "a", reg) \o Group("g0", "o", {i \in reg : i % 2 = 0}) \o Group("g1", "o", {i \in reg : i % 2 = 1})

\* a log of hook calls: <<id, phase (0 pre, 1 init, 2 post), own state, least state of its dependencies>>
Quads(v) == [n \in 1..(Len(v) \div 4) |-> <<v[4 * n - 3], v[4 * n - 2], v[4 * n - 1], v[4 * n]>>]
PosOf(q, i, p) == {n \in 1..Len(q) : q[n][1] = i /\ q[n][2] = p}
LogOk(reg, G, v, done) ==
  LET q == Quads(v) IN
  /\ Len(v) = 4 * Len(q)
  /\ \A n \in 1..Len(q) : q[n][1] \in reg /\ q[n][3] = q[n][2]                                 \* each in the state of its phase
  /\ \A i \in reg, p \in 0..2 : Cardinality(PosOf(q, i, p)) <= 1                                \* once
  /\ \A n \in 1..(Len(q) - 1) : q[n][2] <= q[n + 1][2]                                          \* phase after phase
  /\ \A n \in 1..Len(q) : \A p \in 0..(q[n][2] - 1) : \A i \in reg : PosOf(q, i, p) # {}       \* complete phases
  /\ \A n \in 1..Len(q) : q[n][2] = 1 => \A e \in G : e[1] = q[n][1] => \E m \in 1..(n - 1) : q[m][1] = e[2] /\ q[m][2] = 1
  /\ \A n \in 1..Len(q) : q[n][2] = 1 => q[n][4] >= 2                                           \* dependencies are initialised
  /\ \A n \in 1..Len(q) : q[n][2] = 2 => q[n][4] >= 2
  /\ done => \A i \in reg, p \in 0..2 : PosOf(q, i, p) # {}

Is(e, ok, want) == IF ok THEN e.obs ELSE want

Concat(s) == Join(s, "")
Instances(names, opts) == {Concat(SubSeq(opts[o], Len(names[n]) + 2, Len(opts[o]))) :
   <<n, o>> \in {x \in (1..Len(names)) \X (1..Len(opts)) :
                  LET nm == names[x[1]] op == opts[x[2]] IN Len(op) > Len(nm) /\ SubSeq(op, 1, Len(nm) + 1) = Append(nm, "-")}}

Apply(st, e) ==
  LET keep(r) == [s |-> st, r |-> r]
      k == e.m + 1
      M == st.m[k]
      put(mm, r) == [s |-> [st EXCEPT !.m[k] = mm], r |-> r]
  IN
  CASE e.op = "new" -> [s |-> [Empty EXCEPT !.decl = Range(e.decl)], r |-> Okay]
    [] e.op = "register" ->
         IF M.ph # "reg" \/ (e.boom = 1 /\ e.i \notin M.reg) THEN keep(Throw)
         ELSE LET S == Needs(st.decl, e.i) IN
              put([M EXCEPT !.reg = @ \cup S], Ok(IF e.i \in M.reg THEN <<>> ELSE Up(S \ M.reg)))
    [] e.op = "depend" -> IF M.ph # "reg" THEN keep(Throw) ELSE put([M EXCEPT !.extra = @ \cup {<<e.i, e.j>>}], Okay)
    [] e.op = "close" -> LET c == Cyclic(Graph(st, k)) IN
         put([M EXCEPT !.ph = IF c THEN "cyclic" ELSE IF @ = "reg" THEN "wait" ELSE @],
             IF c THEN Throw ELSE OkS(Options(M.reg)))
    [] e.op = "init" ->
         IF e.fi \in M.reg
         THEN put([M EXCEPT !.ph = "broken"],
                  Is(e, e.obs.k = "fail" /\ Len(e.obs.v) >= 4 /\ LogOk(M.reg, Graph(st, k), e.obs.v, FALSE)
                        /\ Last1(Quads(e.obs.v))[1] = e.fi /\ Last1(Quads(e.obs.v))[2] = e.fp, Res("a failing prefix", <<>>, <<>>)))
         ELSE put([M EXCEPT !.ph = "init"],
                  Is(e, e.obs.k = "ok" /\ LogOk(M.reg, Graph(st, k), e.obs.v, TRUE), Res("all phases in order", <<>>, <<>>)))
    [] e.op = "get" -> keep(IF M.ph = "init" /\ e.i \in M.reg THEN Ok(<<e.i, 3, 1>>) ELSE Throw)
    \* wildcard options, names spelled as sequences of characters
    [] e.op = "wild" -> keep(LET W == Instances(e.names, e.opts) IN
                             Is(e, e.obs.k = "ok" /\ Len(e.obs.s) = Cardinality(W) /\ Range(e.obs.s) = W, Res("ok", <<>>, <<"some order of">> \o [i \in 1..1 |-> ToString(W)])))
    [] e.op = "wc"   -> keep(OkS(<<Concat(e.name) \o "-" \o Concat(e.inst), Concat(e.name) \o "-*">>))
==================================================================================
