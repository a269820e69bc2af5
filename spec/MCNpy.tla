----------------------------------- MODULE MCNpy -----------------------------------
(* Every short history of small arrays, files and views.                              *)
EXTENDS Npy, Json
CONSTANTS Depth, Types, MaxA, Emit
VARIABLES st, h
vars == <<st, h>>
Init == st = Empty /\ h = <<>>
Do(e) == st' = Apply(st, e).s /\ h' = Append(h, e)
Live(i) == st.a[i].k # "dead"
Views(f) == {i \in 1..Len(st.a) : st.a[i].k \notin {"mem", "dead"} /\ st.a[i].f = f}
Shapes == {<<2>>, <<1, 2>>, <<0>>}
Fs == {1, 2}
Iota(n) == [i \in 1..n |-> i]
Room == Len(st.a) < MaxA
Next == /\ Len(h) < Depth
        /\ \/ Room /\ \E t \in Types, sh \in Shapes, at \in {<<>>, <<"p">>} : Do([op |-> "arr", t |-> t, sh |-> sh, at |-> at, d |-> Iota(N(Full(sh, at)))])
           \/ \E i \in 1..Len(st.a), f \in Fs : Live(i) /\ Views(f) = {} /\ Do([op |-> "wr", a |-> i, f |-> f, how |-> 0])
           \/ Room /\ \E f \in Fs, t \in Types : Do([op |-> "rd", f |-> f, t |-> t, how |-> 0])
           \/ Room /\ \E f \in Fs, t \in Types, m \in {0, 512} : Views(f) = {} /\ Do([op |-> "mk", f |-> f, t |-> t, sh |-> <<2>>, at |-> <<>>, max |-> m])
           \/ Room /\ \E f \in Fs, t \in Types, m \in {"rw", "ro", "priv"} : (m = "priv" => Views(f) = {}) /\ (\A v \in Views(f) : st.a[v].k # "priv") /\ Do([op |-> "mm", f |-> f, t |-> t, mode |-> m, max |-> 512])
           \/ \E i \in 1..Len(st.a) : Live(i) /\ st.a[i].k # "ro" /\ N(st.a[i].sh) > 0 /\ Do([op |-> "set", a |-> i, i |-> 1, v |-> 9])
           \/ \E i, j \in 1..Len(st.a) : Live(i) /\ st.a[i].k \in {"rw", "priv"} /\ Live(j) /\ i # j /\ st.a[i].t = st.a[j].t /\ Views(st.a[i].f) = {i} /\ N(st.a[i].sh) < 5 /\ Do([op |-> "cat", a |-> i, b |-> j])
           \/ Room /\ \E i \in 1..Len(st.a) : Live(i) /\ Do([op |-> "cp", a |-> i])
           \/ \E i \in 1..Len(st.a) : Live(i) /\ Do([op |-> "cl", a |-> i])
Spec == Init /\ [][Next]_vars
\* arrays and files hold as many elements as their shape says
Sizes == /\ \A f \in 1..NF : Here(st, f) => Len(File(st, f).d) = N(File(st, f).sh)
         /\ \A i \in 1..Len(st.a) : st.a[i].k = "dead" \/ Len(Data(st, st.a[i])) = N(st.a[i].sh)
\* a written file holds what was written until someone writes to it
LastWrite == (h # <<>> /\ h[Len(h)].op = "wr") => LET e == h[Len(h)] IN File(st, e.f).d = Data(st, st.a[e.a]) /\ File(st, e.f).sh = st.a[e.a].sh
PrintH == (Emit /\ Len(h) = Depth) => PrintT("GEN" \o ToJson(h))
==================================================================================
