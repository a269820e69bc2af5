----------------------------------- MODULE MCXY -----------------------------------
(* All the small directory trees; what the provider offers has the expected shape.    *)
EXTENDS XY, Json
CONSTANTS MaxFiles, Emit
L(k, w, val, x, y) == [k |-> k, w |-> w, val |-> val, x |-> x, y |-> y]
D(n) == L("data", "", "", n, n + 1)
Pool == << [d |-> <<>>, f |-> "a.dat", L |-> <<D(4)>>],
           [d |-> <<>>, f |-> "b.dat", L |-> <<L("name", "q", "", 0, 0), D(8), D(12)>>],
           [d |-> <<>>, f |-> "z", L |-> <<L("com", "", "", 0, 0)>>],
           [d |-> <<>>, f |-> ".hid", L |-> <<D(20)>>],
           [d |-> <<"A">>, f |-> "a.dat", L |-> <<D(24)>>],
           [d |-> <<"A">>, f |-> "c", L |-> <<L("par", "NAME", "a", 0, 0), D(28)>>],
           [d |-> <<"A", "sub">>, f |-> "a.dat", L |-> <<D(32), L("bad", "", "", 0, 0)>>],
           [d |-> <<"A.dat">>, f |-> "aa.txt", L |-> <<L("three", "", "", 0, 0)>>],
           [d |-> <<"B", "sub">>, f |-> "d.txt", L |-> <<L("par", "NAME", "x/", 0, 0), D(36)>>],
           [d |-> <<"B">>, f |-> "sub.dat", L |-> <<L("blank", "", "", 0, 0), L("name", "sub", "", 0, 0), D(40)>>] >>
Orders == << <<>>, <<[d |-> <<>>, names |-> <<"b.dat", "zz", "A", "a.dat">>]>>,
             <<[d |-> <<"A">>, names |-> <<"sub", "c">>]>>,
             <<[d |-> <<>>, names |-> <<"B", "A">>], [d |-> <<"B">>, names |-> <<"sub.dat">>]>> >>
VARIABLES files, ord
Init == files = <<>> /\ ord \in 1..Len(Orders)
Next == /\ Len(files) < MaxFiles /\ UNCHANGED ord
        /\ \E i \in 1..Len(Pool) : (\A j \in 1..Len(files) : files[j] < i) /\ files' = Append(files, i)
Spec == Init /\ [][Next]_<<files, ord>>
\* an order file in a directory that exists only because of it is not generated
Tr == [files |-> [i \in 1..Len(files) |-> Pool[files[i]]], orders |-> SelectSeq(Orders[ord], LAMBDA o : o.d = <<>> \/ Holds([files |-> [i \in 1..Len(files) |-> Pool[files[i]]], orders |-> <<>>], o.d) # {})]
Good == {i \in 1..Len(files) : IsDataset(Tr.files[i].L) /\ FileName(Tr.files[i].L, Tr.files[i].f) # ""}
Complete == /\ Len(Offer(Tr)) = Cardinality(Good)
            /\ {Offer(Tr)[k].i : k \in 1..Len(Offer(Tr))} = Good
Mirrors == \A k \in 1..Len(Offer(Tr)) : LET o == Offer(Tr)[k] IN Front1(o.q) = Tr.files[o.i].d
\* groups partition the listing, and keep its order
Grouped == LET st == [of |-> Offer(Tr), tr |-> Tr, ok |-> TRUE] IN
           /\ List(st, <<>>) = Map(LAMBDA o : Qual(o.q), st.of)
           /\ \A g \in {<<"A">>, <<"B">>, <<"A", "sub">>, <<"A.dat">>} :
                \A k \in 1..Len(st.of) : (Qual(st.of[k].q) \in Range(List(st, g))) = (Len(st.of[k].q) > Len(g) /\ SubSeq(st.of[k].q, 1, Len(g)) = g)
Contiguous == \A a, b, c \in 1..Len(Offer(Tr)) : a < b /\ b < c =>
                LET q == Offer(Tr) IN Len(q[a].q) > 1 /\ Len(q[c].q) > 1 /\ q[a].q[1] = q[c].q[1] => Len(q[b].q) > 1 /\ q[b].q[1] = q[a].q[1]
PrintH == Emit => PrintT("GEN" \o ToJson([files |-> Tr.files, orders |-> Tr.orders, names |-> Map(LAMBDA o : o.q, Offer(Tr))]))
==================================================================================
