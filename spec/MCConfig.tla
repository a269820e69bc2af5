--------------------------------- MODULE MCConfig ---------------------------------
(* All the dependency graphs over a few configurations, declared or added, and all     *)
(* registrations: an initialisation order exists exactly when closing succeeds.        *)
EXTENDS Config, Json
CONSTANTS K, Emit
Nodes == 0..(K - 1)
VARIABLES kind, roots
Init == kind \in [Nodes \X Nodes -> 0..2] /\ roots \in SUBSET Nodes /\ \A i \in Nodes : kind[<<i, i>>] = 0
Next == UNCHANGED <<kind, roots>>
Spec == Init /\ [][Next]_<<kind, roots>>
Decl == {p \in Nodes \X Nodes : kind[p] = 1}
Extra == {p \in Nodes \X Nodes : kind[p] = 2}
Reg == UNION {Needs(Decl, i) : i \in roots}
S == [decl |-> Decl, m |-> [k \in 1..2 |-> [ph |-> "reg", reg |-> Reg, extra |-> Extra]]]
Orders == {o \in [1..Cardinality(Reg) -> Reg] : \A a, b \in DOMAIN o : o[a] = o[b] => a = b}
LogOf(o) == Flat([p \in 1..3 |-> Flat([n \in DOMAIN o |-> <<o[n], p - 1, p - 1, 2>>])])
Good(o) == LogOk(Reg, Graph(S, 1), LogOf(o), TRUE)
Closed == \A p \in Decl : p[1] \in Reg => p[2] \in Reg
OrderIffAcyclic == (\E o \in Orders : Good(o)) <=> ~Cyclic(Graph(S, 1))
Register == LET a == Apply([Empty EXCEPT !.decl = Decl], [op |-> "register", m |-> 0, i |-> 0, boom |-> 0]) IN a.s.m[1].reg = Needs(Decl, 0) /\ a.s.m[2].reg = {}
PrintH == Emit => PrintT("GEN" \o ToJson([decl |-> {p : p \in Decl}, extra |-> Extra, roots |-> roots, cyc |-> Bit(Cyclic(Graph(S, 1)))]))
==================================================================================
