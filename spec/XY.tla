------------------------------------ MODULE XY ------------------------------------
(* XYDataset: qualified names, ASCII dataset files, the provider over a directory    *)
(* tree with order.txt files, and the cache over it.                                 *)
EXTENDS VLib

\* Every file and directory name used, in the byte order of the file system listing.
Names == <<".hid", "A", "A.dat", "B", "B.txt", "a b.dat", "a.dat", "a.dat.txt", "aa.txt", "b.dat", "c", "d.txt", "order.txt", "sub", "sub.dat", "z">>
Stems == <<"", "A", "A", "B", "B", "a b", "a", "a.dat", "aa", "b", "c", "d", "order", "sub", "sub", "z">>
Rank(n) == IdxOf(n, Names)
Stem(n) == Stems[Rank(n)]

\* ------------------------------------------------------------------ qualified names
SlashNames == {"a/b", "/", "x/"}
ValidPart(p) == p # "" /\ p \notin SlashNames
ValidName(parts) == Len(parts) > 0 /\ \A i \in 1..Len(parts) : ValidPart(parts[i])
Qual(parts) == Join(parts, "/")
\* proper prefix
InGroup(parts, g) == Len(g) < Len(parts) /\ SubSeq(parts, 1, Len(g)) = g
\* byte order of two names given as byte sequences
Less(a, b) == \/ \E i \in 1..Min2(Len(a), Len(b)) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
              \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* ------------------------------------------------------------------- dataset files
\* a line: [k, w, val, x, y]   k: blank com name par data bad three
Comment(l) == l.k \in {"com", "name", "par"}
Sel(L, T(_)) == SelectSeq(L, T)
Param(L, key) == Join(Map(LAMBDA l : l.val, SelectSeq(L, LAMBDA l : l.k = "par" /\ l.w = key)), ";")
FirstText(L) == SelectSeq(L, LAMBDA l : l.k # "blank")
FileName(L, f) == LET p == Param(L, "NAME") t == FirstText(L) IN
                  IF p # "" THEN p ELSE IF t # <<>> /\ t[1].k = "name" THEN t[1].w ELSE Stem(f)
Body(L) == SelectSeq(L, LAMBDA l : l.k # "blank" /\ ~Comment(l))
IsDataset(L) == Body(L) # <<>> /\ Body(L)[1].k = "data"
Points(L) == LET b == Body(L) IN IF b = <<>> \/ \E i \in 1..Len(b) : b[i].k # "data" THEN Throw
             ELSE Ok(Flat(Map(LAMBDA l : <<l.x, l.y>>, b)))

\* --------------------------------------------------------------------- directories
\* tree: files = <<[d, f, L]>>, orders = <<[d, names]>>
\* what a directory holds, by name
SubDirs(tr, d) == {p[Len(d) + 1] : p \in {q \in {tr.files[i].d : i \in 1..Len(tr.files)} : Len(q) > Len(d) /\ SubSeq(q, 1, Len(d)) = d}}
Here(tr, d) == {i \in 1..Len(tr.files) : tr.files[i].d = d}
Holds(tr, d) == {tr.files[i].f : i \in Here(tr, d)} \cup SubDirs(tr, d)
OrderOf(tr, d) == LET o == SelectSeq(tr.orders, LAMBDA x : x.d = d) IN IF o = <<>> THEN <<>> ELSE o[1].names
Sorted(S) == SelectSeq(Names, LAMBDA n : n \in S)
Listing(tr, d) == LET h == Holds(tr, d)
                      o == SelectSeq(OrderOf(tr, d), LAMBDA n : n \in h)
                  IN o \o Sorted(h \ Range(o))
RECURSIVE Walk(_, _)
Walk(tr, d) == Flat(Map(LAMBDA n : IF n \in SubDirs(tr, d) THEN Walk(tr, Append(d, n))
                                   ELSE <<CHOOSE i \in Here(tr, d) : tr.files[i].f = n>>, Listing(tr, d)))
\* the datasets of the tree, in order: [q, i]
Offer(tr) == LET w == SelectSeq(Walk(tr, <<>>), LAMBDA i : IsDataset(tr.files[i].L) /\ FileName(tr.files[i].L, tr.files[i].f) # "")
             IN Map(LAMBDA i : [q |-> Append(tr.files[i].d, FileName(tr.files[i].L, tr.files[i].f)), i |-> i], w)
Broken(of) == \/ \E i \in 1..Len(of) : ~ValidName(of[i].q)
              \/ \E i, j \in 1..Len(of) : i # j /\ Qual(of[i].q) = Qual(of[j].q)

Empty == [of |-> <<>>, tr |-> [files |-> <<>>, orders |-> <<>>], ok |-> FALSE]
Known(st, e) == {}
List(st, g) == Map(LAMBDA o : Qual(o.q), SelectSeq(st.of, LAMBDA o : InGroup(o.q, g)))
Find(st, p) == {i \in 1..Len(st.of) : st.of[i].q = p}
Here1(st, p) == st.tr.files[st.of[CHOOSE i \in Find(st, p) : TRUE].i]

Apply(st, e) ==
  LET keep(r) == [s |-> st, r |-> r] IN
  CASE e.op = "tree" -> LET tr == [files |-> e.files, orders |-> e.orders] of == Offer(tr) IN
         IF Broken(of) THEN [s |-> Empty, r |-> Throw]
         ELSE [s |-> [of |-> of, tr |-> tr, ok |-> TRUE], r |-> Okay]
    [] e.op = "noroot" -> keep(Throw)
    \* e.via = 1: through the cache; v[1] = 1 if the wrapped provider was asked twice for the same
    [] e.op \in {"list", "get", "param"} /\ ~st.ok -> keep(Res("none", <<>>, <<>>))
    [] e.op = "list"   -> keep(Res("ok", <<0>>, List(st, e.g)))
    [] e.op = "get"    -> keep(IF Find(st, e.p) = {} THEN Res("null", <<0>>, <<>>)
                               ELSE LET r == Points(Here1(st, e.p).L) IN IF r.k = "throw" THEN r ELSE Res("ok", <<0>> \o r.v, <<>>))
    [] e.op = "param"  -> keep(IF Find(st, e.p) = {} THEN OkS(<<"">>) ELSE OkS(<<Param(Here1(st, e.p).L, e.key)>>))
    \* the parser on a file of its own
    [] e.op = "file"   -> keep(LET r == Points(e.L) IN
                               Res("ok", <<Bit(IsDataset(e.L))>> \o (IF r.k = "throw" THEN <<-1>> ELSE <<Len(r.v) \div 2>> \o r.v),
                                   <<FileName(e.L, e.f), Param(e.L, "NAME"), Param(e.L, "UNIT")>>))
    [] e.op = "nofile" -> keep(Res("ok", <<0, 1, 1>>, <<>>))
    \* names: built from groups and name, or (e.one = 1) from one string
    [] e.op = "name"   -> keep(IF ~ValidName(e.p) THEN Throw
                               ELSE Res("ok", <<Len(e.p) - 1>>, <<Qual(e.p)>> \o e.p))
    [] e.op = "pair"   -> keep(LET eq == e.p = e.q IN
                               Ok(<<Bit(eq), Bit(~eq), Bit(~eq), Bit(Less(e.pb, e.qb)), Bit(Less(e.qb, e.pb)), Bit(InGroup(e.p, e.q)), Bit(InGroup(e.q, e.p)), 1>>))
    [] e.op = "sorted" -> keep(Ok(<<Cardinality({Qual(e.names[i]) : i \in 1..Len(e.names)}), Cardinality({Qual(e.names[i]) : i \in 1..Len(e.names)}), 1>>))
    \* data sets by hand
    [] e.op = "make"   -> keep(IF e.how = 1 /\ Len(e.xs) # Len(e.ys) THEN Throw
                               ELSE Ok(<<Len(e.xs)>> \o Flat([i \in 1..Len(e.xs) |-> <<e.xs[i], e.ys[i]>>])
                                       \o (IF e.xs = <<>> THEN <<>> ELSE <<e.xs[1], e.ys[1], e.xs[Len(e.xs)], e.ys[Len(e.xs)]>>)))
==================================================================================
