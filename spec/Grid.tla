----------------------------------- MODULE Grid -----------------------------------
(* Grids, slices and iterators (GridContainer), their archives and tables.            *)
(* st.root : the stored grids, [kn: the knots of every axis, cells: first axis fastest]*)
(* st.g    : grid objects, [root, fix]; fix[a] = -1, or the index the axis is fixed to *)
(* st.it   : iterators, [g, pos, fix]; pos counts cells from 0, N is the end           *)
EXTENDS VLib
Empty == [root |-> <<>>, g |-> <<>>, it |-> <<>>]
Known(st, e) == {}
Sizes(kn) == [a \in 1..Len(kn) |-> Len(kn[a])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Lin(c, sh) == Ravel(Rev(c), Rev(sh))
Coord(p, sh) == Rev(Unravel(p, Rev(sh)))
Total(r) == Prod(Sizes(r.kn))
RootOf(st, h) == st.root[st.g[h].root]
Match(p, sh, fix) == LET c == Coord(p, sh) IN \A a \in 1..Len(fix) : fix[a] = -1 \/ fix[a] = c[a]
NoFix(r) == [a \in 1..Len(r.kn) |-> -1]
MinOr(s, d) == IF s = {} THEN d ELSE CHOOSE x \in s : \A y \in s : x <= y
\* the first cell from p on that matches, or the end
From(r, p, fix) == LET sh == Sizes(r.kn) n == Total(r) IN MinOr({q \in p..(n - 1) : Match(q, sh, fix)}, n)
\* the axes a grid shows: a fixed axis has one knot
View(st, h) == LET r == RootOf(st, h) f == st.g[h].fix IN [a \in 1..Len(f) |-> IF f[a] = -1 THEN r.kn[a] ELSE <<r.kn[a][f[a] + 1]>>]
Cells(st, h) == LET r == RootOf(st, h) IN
                LET ps == SelectSeq([i \in 1..Total(r) |-> i - 1], LAMBDA p : Match(p, Sizes(r.kn), st.g[h].fix)) IN ps
Vals(r, p) == LET c == Coord(p, Sizes(r.kn)) IN [a \in 1..Len(c) |-> r.kn[a][c[a] + 1]]
\* a cell of a view: its position in the stored grid
ViewPos(st, h, c) == LET f == st.g[h].fix IN Lin([a \in 1..Len(c) |-> IF f[a] = -1 THEN c[a] ELSE f[a]], Sizes(RootOf(st, h).kn))
Inf(kn, v) == Max2(0, Cardinality({i \in 1..Len(kn) : kn[i] <= v}) - 1)
\* what the cell under an iterator looks like: <<0>> at the end, else <<1, value, axis values>>
Show(st, i) == LET r == RootOf(st, st.it[i].g) p == st.it[i].pos IN IF p >= Total(r) THEN <<0>> ELSE <<1, r.cells[p + 1]>> \o Vals(r, p)
Ret(s, r) == [s |-> s, r |-> r]
SetCell(st, root, p, x) == [st EXCEPT !.root[root].cells[p + 1] = x]
\* the index meant by an event: by value it is the first knot that has it
Want(r, e) == IF e.by = "i" THEN e.x ELSE LET k == r.kn[e.ax] IN IF \E j \in 1..Len(k) : k[j] = e.x THEN IdxOf(e.x, k) - 1 ELSE 1000
FixIt(st, i, a, x) == LET q == st.it[i] IN
  LET f == [q.fix EXCEPT ![a] = x] IN [st EXCEPT !.it[i] = [q EXCEPT !.fix = f, !.pos = From(RootOf(st, q.g), q.pos, f)]]
RECURSIVE FixAll(_, _, _, _)
FixAll(st, i, idx, a) == IF a = 0 THEN st ELSE FixAll(FixIt(st, i, a, idx[a]), i, idx, a - 1)
Row(r, p) == Rev(Vals(r, p)) \o <<r.cells[p + 1]>>
NewRoot(st, kn, cells) == [st EXCEPT !.root = Append(@, [kn |-> kn, cells |-> cells]), !.g = Append(@, [root |-> Len(st.root) + 1, fix |-> [a \in 1..Len(kn) |-> -1]])]
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "grid" -> LET n == Prod(Sizes(e.kn)) IN
         LET s == NewRoot(st, e.kn, [i \in 1..n |-> i - 1]) IN Ret(s, Ok(<<n, Len(e.kn)>>))
    [] e.op = "slice" -> LET h == st.g[e.g] r == RootOf(st, e.g) x == Want(r, e) IN
         IF x >= Len(r.kn[e.ax]) \/ h.fix[e.ax] # -1 THEN Ret(st, Throw)
         ELSE LET s == [st EXCEPT !.g = Append(@, [h EXCEPT !.fix[e.ax] = x])] IN Ret(s, Ok(<<Len(Cells(s, Len(s.g)))>>))
    [] e.op = "axes" -> Ret(st, LET v == View(st, e.g) IN Ok(Flat(Map(LAMBDA k : <<Len(k)>> \o k, v)) \o <<Prod(Sizes(v))>>))
    [] e.op = "all" -> Ret(st, LET r == RootOf(st, e.g) IN Ok(Flat(Map(LAMBDA p : <<r.cells[p + 1]>> \o Vals(r, p), Cells(st, e.g)))))
    [] e.op = "at" -> IF ~InShape(e.c, Sizes(View(st, e.g))) THEN Ret(st, Throw)
                      ELSE Ret(st, Ok(<<RootOf(st, e.g).cells[ViewPos(st, e.g, e.c) + 1]>>))
    [] e.op = "put" -> IF ~InShape(e.c, Sizes(View(st, e.g))) THEN Ret(st, Throw)
                       ELSE Ret(SetCell(st, st.g[e.g].root, ViewPos(st, e.g, e.c), e.x), Okay)
    [] e.op = "fill" -> Ret([st EXCEPT !.root[st.g[e.g].root].cells = [i \in 1..Len(@) |-> IF Match(i - 1, Sizes(RootOf(st, e.g).kn), st.g[e.g].fix) THEN e.x ELSE @[i]]], Okay)
    [] e.op = "inf" -> Ret(st, LET v == View(st, e.g) IN Ok([a \in 1..Len(v) |-> Inf(v[a], e.c[a])]))
    [] e.op = "move" -> Ret([st EXCEPT !.g = Append(@, st.g[e.g])], Okay)        \* the old object is not used any more
    [] e.op = "it" -> LET s == [st EXCEPT !.it = Append(@, [g |-> e.g, pos |-> From(RootOf(st, e.g), 0, st.g[e.g].fix), fix |-> st.g[e.g].fix])] IN Ret(s, Ok(Show(s, Len(s.it))))
    [] e.op = "next" -> LET q == st.it[e.i] r == RootOf(st, q.g) IN
         LET s == [st EXCEPT !.it[e.i].pos = From(r, q.pos + 1, q.fix)] IN Ret(s, Ok(Show(s, e.i)))
    [] e.op = "fix" -> LET q == st.it[e.i] r == RootOf(st, q.g) x == Want(r, e) IN
         IF x >= Len(r.kn[e.ax]) \/ (q.fix[e.ax] # -1 /\ q.fix[e.ax] # x) THEN Ret(st, Throw)
         ELSE LET s == FixIt(st, e.i, e.ax, x) IN Ret(s, Ok(Show(s, e.i)))
    [] e.op = "fixall" -> LET a == st.it[e.i] b == st.it[e.j] IN
         LET idx == Coord(b.pos, Sizes(RootOf(st, b.g).kn)) IN
         LET s == FixAll(st, e.i, idx, Len(idx)) IN Ret(s, Ok(Show(s, e.i)))
    [] e.op = "wr" -> LET q == st.it[e.i] IN Ret(SetCell(st, st.g[q.g].root, q.pos, e.x), Okay)
    [] e.op = "cp" -> LET s == [st EXCEPT !.it = Append(@, st.it[e.i])] IN Ret(s, Ok(Show(s, Len(s.it))))
    [] e.op = "asg" -> LET s == [st EXCEPT !.it[e.i] = st.it[e.j]] IN Ret(s, Ok(Show(s, e.i)))
    [] e.op = "eq" -> Ret(st, LET b == st.it[e.i].pos = st.it[e.j].pos IN Ok(<<Bit(b), Bit(~b)>>))
    [] e.op = "idx" -> Ret(st, Ok(<<Coord(st.it[e.i].pos, Sizes(RootOf(st, st.it[e.i].g).kn))[e.ax]>>))
    [] e.op = "rest" -> LET q == st.it[e.i] r == RootOf(st, q.g) IN      \* a copy of the iterator walks to the end
         Ret(st, Ok(Map(LAMBDA p : r.cells[p + 1], SelectSeq([k \in 1..(Total(r) - q.pos) |-> q.pos + k - 1], LAMBDA p : Match(p, Sizes(r.kn), q.fix)))))
    [] e.op = "arch" -> \* all of e.gs written to one stream and read back: new grids with the same axes and cells
         LET F[k \in 0..Len(e.gs)] == IF k = 0 THEN st ELSE
                NewRoot(F[k - 1], View(st, e.gs[k]), Map(LAMBDA p : RootOf(st, e.gs[k]).cells[p + 1], Cells(st, e.gs[k])))
         IN Ret(F[Len(e.gs)], Ok(<<Len(e.gs)>>))
    [] e.op = "table" -> Ret(st, LET r == RootOf(st, e.g) ps == Cells(st, e.g) IN Res("ok", <<Len(ps)>> \o Flat(Map(LAMBDA p : Row(r, p), ps)), e.cn))
    [] e.op = "axeq" -> Ret(st, LET b == e.a = e.b IN Ok(<<Bit(b), Bit(~b)>>))
    [] e.op = "help" -> Ret(st, LET n == Prod(e.sh) IN
         Ok(IF InShape(e.c, e.sh) THEN LET p == Lin(e.c, e.sh) IN <<1, p, p>> \o Coord(p, e.sh) ELSE <<0>>))
==================================================================================
