---------------------------------- MODULE NdArr ----------------------------------
(* Specification of Euclid::NdArray::NdArray.                                      *)
(*                                                                                 *)
(* Abstract state: a set of buffers, and handles on them.  A handle is a *view*:   *)
(* the row-major list of the buffer cells it denotes, plus a shape and the names   *)
(* of the last axis.  Strides and offsets do not exist here: whatever layout the   *)
(* implementation uses, every access has to behave like this list.                 *)
EXTENDS VLib

\* State: [bufs: Seq(Seq(Int)), arrs: Seq(handle)]
\* handle: [b, cells, shape, attrs, vis]
\*   vis: number of elements visible through size()/iteration.  Equal to
\*   Len(cells), except for the known finding NDARRAY-CONCAT-SIZE (see Known).
Empty == [bufs |-> <<>>, arrs |-> <<>>]

Vals(st, a) == [i \in 1..Len(a.cells) |-> st.bufs[a.b][a.cells[i]]]
Ident(n) == [i \in 1..n |-> i]

NewBuf(st, data, shape, attrs) ==
  [bufs |-> Append(st.bufs, data),
   arrs |-> Append(st.arrs, [b |-> Len(st.bufs) + 1, cells |-> Ident(Len(data)), shape |-> shape,
                             attrs |-> attrs, vis |-> Len(data)])]
AddArr(st, a) == [st EXCEPT !.arrs = Append(@, a)]
R(st, r) == [s |-> st, r |-> r]

\* ------------------------------------------------------------------ construction
FullShape(e) == IF e.attrs = <<>> THEN e.shape ELSE Append(e.shape, Len(e.attrs))
Mk(st, e) ==
  LET sh == FullShape(e) IN
  IF e.how = "zero"
  THEN R(NewBuf(st, [i \in 1..Prod(sh) |-> 0], sh, e.attrs), Okay)
  ELSE IF Prod(sh) # Len(e.data) THEN R(st, Throw)
       ELSE R(NewBuf(st, e.data, sh, e.attrs), Okay)

Dup(st, e)    == R(AddArr(st, st.arrs[e.h]), Okay)
Assign(st, e) == R([st EXCEPT !.arrs[e.h] = st.arrs[e.g]], Okay)
Copy(st, e)   == LET a == st.arrs[e.h] IN R(NewBuf(st, Vals(st, a), a.shape, a.attrs), Okay)

Reshape(st, e) ==
  LET a == st.arrs[e.h] IN
  IF a.attrs # <<>> \/ Prod(e.shape) # Len(a.cells) THEN R(st, Throw)
  ELSE R([st EXCEPT !.arrs[e.h].shape = e.shape], Okay)

\* ------------------------------------------------------------------------- views
SubView(a, sh, attrs, pick(_)) ==
  LET n == Prod(sh) IN
  [b |-> a.b, cells |-> [k \in 1..n |-> a.cells[pick(k - 1) + 1]], shape |-> sh, attrs |-> attrs, vis |-> n]

Slice(st, e) ==
  LET a == st.arrs[e.h] IN
  IF Len(a.shape) <= 1 \/ e.i >= a.shape[1] THEN R(st, Throw)
  ELSE LET sh == Tail(a.shape) p(k) == e.i * Prod(sh) + k
       IN R(AddArr(st, SubView(a, sh, a.attrs, p)), Okay)

RSlice(st, e) ==
  LET a == st.arrs[e.h] IN
  IF Len(a.shape) <= 1 \/ e.i >= Last1(a.shape) THEN R(st, Throw)
  ELSE LET sh == Front1(a.shape) p(k) == k * Last1(a.shape) + e.i
       IN R(AddArr(st, SubView(a, sh, <<>>, p)), Okay)

\* ------------------------------------------------------------------------ access
Cell(a, c) == a.cells[Ravel(c, a.shape) + 1]
Get(st, e) ==
  LET a == st.arrs[e.h] IN
  IF ~InShape(e.c, a.shape) THEN R(st, Throw) ELSE R(st, Ok(<<st.bufs[a.b][Cell(a, e.c)]>>))
Set(st, e) ==
  LET a == st.arrs[e.h] IN
  IF ~InShape(e.c, a.shape) THEN R(st, Throw) ELSE R([st EXCEPT !.bufs[a.b][Cell(a, e.c)] = e.v], Okay)
WithAttr(a, e) == Append(e.c, IdxOf(e.a, a.attrs) - 1)
GetAttr(st, e) ==
  LET a == st.arrs[e.h] IN
  IF e.a \notin Range(a.attrs) THEN R(st, Throw)
  ELSE IF ~InShape(WithAttr(a, e), a.shape) THEN R(st, Throw)
  ELSE R(st, Ok(<<st.bufs[a.b][Cell(a, WithAttr(a, e))]>>))
SetAttr(st, e) ==
  LET a == st.arrs[e.h] IN
  IF e.a \notin Range(a.attrs) THEN R(st, Throw)
  ELSE IF ~InShape(WithAttr(a, e), a.shape) THEN R(st, Throw)
  ELSE R([st EXCEPT !.bufs[a.b][Cell(a, WithAttr(a, e))] = e.v], Okay)

\* writing k, k+1, ... through the iterators of a view
Fill(st, e) ==
  LET a == st.arrs[e.h] IN
  R([st EXCEPT !.bufs[a.b] = [p \in 1..Len(@) |->
       IF \E i \in 1..a.vis : a.cells[i] = p THEN e.v + (CHOOSE i \in 1..a.vis : a.cells[i] = p) - 1 ELSE @[p]]], Okay)

\* shape, size, iteration order, names: what a user sees of one handle
DumpWith(st, a, n) == Res("ok", <<Len(a.shape)>> \o a.shape \o <<n>> \o SubSeq(Vals(st, a), 1, n), a.attrs)
Dump(st, e)  == LET a == st.arrs[e.h] IN R(st, DumpWith(st, a, Len(a.cells)))
AtAll(st, e) == R(st, Ok(Vals(st, st.arrs[e.h])))
All(st, n(_)) == Res("ok", Flat([i \in 1..Len(st.arrs) |-> DumpWith(st, st.arrs[i], n(st.arrs[i])).v \o Vals(st, st.arrs[i])]),
                     Flat([i \in 1..Len(st.arrs) |-> st.arrs[i].attrs]))
FullN(a) == Len(a.cells)
VisN(a)  == a.vis
DumpAll(st)  == R(st, All(st, FullN))

Equal(st, a, b) == a.shape = b.shape /\ Vals(st, a) = Vals(st, b)
Eq(st, e) == R(st, Ok(<<Bit(Equal(st, st.arrs[e.h], st.arrs[e.g])), Bit(~Equal(st, st.arrs[e.h], st.arrs[e.g]))>>))

\* iterator algebra at positions i (and j): *(b+i), b[i], value after ++ i times, post-increment,
\* (e-n), difference, order
Iter(st, e) ==
  LET a == st.arrs[e.h] v == Vals(st, a) n == Len(v) IN
  IF e.i >= n \/ e.j >= n THEN R(st, Res("none", <<>>, <<>>))
  ELSE R(st, Ok(<<v[e.i + 1], v[e.i + 1], v[e.i + 1], v[n - e.i], e.i - e.j, Bit(e.i < e.j), Bit(e.i > e.j),
                  Bit(e.i = e.j), v[1], IF n > 1 THEN v[2] ELSE v[1], v[e.j + 1]>>))

Str(st, e) ==
  LET a == st.arrs[e.h] v == Vals(st, a) IN
  R(st, OkS(<<IF v = <<>> THEN ""
              ELSE "<" \o Join([i \in 1..Len(a.shape) |-> ToString(a.shape[i])], ",") \o ">"
                   \o Join([i \in 1..Len(v) |-> ToString(v[i])], ",")>>))

\* --------------------------------------------------------------------- concatenate
\* Appends along the first axis.  Other handles keep denoting what they denoted.
ConcatOk(a, b) == Len(a.shape) = Len(b.shape) /\ \A i \in 2..Len(a.shape) : a.shape[i] = b.shape[i]
Concat(st, e) ==
  LET a == st.arrs[e.h] b == st.arrs[e.g] IN
  IF ~ConcatOk(a, b) THEN R(st, Throw)
  ELSE LET whole == a.cells = Ident(Len(st.bufs[a.b]))
           bv == Vals(st, b)
           sh == [a.shape EXCEPT ![1] = @ + b.shape[1]]
       IN IF whole
          THEN LET n == Len(st.bufs[a.b]) IN
               R([bufs |-> [st.bufs EXCEPT ![a.b] = @ \o bv],
                  arrs |-> [st.arrs EXCEPT ![e.h] = [a EXCEPT !.cells = Ident(n + Len(bv)), !.shape = sh]]], Okay)
          ELSE LET av == Vals(st, a) \o bv IN
               R([bufs |-> Append(st.bufs, av),
                  arrs |-> [st.arrs EXCEPT ![e.h] = [a EXCEPT !.b = Len(st.bufs) + 1, !.cells = Ident(Len(av)),
                                                               !.shape = sh]]], Okay)

\* ---------------------------------------------------------------------- operations
Axis(a, ax) == IF ax < 0 THEN Len(a.shape) + ax ELSE ax
BadAxis(a, ax) == Axis(a, ax) < 0 \/ Axis(a, ax) >= Len(a.shape)
OutShape(a, k) == IF Len(a.shape) = 1 THEN <<1>> ELSE DropAt(a.shape, k)
Line(st, a, k, o) == \* the values along axis k at output position o
  [x \in 1..a.shape[k] |->
     LET oc == Unravel(o, OutShape(a, k))
         c  == IF Len(a.shape) = 1 THEN <<x - 1>> ELSE InsAt(oc, k, x - 1)
     IN st.bufs[a.b][Cell(a, c)]]
OpRes(sh, vals) == Ok(<<Len(sh)>> \o sh \o <<Len(vals)>> \o vals)
Sum(st, e) == R(st, Ok(<<SumSeq(Vals(st, st.arrs[e.h]))>>))
SumAxis(st, e) ==
  LET a == st.arrs[e.h] IN
  IF BadAxis(a, e.axis) THEN R(st, Throw)
  ELSE LET k == Axis(a, e.axis) + 1 sh == OutShape(a, k)
       IN R(st, OpRes(sh, [o \in 1..Prod(sh) |-> SumSeq(Line(st, a, k, o - 1))]))
\* twice the trapezoidal integral (the driver doubles it, so that it is an integer)
Trapz(st, e) ==
  LET a == st.arrs[e.h] IN
  IF BadAxis(a, e.axis) THEN R(st, Throw)
  ELSE LET k == Axis(a, e.axis) + 1 sh == OutShape(a, k) IN
       IF Len(e.knots) # a.shape[k] THEN R(st, Throw)
       ELSE R(st, OpRes(sh, [o \in 1..Prod(sh) |->
              LET v == Line(st, a, k, o - 1)
              IN SumSeq([x \in 1..(Len(v) - 1) |-> (v[x] + v[x + 1]) * (e.knots[x + 1] - e.knots[x])])]))
ArgExt(st, e, less(_, _)) ==
  LET a == st.arrs[e.h] v == Vals(st, a) IN
  IF v = <<>> THEN R(st, Res("none", <<>>, <<>>))
  ELSE LET p == CHOOSE i \in 1..Len(v) : \A j \in 1..Len(v) : ~less(v[j], v[i]) /\ (j < i => less(v[i], v[j]))
       IN R(st, Ok(Unravel(p - 1, a.shape)))
Lt(x, y) == x < y
Gt(x, y) == x > y
UnravelOp(st, e) == IF e.i >= Prod(e.shape) THEN R(st, Throw) ELSE R(st, Ok(Unravel(e.i, e.shape)))

\* ---------------------------------------------------------------------------------
Apply(st, e) ==
  CASE e.op = "new"     -> R(Empty, Okay)
    [] e.op = "mk"      -> Mk(st, e)
    [] e.op = "dup"     -> Dup(st, e)
    [] e.op = "assign"  -> Assign(st, e)
    [] e.op = "copy"    -> Copy(st, e)
    [] e.op = "reshape" -> Reshape(st, e)
    [] e.op = "slice"   -> Slice(st, e)
    [] e.op = "rslice"  -> RSlice(st, e)
    [] e.op = "get"     -> Get(st, e)
    [] e.op = "set"     -> Set(st, e)
    [] e.op = "getattr" -> GetAttr(st, e)
    [] e.op = "setattr" -> SetAttr(st, e)
    [] e.op = "fill"    -> Fill(st, e)
    [] e.op = "dump"    -> Dump(st, e)
    [] e.op = "atall"   -> AtAll(st, e)
    [] e.op = "dumpall" -> DumpAll(st)
    [] e.op = "eq"      -> Eq(st, e)
    [] e.op = "iter"    -> Iter(st, e)
    [] e.op = "str"     -> Str(st, e)
    [] e.op = "concat"  -> Concat(st, e)
    [] e.op = "sum"     -> Sum(st, e)
    [] e.op = "sumaxis" -> SumAxis(st, e)
    [] e.op = "trapz"   -> Trapz(st, e)
    [] e.op = "argmax"  -> ArgExt(st, e, Gt)
    [] e.op = "argmin"  -> ArgExt(st, e, Lt)
    [] e.op = "unravel" -> UnravelOp(st, e)

\* Known finding NDARRAY-CONCAT-SIZE: after concatenate() the implementation still
\* reports and iterates over the number of elements it had before.  Result the
\* deviating implementation gives.
Stale(a) == a.vis # Len(a.cells)
CS(r) == {[id |-> "NDARRAY-CONCAT-SIZE", r |-> r]}
Known(st, e) ==
  IF e.op = "dump" THEN IF Stale(st.arrs[e.h]) THEN CS(DumpWith(st, st.arrs[e.h], st.arrs[e.h].vis)) ELSE {}
  ELSE IF e.op = "dumpall" THEN IF \E i \in 1..Len(st.arrs) : Stale(st.arrs[i]) THEN CS(All(st, VisN)) ELSE {}
  ELSE {}
==================================================================================
