----------------------------------- MODULE Npy -----------------------------------
(* NPY files and arrays mapped on them.  A file is <<>> (absent) or <<rec>>; rec.d is what  *)
(* is stored.  An array is in memory ("mem"), a live view of a file ("rw", "ro"), a private *)
(* one ("priv"), or gone ("dead").  sh is the full shape: with attributes, the last axis is *)
(* theirs.                                                                                  *)
EXTENDS VLib
NF == 3
Empty == [f |-> [i \in 1..NF |-> <<>>], a |-> <<>>]
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
Obs(e) == IF "obs" \in DOMAIN e THEN e.obs ELSE Res("none", <<>>, <<>>)
\* int8..int64, uint8..uint64, float, double
SizeOf(t) == <<1, 2, 4, 8, 1, 2, 4, 8, 4, 8>>[t]
Header == 128
File(st, i) == st.f[i][1]
Here(st, i) == st.f[i] # <<>>
N(sh) == Prod(sh)
Data(st, x) == IF x.k \in {"rw", "ro"} THEN SubSeq(File(st, x.f).d, 1, N(x.sh)) ELSE x.d
Show(st, x) == Res("ok", <<Len(x.sh)>> \o x.sh \o Data(st, x), x.at)
AddA(st, x) == [st EXCEPT !.a = Append(@, x)]
\* a well formed file of a type is needed
Readable(st, e) == Here(st, e.f) /\ LET x == File(st, e.f) IN x.bad = 0 /\ x.t = e.t
\* the size of the file tells where its data starts: at a multiple of 64
Offset(o, n, t) == IF o.k = "ok" /\ Len(o.v) = 1 /\ o.v[1] - n * SizeOf(t) > 0 /\ (o.v[1] - n * SizeOf(t)) % 64 = 0 THEN o.v[1] - n * SizeOf(t) ELSE Header
NewFile(t, sh, at, d, off) == <<[t |-> t, sh |-> sh, at |-> at, d |-> d, off |-> off, bad |-> 0]>>
Write(st, e) == LET x == st.a[e.a] IN LET off == Offset(Obs(e), N(x.sh), x.t) IN
                Ret([st EXCEPT !.f[e.f] = NewFile(x.t, x.sh, x.at, Data(st, x), off)], Ok(<<off + N(x.sh) * SizeOf(x.t)>>))
Full(sh, at) == IF at = <<>> THEN sh ELSE Append(sh, Len(at))
Create(st, e) == LET sh == Full(e.sh, e.at) IN LET n == N(sh) IN LET off == Offset(Obs(e), n, e.t) IN LET total == off + n * SizeOf(e.t) IN
                 Ret([f |-> [st.f EXCEPT ![e.f] = NewFile(e.t, sh, e.at, [i \in 1..n |-> 0], off)],
                      a |-> Append(st.a, [k |-> "rw", f |-> e.f, t |-> e.t, sh |-> sh, at |-> e.at, d |-> <<>>, cap |-> Max2(e.max, total)])], Ok(<<total>>))
MapFile(st, e) == IF ~Readable(st, e) THEN Ret(st, Throw)
              ELSE LET x == File(st, e.f) IN LET y == [k |-> e.mode, f |-> e.f, t |-> x.t, sh |-> x.sh, at |-> x.at, d |-> IF e.mode = "priv" THEN x.d ELSE <<>>, cap |-> Max2(e.max, x.off + Len(x.d) * SizeOf(x.t))] IN
                   Ret(AddA(st, y), Show(AddA(st, y), y))
SetV(s, i, v) == [s EXCEPT ![i] = v]
Put(st, e) == LET x == st.a[e.a] IN Ret(IF x.k = "rw" THEN [st EXCEPT !.f[x.f] = <<[@[1] EXCEPT !.d = SetV(@, e.i, e.v)]>>] ELSE [st EXCEPT !.a[e.a].d = SetV(@, e.i, e.v)], Okay)
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE 4
\* the file must be able to hold the result, and the header to name it
Concat(st, e) ==
  LET x == st.a[e.a] y == st.a[e.b] IN
  IF Len(x.sh) # Len(y.sh) \/ \E i \in 2..Len(x.sh) : x.sh[i] # y.sh[i] THEN Ret(st, Throw)
  ELSE LET sh == [x.sh EXCEPT ![1] = @ + y.sh[1]] d == Data(st, x) \o Data(st, y) IN
       LET raw == File(st, x.f).off = 0 IN
       LET fits == raw \/ File(st, x.f).off + N(sh) * SizeOf(x.t) <= x.cap
           same == ~raw /\ (Digits(sh[1]) = Digits(x.sh[1]) \/ (Len(x.sh) = 1 /\ x.at # <<>>)) IN
       IF ~fits \/ (~same /\ Obs(e).k = "throw") THEN Ret(st, Throw)
       ELSE Ret([f |-> IF x.k = "rw" THEN [st.f EXCEPT ![x.f] = <<[@[1] EXCEPT !.d = d, !.sh = sh]>>] ELSE st.f,
                 a |-> [st.a EXCEPT ![e.a].sh = sh, ![e.a].d = IF x.k = "rw" THEN @ ELSE d]], Okay)
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "arr" -> Ret(AddA(st, [k |-> "mem", f |-> 0, t |-> e.t, sh |-> Full(e.sh, e.at), at |-> e.at, d |-> e.d, cap |-> 0]), Okay)
    [] e.op = "wr" -> Write(st, e)
    [] e.op = "rd" -> IF ~Readable(st, e) THEN Ret(st, Throw)
                      ELSE LET x == File(st, e.f) IN LET y == [k |-> "mem", f |-> 0, t |-> x.t, sh |-> x.sh, at |-> x.at, d |-> x.d, cap |-> 0] IN Ret(AddA(st, y), Show(st, y))
    [] e.op = "mk" -> Create(st, e)
    [] e.op = "mm" -> MapFile(st, e)
    [] e.op = "set" -> Put(st, e)
    [] e.op = "cat" -> Concat(st, e)
    [] e.op = "all" -> Ret(st, Show(st, st.a[e.a]))
    [] e.op = "cp" -> LET x == st.a[e.a] IN Ret(AddA(st, [x EXCEPT !.k = "mem", !.d = Data(st, x)]), Okay)
    [] e.op = "cl" -> Ret([st EXCEPT !.a[e.a].k = "dead"], Okay)
    \* a file written by numpy (bad = 0), or one that cannot be read
    [] e.op = "raw" -> Ret([st EXCEPT !.f[e.f] = <<[t |-> e.t, sh |-> Full(e.sh, e.at), at |-> e.at, d |-> e.d, off |-> 0, bad |-> e.bad]>>], Okay)
    \* what numpy would read in the header: version, alignment, order, shape without the attributes, then attributes and types
    [] e.op = "hdr" -> LET x == File(st, e.f) sh == IF x.at = <<>> THEN x.sh ELSE Front1(x.sh)
                           ty == <<"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8">>[x.t] IN
         Ret(st, Res("ok", <<1, 1, 0, Len(sh)>> \o sh, IF x.at = <<>> THEN <<ty>> ELSE Flat([i \in 1..Len(x.at) |-> <<x.at[i], ty>>])))
    \* more elements than 32 bits can count, without having to store them
    [] e.op = "big" -> Ret(st, Ok(<<e.sh[1], e.sh[2], e.v>>))
==================================================================================
