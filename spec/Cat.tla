------------------------------------ MODULE Cat ------------------------------------
(* Catalogs made from tables, and the photometry made from a row.                      *)
(* Numbers are in units of 1/64; NaN and the infinities are the markers below.         *)
(* A table cell: [t, s, n, num, xs, vx]: type, text, number (if num = 1), vector of    *)
(* numbers (if vx = 1).                                                                *)
EXTENDS VLib
NaN == 2000000001  PInf == 2000000002  NInf == 2000000003
IsInf(x) == x \in {PInf, NInf}
Neg(x) == x = NInf \/ (x < 0)
Abs(x) == IF x = NInf THEN PInf ELSE IF x < 0 THEN -x ELSE x
NonPos(x) == Neg(x) \/ x = 0

\* ------------------------------------------------------------------------ photometry
\* settings s: miss, flag, up, uflag; n: twice the threshold of the filter
\* <<flux, error, missing, upper limit>>, or <<>> when the row is rejected
Phot(flux, err, s, n) ==
  IF IsInf(flux) THEN <<>>
  ELSE IF s.miss = 1 /\ (flux = s.flag \/ flux = NaN) THEN <<flux, 0, 1, 0>>
  ELSE IF flux = NaN THEN <<>>
  ELSE IF s.up = 1
       THEN IF err = 0 THEN <<>>
            ELSE IF Neg(err) THEN IF NonPos(flux) THEN <<>> ELSE <<flux, IF err = s.uflag THEN (2 * flux) \div n ELSE Abs(err), 0, 1>>
            ELSE <<flux, err, 0, 0>>
       ELSE IF NonPos(err) THEN <<>> ELSE <<flux, err, 0, 0>>
\* magnitudes are multiples of 5/2 = 160/64: 10^(-0.4 mag) is a power of ten
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
MagFlux(m) == Pow10[7 - (m \div 160)]                \* millionths of the flux of magnitude 0
MagMissing(m, s) == m = s.flag \/ m = NaN
\* the same for a magnitude: <<missing, upper limit, flux in millionths, which error, error>>
\*   error 0: as it is, 1: in millionths of the flux of magnitude 0, 2: the same divided by 0.4 ln 10
PhotMag(m, err, s, n) ==
  LET f == MagFlux(m) IN
  IF s.up = 1 THEN IF err = 0 THEN <<>>
                   ELSE IF Neg(err) THEN <<0, 1, f, IF err = s.uflag THEN 1 ELSE 2, IF err = s.uflag THEN (2 * f) \div n ELSE f * (Abs(err) \div 64)>>
                   ELSE IF err = s.uflag THEN <<0, 0, f, 0, err>> ELSE <<0, 0, f, 2, f * (err \div 64)>>
  ELSE IF NonPos(err) THEN <<>> ELSE IF err = s.uflag THEN <<0, 0, f, 0, err>> ELSE <<0, 0, f, 2, f * (err \div 64)>>
\* what the driver reports per filter: missing, upper, flux, error, flux/f0, error/f0, error/(f0 0.4 ln 10)
PhotObs(flux, err, s, n, mag, o) ==
  IF mag = 1 /\ ~MagMissing(flux, s)
  THEN LET p == PhotMag(flux, err, s, n) IN
       IF p = <<>> THEN <<>> ELSE [[o EXCEPT ![1] = p[1], ![2] = p[2], ![5] = p[3]] EXCEPT ![IF p[4] = 0 THEN 4 ELSE 5 + p[4]] = p[5]]
  ELSE LET p == IF mag = 1 THEN Phot(s.flag, 0, s, n) ELSE Phot(flux, err, s, n) IN
       IF p = <<>> THEN <<>> ELSE [o EXCEPT ![1] = p[3], ![2] = p[4], ![3] = p[1], ![4] = p[2]]
ColAt(cols, nm) == IF \E i \in 1..Len(cols) : cols[i] = nm THEN IdxOf(nm, cols) ELSE 0
DoPhot(e) ==
  LET k == Len(e.fs)
      ok == \A i \in 1..k : ColAt(e.cols, e.fs[i].fc) > 0 /\ ColAt(e.cols, e.fs[i].ec) > 0
      seen == e.obs.k = "ok" /\ Len(e.obs.v) = 7 * k + 3 * Len(e.ask)
      piece(i) == IF seen THEN SubSeq(e.obs.v, 7 * i - 6, 7 * i) ELSE <<0, 0, 0, 0, 0, 0, 0>>
      val(c) == e.vals[ColAt(e.cols, c)]
      out == [i \in 1..k |-> PhotObs(val(e.fs[i].fc), val(e.fs[i].ec), e, 2 * e.fs[i].n, e.fs[i].mag, piece(i))]
      names == [i \in 1..k |-> e.fs[i].f]
      ask(a) == LET j == ColAt(names, a) IN IF j = 0 THEN <<0, 0, 0>> ELSE <<1, out[j][3], out[j][4]>>
  IN IF ~ok THEN Throw
     ELSE IF \E i \in 1..k : out[i] = <<>> THEN Res("reject", <<>>, <<>>)
     ELSE Res("ok", Flat(out) \o Flat(Map(ask, e.ask)), names)

\* --------------------------------------------------------------------------- catalogs
CellOf(e, row, nm) == row[ColAt(e.cols, nm)]
\* the attribute a handler makes of a row: <<numbers, texts>>, or <<>> if the row is rejected
Attr(e, h, row) ==
  CASE h.k = "row" -> << <<Len(row)>>, Map(LAMBDA c : c.s, row) >>
    [] h.k = "z"   -> LET a == CellOf(e, row, h.a) IN IF a.num = 0 THEN <<>> ELSE << <<a.n, 0>>, <<>> >>
    [] h.k = "ze"  -> LET a == CellOf(e, row, h.a) b == CellOf(e, row, h.b) IN IF a.num = 0 \/ b.num = 0 THEN <<>> ELSE << <<a.n, b.n>>, <<>> >>
    [] h.k = "phot" -> LET a == CellOf(e, row, h.a) b == CellOf(e, row, h.b) IN
                       IF a.num = 0 \/ b.num = 0 THEN <<>>
                       ELSE LET p == Phot(a.n, b.n, [miss |-> 0, flag |-> 0, up |-> 0, uflag |-> 0], 2) IN IF p = <<>> THEN <<>> ELSE << <<p[1], p[2]>>, <<>> >>
    [] h.k = "pdf" -> IF ColAt(e.cols, h.a) = 0 THEN <<>>
                      ELSE LET a == CellOf(e, row, h.a) IN IF a.vx = 0 \/ Len(a.xs) # h.n THEN <<>> ELSE << <<h.n>> \o a.xs, <<>> >>
Kind(k) == IF k = "ze" THEN "z" ELSE k
Kinds == <<"row", "z", "phot", "pdf", "other">>
\* what getAttribute gives for each kind: the first one of it
Shown(e, row) ==
  LET first(k) == SelectSeq(e.hs, LAMBDA h : Kind(h.k) = k)
      one(k) == LET f == first(k) IN IF f = <<>> THEN << <<-1>>, <<>> >> ELSE Attr(e, f[1], row)
      all == Map(one, Kinds)
  IN [v |-> Flat(Map(LAMBDA a : a[1], all)), s |-> Flat(Map(LAMBDA a : a[2], all))]
IdOf(c) == IF c.t \in {"int", "long"} THEN <<"n", c.s>> ELSE IF c.t = "string" THEN <<"s", c.s>> ELSE <<>>
Needs(h) == IF h.k \in {"ze", "phot"} THEN {h.a, h.b} ELSE IF h.k = "z" THEN {h.a} ELSE {}
Empty == <<>>
Known(st, e) == {}
DoCat(e) ==
  LET cols == \A c \in {e.id} \cup UNION {Needs(e.hs[i]) : i \in 1..Len(e.hs)} : ColAt(e.cols, c) > 0
      ids == Map(LAMBDA r : IdOf(CellOf(e, r, e.id)), e.rows)
      bad == \E i \in 1..Len(e.rows), j \in 1..Len(e.hs) : Attr(e, e.hs[j], e.rows[i]) = <<>>
  IN IF ~cols THEN <<>>
     ELSE IF (\E i \in 1..Len(ids) : ids[i] = <<>>) \/ (\E i, j \in 1..Len(ids) : i # j /\ ids[i] = ids[j]) \/ bad THEN <<>>
     ELSE <<[i \in 1..Len(ids) |-> [id |-> ids[i], a |-> Shown(e, e.rows[i])]]>>
OutSrc(x) == x.id \o x.a.s
Apply(st, e) ==
  CASE e.op = "phot" -> [s |-> st, r |-> DoPhot(e)]
    [] e.op = "cat" -> LET c == DoCat(e) IN
                       IF c = <<>> THEN [s |-> <<>>, r |-> Throw]
                       ELSE [s |-> c[1], r |-> Res("ok", <<Len(c[1])>> \o Flat(Map(LAMBDA x : x.a.v, c[1])), Flat(Map(OutSrc, c[1])))]
    [] e.op = "find" -> [s |-> st, r |-> LET k == {i \in 1..Len(st) : st[i].id = <<e.t, e.id>>} IN
                                         IF k = {} THEN Res("none", <<>>, <<>>) ELSE LET x == st[CHOOSE i \in k : TRUE] IN Res("ok", x.a.v, OutSrc(x))]
    [] e.op = "fpeq" -> [s |-> st, r |-> LET q == (e.a[3] = 1 /\ e.b[3] = 1) \/ (e.a[1] = e.b[1] /\ e.a[2] = e.b[2] /\ e.a[4] = e.b[4]) IN Ok(<<Bit(q), Bit(~q)>>)]
==================================================================================
