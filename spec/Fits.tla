------------------------------------ MODULE Fits ------------------------------------
(* FITS files with images, ASCII and binary tables: writers that create or extend table *)
(* HDUs chunk by chunk, readers that stream rows, and the dataset parser on top.        *)
(* Cells, column infos and the texts of numbers are those of module Tab.                *)
EXTENDS Tab
NFiles == 3
\* ------------------------------------------------------------- what a table HDU holds
AsciiT(t) == CASE t \in {"bool", "int", "long"} -> "long" [] t \in {"float", "double"} -> "double" [] t = "string" -> "string" [] OTHER -> ""
\* the type a column of a binary table reads back with; arrays of one element are scalars
BinT(t, c) == CASE t = "[bool]" -> "" [] t \in Scalar -> t [] OTHER -> IF Len(c.x) = 1 THEN El(t) ELSE t
Stored(fmt, t, c) == IF fmt = "asc" THEN AsciiT(t) ELSE BinT(t, c)
Put(t, c) == Cell(t, IF t \in Nd THEN c.sh ELSE <<>>, c.x)
\* all the rows of the first table have arrays of the same size and shape, of a known type
Fit(fmt, cols, rows) == \A i \in 1..Len(cols) : /\ Stored(fmt, cols[i].type, rows[1][i]) # ""
                                                /\ cols[i].type \in Vec \cup Nd => \A k \in 1..Len(rows) : Len(rows[k][i].x) = Len(rows[1][i].x) /\ rows[k][i].sh = rows[1][i].sh
StCols(fmt, cols, rows) == [i \in 1..Len(cols) |-> [cols[i] EXCEPT !.type = Stored(fmt, cols[i].type, rows[1][i])]]
StRows(stc, rows) == Map(LAMBDA r : [i \in 1..Len(r) |-> Put(stc[i].type, r[i])], rows)
Hdu(name, kind, cols, rows, com) == [name |-> name, kind |-> kind, cols |-> cols, rows |-> rows, com |-> com, keys |-> <<>>]
NoFile == [ex |-> FALSE, unk |-> FALSE, hdus |-> <<>>]
NewFile == [NoFile EXCEPT !.ex = TRUE]

\* --------------------------------------- the documented types of tables of other origin
\* f: [n, c]: repeat count (0: none) and letter;  dims: the shape of TDIM, or empty
BinType(f, dims) ==
  LET el == CASE f.c \in {"B", "I", "J"} -> "int" [] f.c = "K" -> "long" [] f.c = "E" -> "float" [] f.c = "D" -> "double" [] OTHER -> "" IN
  CASE f.c = "A" -> "string"
    [] f.c = "L" -> IF f.n > 1 \/ dims # <<>> THEN "" ELSE "bool"
    [] el = "" -> ""
    [] dims # <<>> -> "[" \o el \o "+]"
    [] f.n > 1 -> "[" \o el \o "]"
    [] OTHER -> el
AscType(f) == CASE f.c = "A" -> "string" [] f.c = "I" -> "long" [] f.c \in {"F", "E", "D"} -> "double" [] OTHER -> ""
RawCols(e) == [i \in 1..Len(e.cols) |-> [name |-> IF e.cols[i].name = "" THEN "Col" \o ToString(i) ELSE e.cols[i].name,
                                         type |-> IF e.kind = "asc" THEN AscType(e.cols[i].f) ELSE BinType(e.cols[i].f, e.cols[i].dims),
                                         unit |-> e.cols[i].unit, desc |-> e.cols[i].desc]]
RawRows(e, cols) == Map(LAMBDA r : [i \in 1..Len(r) |-> Cell(cols[i].type, IF cols[i].type \in Nd THEN e.cols[i].dims ELSE <<>>, r[i])], e.rows)
Readable(cols) == cols # <<>> /\ \A i \in 1..Len(cols) : cols[i].type # ""

FEmpty == [files |-> [i \in 1..NFiles |-> NoFile], ws |-> <<>>, r |-> [on |-> FALSE]]
HduIx(f, n) == LET k == {i \in 1..Len(f.hdus) : f.hdus[i].name = n} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j

\* ------------------------------------------------------------------------ the reader
FixOk(fixn) == NoDup(fixn) /\ \A i \in 1..Len(fixn) : fixn[i] \notin {"", "a b", "x\ty", " "}
OpenF(h, fixn) ==
  LET cols == IF h.kind = "img" \/ ~Readable(h.cols) \/ (fixn # <<>> /\ Len(fixn) # Len(h.cols)) THEN <<>>
              ELSE [i \in 1..Len(h.cols) |-> IF fixn = <<>> THEN h.cols[i] ELSE [h.cols[i] EXCEPT !.name = fixn[i]]]
  IN [on |-> TRUE, cols |-> IF NoDup(NamesOf(cols)) THEN cols ELSE <<>>, rows |-> h.rows, pos |-> 0, began |-> FALSE, dead |-> FALSE, com |-> h.com, img |-> h.kind = "img"]
FReader(st, e) ==
  LET r == st.r
      go(rr, res) == [s |-> [st EXCEPT !.r = rr], r |-> res]
      b == [r EXCEPT !.began = TRUE]
  IN
  CASE e.op = "comment" -> go(r, IF r.img THEN Throw ELSE OkS(<<r.com>>))
    [] e.op = "late" -> go(r, IF r.began THEN Ok(<<1>>) ELSE e.obs)
    [] r.cols = <<>> -> go(b, Throw)
    [] e.op = "info" -> go(b, OkS(OutCols(r.cols)))
    [] e.op = "has" -> go(b, Ok(<<Bit(Left(r) > 0)>>))
    [] e.op = "left" -> go(b, Ok(<<Left(r)>>))
    [] e.op = "skip" -> go([b EXCEPT !.pos = Min2(Len(r.rows), @ + e.n)], Okay)
    [] e.op = "read" -> LET n == IF e.n < 0 THEN Left(r) ELSE Min2(Left(r), e.n)
                            got == SubSeq(r.rows, r.pos + 1, r.pos + n) IN
                        IF n = 0 THEN go(b, Throw) ELSE go([b EXCEPT !.pos = @ + n], Res("ok", <<n>>, Flat(Map(OutRow, got))))

\* ------------------------------------------------------------------------ the writers
Wr(e) == [f |-> e.f, over |-> e.over = 1, shared |-> e.shared = 1, fmt |-> "bin", hdu |-> "", com |-> <<>>, ini |-> FALSE, cols |-> <<>>, ix |-> 0]
AddW(st, e) ==
  LET w == st.ws[e.w]
      fresh == w.over /\ ~w.shared
      fl == IF (~w.ini /\ fresh) \/ ~st.files[w.f].ex THEN NewFile ELSE st.files[w.f]
      ix == IF w.ini THEN w.ix ELSE HduIx(fl, w.hdu)
      upd(f2, w2) == [st EXCEPT !.files[w.f] = f2, !.ws[e.w] = w2, !.r = [on |-> FALSE]]
      \* a table that is rejected leaves the tables of the file, and the writer, as they were (whether a file
      \* that was to be created or overridden is there by then is left open)
      rej == [s |-> [st EXCEPT !.files[w.f].unk = @ \/ (~w.ini /\ ~w.shared /\ (w.over \/ ~st.files[w.f].ex)), !.r = [on |-> FALSE]], r |-> Throw]
  IN
  IF w.ini /\ Key(w.cols) # Key(e.cols) THEN rej
  ELSE IF ~w.ini /\ ~Fit(w.fmt, e.cols, e.rows) THEN rej
  ELSE IF ix > 0 /\ fl.hdus[ix].kind = "img" THEN rej
  ELSE IF ix > 0 THEN [s |-> upd([fl EXCEPT !.hdus[ix].rows = @ \o StRows(fl.hdus[ix].cols, e.rows)], [w EXCEPT !.ini = TRUE, !.cols = e.cols, !.ix = ix]), r |-> Okay]
  ELSE LET sc == StCols(w.fmt, e.cols, e.rows) IN
       [s |-> upd([fl EXCEPT !.hdus = Append(@, Hdu(w.hdu, w.fmt, sc, StRows(sc, e.rows), Lines(w.com)))], [w EXCEPT !.ini = TRUE, !.cols = e.cols, !.ix = Len(fl.hdus) + 1]), r |-> Okay]

\* ----------------------------------------------------------------------------- steps
FApply(st, e) ==
  LET keep(r) == [s |-> st, r |-> r]
      F == st.files[e.f]
      mk == IF F.ex THEN F ELSE NewFile
      add(h) == [st EXCEPT !.files[e.f] = [mk EXCEPT !.hdus = Append(@, h)], !.r = [on |-> FALSE]]
  IN
  CASE e.op = "new" -> [s |-> FEmpty, r |-> Okay]
    [] e.op = "image" -> [s |-> add(Hdu(e.name, "img", <<>>, <<>>, "")), r |-> Okay]
    [] e.op = "raw" -> LET c == RawCols(e) IN [s |-> add(Hdu(e.name, e.kind, c, RawRows(e, c), "")), r |-> Okay]
    [] e.op = "key" -> [s |-> [st EXCEPT !.files[e.f].hdus[e.h].keys = Append(SelectSeq(@, LAMBDA p : p[1] # e.k), <<e.k, e.x>>)], r |-> Okay]
    [] e.op = "writer" -> [s |-> [st EXCEPT !.ws = Append(@, Wr(e)), !.files[e.f] = IF e.shared = 0 THEN @ ELSE IF e.over = 1 \/ ~@.ex THEN NewFile ELSE @], r |-> Okay]
    [] e.op = "set" -> IF st.ws[e.w].ini THEN keep(Throw)
                       ELSE [s |-> [st EXCEPT !.ws[e.w] = CASE e.what = "fmt" -> [@ EXCEPT !.fmt = e.x] [] e.what = "hdu" -> [@ EXCEPT !.hdu = e.x] [] OTHER -> [@ EXCEPT !.com = Append(@, e.x)]],
                             r |-> Okay]
    [] e.op = "add" -> AddW(st, e)
    [] e.op = "hdus" -> keep(IF F.unk THEN e.obs ELSE IF ~F.ex THEN Throw
                             ELSE OkS(Flat(Map(LAMBDA h : <<h.name, h.kind, ToString(Len(h.cols)), ToString(Len(h.rows))>>, F.hdus))))
    [] e.op = "open" -> LET ix == IF e.by = "name" THEN HduIx(F, e.name) ELSE e.ix IN
                        IF F.unk THEN keep(e.obs)
                        ELSE IF ~F.ex \/ ix < 1 \/ ix > Len(F.hdus) \/ ~FixOk(e.fixn) THEN [s |-> [st EXCEPT !.r = [on |-> FALSE]], r |-> Throw]
                        ELSE [s |-> [st EXCEPT !.r = OpenF(F.hdus[ix], e.fixn)], r |-> Okay]
    \* datasets: two columns of double in the first HDU
    [] e.op = "isds" -> keep(IF F.unk THEN e.obs ELSE Ok(<<Bit(F.ex /\ F.hdus # <<>> /\ F.hdus[1].kind # "img")>>))
    [] e.op = "dsname" -> keep(IF F.unk THEN e.obs ELSE IF ~F.ex \/ F.hdus = <<>> THEN Throw
                               ELSE LET k == SelectSeq(F.hdus[1].keys, LAMBDA p : p[1] = e.k) IN
                                    OkS(<<IF k = <<>> \/ k[1][2] = "" THEN "f" \o ToString(e.f) ELSE k[1][2]>>))
    [] e.op = "param" -> keep(IF F.unk THEN e.obs ELSE IF ~F.ex \/ F.hdus = <<>> THEN Throw
                              ELSE LET k == SelectSeq(F.hdus[1].keys, LAMBDA p : p[1] = e.k) IN OkS(<<IF k = <<>> THEN "" ELSE k[1][2]>>))
    [] e.op = "ds" -> keep(IF F.unk THEN e.obs ELSE IF ~F.ex THEN Res("none", <<>>, <<>>)
                           ELSE IF F.hdus = <<>> THEN Throw
                           ELSE LET h == F.hdus[1] IN
                                IF h.kind = "img" \/ ~Readable(h.cols) \/ ~NoDup(NamesOf(h.cols)) \/ h.rows = <<>> \/ Len(h.cols) < 2 THEN Throw
                                ELSE IF h.cols[1].type # "double" \/ h.cols[2].type # "double" THEN Throw
                                ELSE OkS(Flat(Map(LAMBDA r : r[1].x \o r[2].x, h.rows))))
    [] ~st.r.on -> keep(Res("none", <<>>, <<>>))
    [] OTHER -> FReader(st, e)
==================================================================================
