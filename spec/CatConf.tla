----------------------------------- MODULE CatConf -----------------------------------
(* The configurations for input catalogs: from the options of the user, the catalog     *)
(* file (ASCII or FITS) and the filter mapping file to the catalog that is read.        *)
(* One event is a whole run of a program; its fields:                                   *)
(*  content ("asc", "fits", "none", "dir"), cols, ty, rows: the catalog file            *)
(*  regs: the configurations besides the catalog ("band", "phot", "specz", "pdf")       *)
(*  lines: the mapping file ([k: com, f, bad], f, fc, ec, n, mag), or nomap = 1         *)
(*  the options: file, fmt, idn, idi, excl, miss, up, uflag, zn, zi, zen, zei (None or "" when not given) *)
(*  pdf: the column and the number of knots;  how: table, catalog or in portions        *)
EXTENDS Cat
None == -99999
Has(e, c) == \E i \in 1..Len(e.regs) : e.regs[i] = c
Both(n, i) == n # "" /\ i # None
\* ------------------------------------------------------------------------ the options
PreBad(e) == \/ e.file = "" \/ Both(e.idn, e.idi) \/ (e.idi # None /\ e.idi < 1) \/ e.fmt \notin {"", "AUTO", "FITS", "ASCII"}
             \/ (Has(e, "specz") /\ \/ Both(e.zn, e.zi) \/ (e.zn = "" /\ e.zi = None) \/ (e.zi # None /\ e.zi < 1)
                                    \/ Both(e.zen, e.zei) \/ (e.zei # None /\ e.zei < 1))
FileBad(e) == e.content \in {"none", "dir"} \/ (e.content = "asc" /\ e.fmt = "FITS")
\* a column by name or by 1-based index: 0 if there is none
Col(e, n, i) == IF n # "" THEN ColAt(e.cols, n) ELSE IF i = None THEN 0 ELSE IF i > Len(e.cols) THEN 0 ELSE i
IdCol(e) == IF e.idn = "" /\ e.idi = None THEN ColAt(e.cols, "ID") ELSE Col(e, e.idn, e.idi)
IdGiven(e) == e.idn # "" \/ e.idi # None
\* ------------------------------------------------------------------------ the mapping
Filters(e) == SelectSeq(e.lines, LAMBDA x : x.k = "f")
Kept(e) == SelectSeq(Filters(e), LAMBDA x : \A i \in 1..Len(e.excl) : e.excl[i] # x.f)
UsesMap(e) == Has(e, "band") \/ Has(e, "phot")
MapBad(e) == UsesMap(e) /\ (\/ e.nomap # 0 \/ \E i \in 1..Len(e.lines) : e.lines[i].k = "bad"
                            \/ \E i \in 1..Len(e.excl) : \A j \in 1..Len(Filters(e)) : Filters(e)[j].f # e.excl[i])
Thr(x) == IF x.n = None THEN 6 ELSE x.n      \* twice the threshold
Mag(x) == IF x.mag = None THEN 0 ELSE x.mag
Settings(e) == [miss |-> Bit(e.miss # None), flag |-> IF e.miss = None THEN -6336 ELSE e.miss, up |-> Bit(e.up = "YES"), uflag |-> IF e.uflag = None THEN -6336 ELSE e.uflag]
\* ------------------------------------------------------------------- what is found out
InitBad(e) == \/ FileBad(e) \/ (IdGiven(e) /\ IdCol(e) = 0) \/ MapBad(e)
              \/ (Has(e, "phot") /\ \E i \in 1..Len(Kept(e)) : ColAt(e.cols, Kept(e)[i].fc) = 0 \/ ColAt(e.cols, Kept(e)[i].ec) = 0)
              \/ (Has(e, "specz") /\ (Col(e, e.zn, e.zi) = 0 \/ ((e.zen # "" \/ e.zei # None) /\ Col(e, e.zen, e.zei) = 0)))
Seen(e) == e.obs.k = "ok"
\* the photometry of a row: <<>> if it is rejected
RowPhot(e, row, w, at) ==
  LET k == Kept(e)
      piece(i) == IF Seen(e) /\ Len(e.obs.v) >= at + 7 * i THEN SubSeq(e.obs.v, at + 7 * i - 6, at + 7 * i) ELSE <<0, 0, 0, 0, 0, 0, 0>>
      out == [i \in 1..Len(k) |-> LET a == CellOf(e, row, k[i].fc) b == CellOf(e, row, k[i].ec) IN
                                  IF a.num = 0 \/ b.num = 0 THEN <<>> ELSE PhotObs(a.n, b.n, Settings(e), Thr(k[i]), Mag(k[i]), piece(i))]
  IN IF \E i \in 1..Len(k) : out[i] = <<>> THEN <<>> ELSE <<Flat(out)>>
RowZ(e, row) ==
  LET a == row[Col(e, e.zn, e.zi)] err == e.zen # "" \/ e.zei # None IN
  IF a.num = 0 THEN <<>> ELSE IF ~err THEN << <<a.n, 0>> >> ELSE LET b == row[Col(e, e.zen, e.zei)] IN IF b.num = 0 THEN <<>> ELSE << <<a.n, b.n>> >>
RowPdf(e, row) == LET c == ColAt(e.cols, e.pdf.col) IN IF c = 0 THEN <<>> ELSE LET a == row[c] IN IF a.vx = 0 \/ Len(a.xs) # e.pdf.n THEN <<>> ELSE <<a.xs>>
\* numbers per source: photometry, redshift, PDF, and that the row itself is attached
Width(e) == (IF Has(e, "phot") THEN 7 * Len(Kept(e)) ELSE 0) + (IF Has(e, "specz") THEN 2 ELSE 0) + (IF Has(e, "pdf") THEN e.pdf.n ELSE 0) + 1
Src(e, r, at) ==
  LET p == IF Has(e, "phot") THEN RowPhot(e, e.rows[r], r, at) ELSE << <<>> >>
      z == IF Has(e, "specz") THEN RowZ(e, e.rows[r]) ELSE << <<>> >>
      d == IF Has(e, "pdf") THEN RowPdf(e, e.rows[r]) ELSE << <<>> >>
  IN IF p = <<>> \/ z = <<>> \/ d = <<>> THEN <<>> ELSE <<p[1] \o z[1] \o d[1] \o <<Len(e.cols)>> >>
\* the checks of what may be called at which stage, then the mapping (names, columns; thresholds, conversions)
Stages == <<1, 1, 1>>
MapV(e) == IF UsesMap(e) THEN <<Len(Kept(e))>> \o Map(LAMBDA x : Thr(x) * 32, Kept(e)) \o Map(Mag, Kept(e)) ELSE <<>>
MapS(e) == IF UsesMap(e) THEN Flat(Map(LAMBDA x : <<x.f, x.fc, x.ec>>, Kept(e))) ELSE <<>>
PhotV(e) == IF Has(e, "phot") THEN <<Bit(e.miss # None), Bit(e.up = "YES")>> ELSE <<>>
Report(e) == [v |-> Stages \o MapV(e) \o PhotV(e) \o <<Len(e.cols), Len(e.rows)>>, s |-> MapS(e) \o e.cols]
Ids(e) == Map(LAMBDA r : IdOf(r[IdCol(e)]), e.rows)
IdsBad(e) == LET ids == Ids(e) IN (\E i \in 1..Len(ids) : ids[i] = <<>>) \/ (\E i, j \in 1..Len(ids) : i # j /\ ids[i] = ids[j])
Run(e) ==
  LET h == Report(e) n == Len(e.rows) w == Width(e)
      srcs == [i \in 1..n |-> Src(e, i, Len(h.v) + (i - 1) * w)]
  IN IF PreBad(e) \/ InitBad(e) THEN Throw
     ELSE IF IdCol(e) = 0 THEN (IF e.how = "table" THEN e.obs ELSE Throw)      \* whether the default ID column is missed already by then is left open
     ELSE IF e.how = "table" THEN Res("ok", h.v, h.s \o <<e.cols[IdCol(e)]>> \o Flat(Map(LAMBDA r : Map(LAMBDA c : c.s, r), e.rows)))
     ELSE IF IdsBad(e) \/ \E i \in 1..n : srcs[i] = <<>> THEN Throw
     ELSE Res("ok", h.v \o Flat(Map(LAMBDA x : x[1], srcs)), h.s \o <<e.cols[IdCol(e)]>> \o Flat(Ids(e)))
CApply(st, e) == [s |-> st, r |-> IF e.op = "new" THEN Okay ELSE Run(e)]
==================================================================================
