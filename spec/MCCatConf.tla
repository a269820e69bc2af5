---------------------------------- MODULE MCCatConf ----------------------------------
(* All programs of four families: the options of the catalog, of the redshift, the     *)
(* mapping file, the photometry.  What is checked of the specification itself: the      *)
(* format of the file does not matter, nor whether a column is given by name or index;  *)
(* excluding a filter is the same as not having its line; the portions a catalog is     *)
(* read in do not matter; a refused program stays refused with more configurations.     *)
EXTENDS CatConf, TLC, Json
CONSTANT Emit
VARIABLES e, done
N(t, s, n) == [t |-> t, s |-> s, n |-> n, num |-> 1, xs |-> <<n>>, vx |-> 1]
L(k, f, fc, ec, n, mag) == [k |-> k, f |-> f, fc |-> fc, ec |-> ec, n |-> n, mag |-> mag]
V == L("f", "V", "f", "e", None, None)
B == L("f", "B", "g", "e", 5, None)
G == L("f", "G", "f", "h", 8, 1)
Off == L("f", "X", "nope", "e", 2, 0)
Com == L("com", "", "", "", None, None)
Wrong == L("bad", "", "", "", None, None)
Cols == <<"f", "ID", "e", "Z", "g", "h", "P", "x">>
Ty == <<"double", "long", "double", "double", "float", "int", "[double]", "string">>
Row(i, f, er) == <<N("double", "?", f), N("long", ToString(i), 64 * i), N("double", "?", er), N("double", "?", 32 * i), N("float", "?", 60 * i), N("int", ToString(i), 64 * i),
                   [t |-> "[double]", s |-> "?", n |-> 0, num |-> 0, xs |-> <<64, i>>, vx |-> 1], [t |-> "string", s |-> "a" \o ToString(i), n |-> 0, num |-> 0, xs |-> <<>>, vx |-> 0]>>
Base == [op |-> "run", content |-> "asc", cols |-> Cols, ty |-> Ty, rows |-> <<Row(1, 160, 32), Row(2, 320, 64), Row(3, 480, 16)>>, regs |-> <<>>, lines |-> <<>>, nomap |-> 0,
         file |-> "cat", fmt |-> "", idn |-> "", idi |-> None, excl |-> <<>>, miss |-> None, up |-> "", uflag |-> None, zn |-> "", zi |-> None, zen |-> "", zei |-> None,
         pdf |-> [col |-> "P", n |-> 2], how |-> "catalog", obs |-> Throw]
Hows == {"catalog", "chunk"}
FamA == {[Base EXCEPT !.content = c, !.fmt = f, !.idn = n, !.idi = i, !.how = h, !.regs = r] :
           c \in {"asc", "fits", "none", "dir"}, f \in {"", "AUTO", "FITS", "ASCII", "X"}, n \in {"", "ID", "x", "nope"}, i \in {None, 0, 2, 4, 8, 9}, h \in Hows, r \in {<<>>, <<"pdf">>}}
FamB == {[Base EXCEPT !.zn = zn, !.zi = zi, !.zen = zen, !.zei = zei, !.how = h, !.regs = <<"specz">>] :
           zn \in {"", "Z", "nope"}, zi \in {None, 0, 4, 7, 9}, zen \in {"", "e", "nope"}, zei \in {None, 0, 3, 9}, h \in Hows}
Lines == {<<>>} \cup {<<a>> : a \in {V, B, Off, Com, Wrong}} \cup {<<a, b>> : a, b \in {V, B, G, Off, Com, Wrong}} \cup {<<a, b, c>> : a, b, c \in {V, B, G, Com}}
Once(s) == \A i, j \in 1..Len(s) : i # j => s[i].k # "f" \/ s[j].k # "f" \/ s[i].f # s[j].f
FamC == {[Base EXCEPT !.lines = l, !.excl = x, !.regs = r, !.nomap = m, !.miss = -6336, !.up = u] :
           l \in {s \in Lines : Once(s)}, x \in {<<>>, <<"V">>, <<"G">>, <<"B", "V">>, <<"nope">>, <<"V", "V">>}, r \in {<<"band">>, <<"phot">>}, m \in {0}, u \in {"", "YES"}}
        \cup {[Base EXCEPT !.lines = <<V>>, !.excl = x, !.regs = r, !.nomap = 1] : x \in {<<>>, <<"V">>}, r \in {<<>>, <<"band">>, <<"phot">>, <<"pdf">>}}
FamD == {[Base EXCEPT !.lines = <<[l EXCEPT !.n = n]>>, !.regs = <<"phot">>, !.miss = m, !.up = u, !.uflag = g, !.rows = <<Row(1, fl, er)>>] :
           l \in {V}, n \in {None, 2, 5}, m \in {None, -6336, 64, 480}, u \in {"", "YES", "NO", "yes"}, g \in {None, -64}, fl \in {480, 0, -6336, NaN}, er \in {64, 0, -64, -6336, 16}}
\* a file with the FITS header is not read as text
Sane(x) == ~(x.content = "fits" /\ x.fmt = "ASCII")
All == {x \in FamA \cup FamB \cup FamC \cup FamD : Sane(x)}
Init == e \in All /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, done>>
Given(x, c) == \E i \in 1..Len(x.cols) : x.cols[i] = c
Sound == done \/
  /\ (e.content = "asc" /\ e.fmt \in {"", "AUTO"}) => Run(e) = Run([e EXCEPT !.content = "fits"])
  /\ (e.content = "asc" /\ e.fmt = "ASCII") => Run(e) = Run([e EXCEPT !.fmt = ""])
  /\ (e.idi = None /\ e.idn # "" /\ Given(e, e.idn)) => Run(e) = Run([e EXCEPT !.idn = "", !.idi = ColAt(e.cols, e.idn)])
  /\ (e.zi = None /\ e.zn # "" /\ Given(e, e.zn)) => Run(e) = Run([e EXCEPT !.zn = "", !.zi = ColAt(e.cols, e.zn)])
  /\ (e.zei = None /\ e.zen # "" /\ Given(e, e.zen)) => Run(e) = Run([e EXCEPT !.zen = "", !.zei = ColAt(e.cols, e.zen)])
  /\ (~MapBad(e)) => Run(e) = Run([e EXCEPT !.lines = Kept(e), !.excl = <<>>])
  /\ (e.up = "NO") => Run(e) = Run([e EXCEPT !.up = ""])
  /\ (e.how = "catalog") => Run(e) = Run([e EXCEPT !.how = "chunk"])
  /\ (Run(e).k = "throw" /\ ~Has(e, "specz")) => Run([e EXCEPT !.regs = @ \o <<"pdf">>]).k = "throw"
  \* what is read is complete: the sources of the file, in order
  /\ Run(e).k = "ok" => LET s == Run(e).s IN SubSeq(s, Len(s) - 2 * Len(e.rows) + 1, Len(s)) = Flat(Ids(e))
PrintH == (Emit /\ ~done) => PrintT("GEN" \o ToJson(e))
==================================================================================
