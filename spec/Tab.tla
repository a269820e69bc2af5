------------------------------------ MODULE Tab ------------------------------------
(* Tables: column infos, rows, conversions between cell types, the ASCII format and    *)
(* the reader as a stream of rows.                                                     *)
(* A cell is [t, sh, x]: type keyword, shape (arrays only), the values as plain        *)
(* decimal texts.  Texts whose characters matter are sequences of one-letter strings.  *)
EXTENDS VLib
Scalar == {"bool", "int", "long", "float", "double", "string"}
Vec == {"[bool]", "[int]", "[long]", "[float]", "[double]"}
Nd == {"[int+]", "[long+]", "[float+]", "[double+]"}
El(t) == CASE t \in {"[bool]"} -> "bool" [] t \in {"[int]", "[int+]"} -> "int" [] t \in {"[long]", "[long+]"} -> "long"
           [] t \in {"[float]", "[float+]"} -> "float" [] t \in {"[double]", "[double+]"} -> "double" [] OTHER -> t
Cell(t, sh, x) == [t |-> t, sh |-> sh, x |-> x]
Out(c) == <<c.t, ToString(Len(c.sh))>> \o Map(LAMBDA n : ToString(n), c.sh) \o <<ToString(Len(c.x))>> \o c.x
OutRow(r) == Flat(Map(Out, r))
Concat(s) == Join(s, "")
\* the text of a cell
Text(c) == CASE c.t \in Scalar -> c.x[1]
             [] c.t \in Vec -> Join(c.x, ",")
             [] OTHER -> "<" \o Join(Map(LAMBDA n : ToString(n), c.sh), ",") \o ">" \o Join(c.x, ",")

\* ------------------------------------------------------------------ texts to numbers
Digs == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DSet == Range(Digs)
Val(d) == IdxOf(d, Digs) - 1
AllDig(s) == s # <<>> /\ Range(s) \subseteq DSet
First(c, S) == IF \E i \in 1..Len(c) : c[i] \in S THEN CHOOSE i \in 1..Len(c) : c[i] \in S /\ \A j \in 1..(i - 1) : c[j] \notin S ELSE 0
Sign(c) == IF c # <<>> /\ c[1] \in {"+", "-"} THEN c[1] ELSE "+"
Unsigned(c) == IF c # <<>> /\ c[1] \in {"+", "-"} THEN Tail(c) ELSE c
Lead(d) == LET n == CHOOSE i \in 1..(Len(d) + 1) : (i > Len(d) \/ d[i] # "0") /\ \A j \in 1..(i - 1) : d[j] = "0" IN SubSeq(d, n, Len(d))
Trail(d) == LET n == CHOOSE i \in 0..Len(d) : (i = 0 \/ d[i] # "0") /\ \A j \in (i + 1)..Len(d) : d[j] = "0" IN SubSeq(d, 1, n)
IsInt(c) == AllDig(Unsigned(c))
IntText(c) == LET d == Lead(Unsigned(c)) IN IF d = <<>> THEN "0" ELSE (IF Sign(c) = "-" THEN "-" ELSE "") \o Concat(d)
LeqD(a, b) == \/ Len(a) < Len(b)
              \/ Len(a) = Len(b) /\ (a = b \/ \E i \in 1..Len(a) : Val(a[i]) < Val(b[i]) /\ \A j \in 1..(i - 1) : a[j] = b[j])
Lim(t, s) == IF t = "int" THEN (IF s = "-" THEN <<"2","1","4","7","4","8","3","6","4","8">> ELSE <<"2","1","4","7","4","8","3","6","4","7">>)
             ELSE <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0">> \o (IF s = "-" THEN <<"8">> ELSE <<"7">>)
FitsInt(c, t) == LeqD(Lead(Unsigned(c)), Lim(t, Sign(c)))
\* decimal numbers: digits [. digits] [e [sign] digits]
Mant(c) == LET u == Unsigned(c) k == First(u, {"e", "E"}) IN IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
Expo(c) == LET u == Unsigned(c) k == First(u, {"e", "E"}) IN IF k = 0 THEN <<"0">> ELSE SubSeq(u, k + 1, Len(u))
IntP(c) == LET m == Mant(c) k == First(m, {"."}) IN IF k = 0 THEN m ELSE SubSeq(m, 1, k - 1)
FracP(c) == LET m == Mant(c) k == First(m, {"."}) IN IF k = 0 THEN <<>> ELSE SubSeq(m, k + 1, Len(m))
IsNum(c) == AllDig(IntP(c) \o FracP(c)) /\ AllDig(Unsigned(Expo(c)))
RECURSIVE NumOf(_)
NumOf(d) == IF d = <<>> THEN 0 ELSE 10 * NumOf(Front1(d)) + Val(Last1(d))
ExpVal(c) == LET x == Expo(c) IN (IF Sign(x) = "-" THEN -1 ELSE 1) * NumOf(Unsigned(x))
Zeros(n) == [i \in 1..n |-> "0"]
DigitsOf(c) == Trail(Lead(IntP(c) \o FracP(c)))
PointOf(c) == Len(IntP(c)) + ExpVal(c) - (Len(IntP(c) \o FracP(c)) - Len(Lead(IntP(c) \o FracP(c))))
NumText(c) == LET D == DigitsOf(c) P == PointOf(c) sg == IF Sign(c) = "-" THEN "-" ELSE "" IN
              IF D = <<>> THEN sg \o "0"
              ELSE IF P <= 0 THEN sg \o "0." \o Concat(Zeros(-P)) \o Concat(D)
              ELSE IF P >= Len(D) THEN sg \o Concat(D) \o Concat(Zeros(P - Len(D)))
              ELSE sg \o Concat(SubSeq(D, 1, P)) \o "." \o Concat(SubSeq(D, P + 1, Len(D)))
MaxPoint(t) == IF t = "float" THEN 38 ELSE 308

Bad == <<>>                                   \* no value: every value is a one-element sequence of texts
TrueW == {"true", "t", "yes", "y", "1", "TRUE", "True", "T", "YES", "Yes", "Y"}
FalseW == {"false", "f", "no", "n", "0", "FALSE", "False", "F", "NO", "No", "N"}
\* what a text of the file means as a value of a scalar type
Read1(t, c) == CASE t = "string" -> IF c = <<>> THEN Bad ELSE <<Concat(c)>>
                 [] t = "bool" -> IF Concat(c) \in TrueW THEN <<"1">> ELSE IF Concat(c) \in FalseW THEN <<"0">> ELSE Bad
                 [] t \in {"int", "long"} -> IF IsInt(c) /\ FitsInt(c, t) THEN <<IntText(c)>> ELSE Bad
                 [] OTHER -> IF IsNum(c) THEN <<NumText(c)>> ELSE Bad
\* split at commas, nothing between two commas does not count
RECURSIVE Split(_)
Split(c) == IF c = <<>> THEN <<>>
            ELSE LET k == First(c, {","}) IN
                 IF k = 0 THEN <<c>> ELSE (IF k = 1 THEN <<>> ELSE <<SubSeq(c, 1, k - 1)>>) \o Split(SubSeq(c, k + 1, Len(c)))
ReadAll(t, cs) == LET r == Map(LAMBDA c : Read1(t, c), cs) IN IF \E i \in 1..Len(r) : r[i] = Bad THEN <<>> ELSE <<Flat(r)>>
\* <<cell>> or <<>>
ReadCell(t, c) ==
  CASE t \in Scalar -> LET r == Read1(t, c) IN IF r = Bad THEN <<>> ELSE <<Cell(t, <<>>, r)>>
    [] t \in Vec -> LET r == ReadAll(El(t), Split(c)) IN IF r = <<>> THEN <<>> ELSE <<Cell(t, <<>>, r[1])>>
    [] OTHER -> LET k == First(c, {">"}) IN
                IF c = <<>> \/ c[1] # "<" \/ k = 0 THEN <<>>
                ELSE LET sh == ReadAll("int", Split(SubSeq(c, 2, k - 1))) d == ReadAll(El(t), Split(SubSeq(c, k + 1, Len(c)))) IN
                     IF sh = <<>> \/ d = <<>> THEN <<>>
                     ELSE LET dims == Map(LAMBDA s : CHOOSE n \in 0..40 : ToString(n) = s, sh[1]) IN
                          IF Prod(dims) # Len(d[1]) THEN <<>> ELSE <<Cell(t, dims, d[1])>>

\* ---------------------------------------------------------------------- conversions
\* the value of a scalar of type t as type u; strings come as characters in c
CastsTo(t, u) == \/ t = u
                 \/ u = "double" /\ t \in {"bool", "int", "long", "float"}
                 \/ u = "float" /\ t \in {"bool", "int", "long"}
                 \/ u = "long" /\ t \in {"bool", "int"}
                 \/ u = "int" /\ t = "bool"
CastText(c, u) == CASE u \in {"int", "long"} -> IF IsInt(c) /\ FitsInt(c, u) THEN <<IntText(c)>> ELSE Bad
                    [] u \in {"float", "double"} -> IF IsNum(c) /\ PointOf(c) <= MaxPoint(u) THEN <<NumText(c)>> ELSE Bad
                    [] OTHER -> Bad
Cast1(t, x, u) == IF CastsTo(t, u) THEN <<x>> ELSE Bad
CastAll(r) == IF \E i \in 1..Len(r) : r[i] = Bad THEN <<>> ELSE <<Flat(r)>>
\* e.cell, and e.chars when it is a string
CastCell(c, chars, u) ==
  CASE c.t = u -> <<c>>
    [] u = "string" -> <<Cell(u, <<>>, <<Text(c)>>)>>
    [] u \in Scalar -> LET r == IF c.t = "string" THEN CastText(chars, u) ELSE IF c.t \in Scalar THEN Cast1(c.t, c.x[1], u) ELSE Bad
                       IN IF r = Bad THEN <<>> ELSE <<Cell(u, <<>>, r)>>
    [] u \in Vec -> LET r == CASE c.t = "string" -> CastAll(Map(LAMBDA s : CastText(s, El(u)), Split(chars)))
                               [] c.t \in Scalar -> CastAll(<<Cast1(c.t, c.x[1], El(u))>>)
                               [] c.t \in Vec -> CastAll(Map(LAMBDA s : Cast1(El(c.t), s, El(u)), c.x))
                               [] OTHER -> <<>>
                    IN IF r = <<>> THEN <<>> ELSE <<Cell(u, <<>>, r[1])>>
    [] OTHER -> <<>>

\* --------------------------------------------------------- column infos, rows, tables
BadText == {"", "a\nb", "\n", "x\r", "a\fb"}          \* empty or with vertical white space
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
NamesOf(cols) == Map(LAMBDA c : c.name, cols)
InfoOk(cols) == cols # <<>> /\ NoDup(NamesOf(cols)) /\ \A i \in 1..Len(cols) : cols[i].name \notin BadText
OutCols(cols) == Flat(Map(LAMBDA c : <<c.name, c.type, c.unit, c.desc>>, cols))
Key(cols) == Map(LAMBDA c : <<c.name, c.type, c.unit>>, cols)
RowOk(cols, cells) == Len(cells) = Len(cols) /\ \A i \in 1..Len(cells) : cells[i].t = cols[i].type /\ (cells[i].t = "string" => cells[i].x[1] \notin BadText)

Empty == [infos |-> <<>>, rows |-> <<>>, tables |-> <<>>, r |-> [on |-> FALSE]]
Known(st, e) == {}
At(s, i) == s[i + 1]

\* ----------------------------------------------------------------- the ASCII header
\* a header line: [k, words, name, type, unit, desc, txt, lead]   k: blank text names col; txt: the text
\* after the indicator; lead: 1 if there is white space before the indicator
Comments(h) == SelectSeq(h, LAMBDA l : l.k \in {"names", "col"} \/ (l.k = "text" /\ l.words # <<>>))
ColLines(h) == SelectSeq(h, LAMBDA l : l.k = "col")
AutoNames(h, n) ==
  LET cs == Comments(h)
      byLine == IF cs # <<>> /\ Last1(cs).k # "col" /\ Len(Last1(cs).words) = n THEN Last1(cs).words ELSE <<>>
      byCol == IF byLine # <<>> THEN byLine ELSE NamesOf(ColLines(h))
  IN [i \in 1..Max2(n, Len(byCol)) |-> IF i <= Len(byCol) THEN byCol[i] ELSE "col" \o ToString(i)]
HeadInfo(h, n, fixn, fixt) ==
  LET an == AutoNames(h, n)
      cl == ColLines(h)
      find(nm) == SelectSeq(cl, LAMBDA l : l.name = nm)
      col(i) == LET d == find(an[i]) IN
                [name |-> IF fixn = <<>> THEN an[i] ELSE fixn[i],
                 type |-> IF fixt # <<>> THEN fixt[i] ELSE IF d = <<>> \/ d[1].type = "" THEN "string" ELSE d[1].type,
                 unit |-> IF d = <<>> THEN "" ELSE d[1].unit, desc |-> IF d = <<>> THEN "" ELSE d[1].desc]
  IN IF n = 0 \/ (fixn # <<>> /\ Len(fixn) # n) \/ (fixt # <<>> /\ Len(fixt) # n) \/ ~NoDup(an) \/ ~NoDup(NamesOf(cl)) THEN <<>>
     ELSE LET c == [i \in 1..n |-> col(i)] IN IF NoDup(NamesOf(c)) THEN c ELSE <<>>
RowOf(cols, toks) ==                       \* <<cells>> or <<>>
  IF Len(toks) # Len(cols) THEN <<>>
  ELSE LET r == [i \in 1..Len(toks) |-> ReadCell(cols[i].type, toks[i])] IN
       IF \E i \in 1..Len(r) : r[i] = <<>> THEN <<>> ELSE <<[i \in 1..Len(r) |-> r[i][1]]>>
OpenOk(e) == (e.fixn = <<>> \/ e.fixt = <<>> \/ Len(e.fixn) = Len(e.fixt)) /\ NoDup(e.fixn) /\ \A i \in 1..Len(e.fixn) : e.fixn[i] \notin BadText
Opened(cols, rows, com) == [on |-> TRUE, cols |-> cols, rows |-> rows, pos |-> 0, began |-> FALSE, dead |-> FALSE, com |-> com]
Lines(ls) == Join(ls, "\n")
\* the comment: the texts of the comment lines the file starts with
Body(ls) == LET full == {i \in 1..Len(ls) : ls[i] # ""} IN
            IF full = {} THEN <<>> ELSE SubSeq(ls, CHOOSE i \in full : \A j \in full : i <= j, CHOOSE i \in full : \A j \in full : i >= j)
Com(h) == LET stop == {i \in 1..Len(h) : h[i].k = "blank" \/ h[i].lead = 1}
              n == IF stop = {} THEN Len(h) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
          IN Lines(Body(Map(LAMBDA l : l.txt, SubSeq(h, 1, n))))

\* ------------------------------------------------------------------------ the reader
Left(r) == Len(r.rows) - r.pos
Reader(st, e) ==
  LET r == st.r
      go(rr, res) == [s |-> [st EXCEPT !.r = rr], r |-> res]
      b == [r EXCEPT !.began = TRUE]
  IN
  CASE r.dead -> [s |-> st, r |-> e.obs]
    [] e.op = "info" -> go(b, IF r.cols = <<>> THEN Throw ELSE OkS(OutCols(r.cols)))
    [] e.op = "has"  -> go(r, Ok(<<Bit(Left(r) > 0)>>))
    [] e.op = "left" -> go(r, Ok(<<Left(r)>>))
    [] e.op = "comment" -> go(b, IF r.pos = 0 THEN OkS(<<r.com>>) ELSE e.obs)
    [] e.op = "skip" -> IF r.cols = <<>> THEN go(b, Throw)
                        ELSE go([b EXCEPT !.pos = IF e.n < 0 THEN Len(r.rows) ELSE Min2(Len(r.rows), @ + e.n)], Okay)
    [] e.op = "read" -> LET n == IF e.n < 0 THEN Left(r) ELSE Min2(Left(r), e.n)
                            got == SubSeq(r.rows, r.pos + 1, r.pos + n) IN
                        IF r.cols = <<>> \/ n = 0 THEN go(b, Throw)
                        ELSE IF \E i \in 1..n : got[i] = <<>> THEN go([b EXCEPT !.dead = TRUE], Throw)
                        ELSE go([b EXCEPT !.pos = @ + n], Res("ok", <<n>>, Flat(Map(LAMBDA x : OutRow(x[1]), got))))
    \* settings after reading has started
    [] e.op = "late" -> go(r, IF r.began THEN Ok(<<1, 1, 1>>) ELSE e.obs)

Apply(st, e) ==
  LET keep(r) == [s |-> st, r |-> r] IN
  CASE e.op = "new" -> [s |-> Empty, r |-> Okay]
    [] e.op = "info0" -> IF InfoOk(e.cols) THEN [s |-> [st EXCEPT !.infos = Append(@, e.cols)], r |-> OkS(OutCols(e.cols))] ELSE keep(Throw)
    [] e.op = "find" -> keep(LET c == At(st.infos, e.i) k == {j \in 1..Len(c) : c[j].name = e.name} IN
                             IF k = {} THEN Res("none", <<>>, <<>>) ELSE Res("ok", <<(CHOOSE j \in k : TRUE) - 1>>, <<c[CHOOSE j \in k : TRUE].type>>))
    [] e.op = "eq" -> keep(LET q == Key(At(st.infos, e.i)) = Key(At(st.infos, e.j)) IN Ok(<<Bit(q), Bit(~q)>>))
    [] e.op = "row" -> IF e.i >= 0 /\ RowOk(At(st.infos, e.i), e.cells)
                       THEN [s |-> [st EXCEPT !.rows = Append(@, [i |-> e.i, c |-> e.cells])], r |-> OkS(OutRow(e.cells))] ELSE keep(Throw)
    [] e.op = "cell" -> keep(LET w == At(st.rows, e.r) IN IF e.n < Len(w.c) THEN OkS(Out(w.c[e.n + 1])) ELSE Throw)
    [] e.op = "cellname" -> keep(LET w == At(st.rows, e.r) c == At(st.infos, w.i) k == {j \in 1..Len(c) : c[j].name = e.name} IN
                                 IF k = {} THEN Throw ELSE OkS(Out(w.c[CHOOSE j \in k : TRUE])))
    [] e.op = "table" -> IF e.rows # <<>> /\ \A k \in 1..Len(e.rows) : Key(At(st.infos, At(st.rows, e.rows[k]).i)) = Key(At(st.infos, At(st.rows, e.rows[1]).i))
                         THEN [s |-> [st EXCEPT !.tables = Append(@, e.rows)],
                               r |-> Res("ok", <<Len(e.rows)>>, Flat(Map(LAMBDA k : OutRow(At(st.rows, k).c), e.rows)))] ELSE keep(Throw)
    [] e.op = "trow" -> keep(LET t == At(st.tables, e.t) IN IF e.n < Len(t) THEN OkS(OutRow(At(st.rows, At(t, e.n)).c)) ELSE Throw)
    [] e.op = "cast" -> keep(LET r == CastCell(e.cell, e.chars, e.to) IN IF r = <<>> THEN Throw ELSE OkS(Out(r[1])))
    \* reading a text, and reading what was written
    [] e.op = "open" -> IF ~OpenOk(e) THEN [s |-> Empty, r |-> Throw]
                        ELSE LET cols == HeadInfo(e.head, IF e.rows = <<>> THEN 0 ELSE Len(e.rows[1]), e.fixn, e.fixt) IN
                             [s |-> [st EXCEPT !.r = Opened(cols, IF cols = <<>> THEN Map(LAMBDA x : <<>>, e.rows) ELSE Map(LAMBDA x : RowOf(cols, x), e.rows), Com(e.head))], r |-> Okay]
    [] e.op = "write" -> LET cols == [i \in 1..Len(e.cols) |-> IF e.show = 1 THEN e.cols[i]
                                        ELSE [e.cols[i] EXCEPT !.unit = "", !.desc = "", !.type = IF e.fix = 1 THEN @ ELSE "string"]]
                             cell(c) == IF e.show = 1 \/ e.fix = 1 THEN c ELSE Cell("string", <<>>, <<Text(c)>>) IN
                         [s |-> [st EXCEPT !.r = Opened(cols, Map(LAMBDA w : <<Map(cell, w)>>, e.rows), Lines(Body(e.com)))], r |-> Ok(<<1, 1, 1, 1>>)]
    [] ~st.r.on -> keep(Res("none", <<>>, <<>>))
    [] OTHER -> Reader(st, e)
==================================================================================
