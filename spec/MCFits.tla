----------------------------------- MODULE MCFits -----------------------------------
(* Every short history of writers, readers and an image on one file.                   *)
EXTENDS Fits, Json
CONSTANTS MaxLen, Emit
C(n, t) == [name |-> n, type |-> t, unit |-> "m", desc |-> "d"]
I(x) == Cell("int", <<>>, <<x>>)
V(x) == Cell("[double]", <<>>, x)
T1 == [cols |-> <<C("a", "int"), C("b", "[double]")>>, rows |-> << <<I("1"), V(<<"1.5", "2">>)>>, <<I("2"), V(<<"0", "-3">>)>> >>]
T2 == [cols |-> <<C("a", "int"), C("b", "[double]")>>, rows |-> << <<I("7"), V(<<"9", "8">>)>> >>]
T3 == [cols |-> <<C("a", "int"), C("b", "[double]")>>, rows |-> << <<I("7"), V(<<"9">>)>>, <<I("7"), V(<<"9", "8">>)>> >>]       \* arrays of different size
T4 == [cols |-> <<C("a", "int"), C("c", "string")>>, rows |-> << <<I("4"), Cell("string", <<>>, <<"x">>)>> >>]
T5 == [cols |-> <<C("a", "int"), C("b", "[bool]")>>, rows |-> << <<I("4"), Cell("[bool]", <<>>, <<"1", "0">>)>> >>]
Tables == {T1, T2, T3, T4, T5}
Ops == {[op |-> "writer", f |-> 1, over |-> 0, shared |-> 0], [op |-> "writer", f |-> 1, over |-> 0, shared |-> 1], [op |-> "writer", f |-> 1, over |-> 1, shared |-> 0],
        [op |-> "image", f |-> 1, name |-> "A"], [op |-> "hdus", f |-> 1], [op |-> "isds", f |-> 1],
        [op |-> "open", f |-> 1, by |-> "name", ix |-> 0, name |-> "A", fixn |-> <<>>], [op |-> "open", f |-> 1, by |-> "index", ix |-> 2, name |-> "", fixn |-> <<"x", "y">>],
        [op |-> "read", f |-> 1, n |-> -2], [op |-> "read", f |-> 1, n |-> 1], [op |-> "skip", f |-> 1, n |-> 2], [op |-> "left", f |-> 1], [op |-> "info", f |-> 1]}
       \cup {[op |-> "set", f |-> 1, w |-> 1, what |-> k, x |-> x] : k \in {"hdu"}, x \in {"A", "B"}}
       \cup {[op |-> "set", f |-> 1, w |-> 1, what |-> "fmt", x |-> "asc"], [op |-> "set", f |-> 1, w |-> 1, what |-> "com", x |-> "note"]}
       \cup {[op |-> "add", f |-> 1, w |-> 1, cols |-> t.cols, rows |-> t.rows] : t \in Tables}
IsRead(o) == o.op \in {"read", "skip", "left", "info"}
VARIABLES hist, st, last
Enabled1(o) == CASE o.op = "writer" -> st.ws = <<>>
                 [] o.op \in {"set", "add"} -> st.ws # <<>>
                 \* files that were not (or may have been) created are not looked at by other means; one image
                 [] o.op = "image" -> ~st.files[1].unk /\ (IF st.ws = <<>> THEN TRUE ELSE st.ws[1].ini) /\ HduIx(st.files[1], "A") = 0
                 [] IsRead(o) -> st.r.on
                 [] OTHER -> TRUE
\* an appended chunk has the columns and array sizes of the table it is appended to
Compatible(o) == o.op = "add" => LET w == st.ws[1] f == st.files[1] ix == IF w.ini THEN w.ix ELSE IF w.over /\ ~w.shared THEN 0 ELSE HduIx(f, w.hdu) IN
                   /\ w.ini => o.rows # T3.rows
                   /\ ix > 0 /\ ~w.ini => f.hdus[ix].kind = "img"
Init == hist = <<>> /\ st = FEmpty /\ last = [f |-> NoFile, r |-> Okay, op |-> "new"]
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ Enabled1(o) /\ Compatible(o)
                          /\ LET e == [obs |-> Res("any", <<>>, <<>>)] @@ o a == FApply(st, e) IN
                               /\ hist' = Append(hist, o) /\ st' = a.s /\ last' = [f |-> st.files[1], r |-> a.r, op |-> o.op]
Spec == Init /\ [][Next]_<<hist, st, last>>
F1 == st.files[1]
\* every row of a table has cells of the types of its columns
Typed == \A i \in 1..Len(F1.hdus) : LET h == F1.hdus[i] IN h.kind # "img" => \A k \in 1..Len(h.rows) : \A c \in 1..Len(h.cols) : h.rows[k][c].t = h.cols[c].type
\* what was rejected changed no table; nothing but writing changes a file; rows are only ever added, unless the file is overridden
Rejected == last.op \in {"add", "set"} /\ last.r.k = "throw" => F1.hdus = last.f.hdus
ReadOnly == last.op \in {"hdus", "isds", "open", "read", "skip", "left", "info"} => F1 = last.f
Grows == st.ws # <<>> /\ (~st.ws[1].over \/ st.ws[1].shared) => \A i \in 1..Len(last.f.hdus) :
           /\ i <= Len(F1.hdus) /\ F1.hdus[i].name = last.f.hdus[i].name /\ SubSeq(F1.hdus[i].rows, 1, Len(last.f.hdus[i].rows)) = last.f.hdus[i].rows
Bounds == st.r.on => st.r.pos \in 0..Len(st.r.rows)
PrintH == Emit /\ Len(hist) = MaxLen => PrintT("GEN" \o ToJson(hist))
==================================================================================
