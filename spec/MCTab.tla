----------------------------------- MODULE MCTab -----------------------------------
(* The reader on a few texts: every sequence of operations; and every conversion.      *)
EXTENDS Tab, Json
CONSTANTS MaxLen, Emit
H(k, words, name, type, unit, desc) == [k |-> k, words |-> words, name |-> name, type |-> type, unit |-> unit, desc |-> desc, txt |-> "x", lead |-> 0]
CL(name, type, unit, desc) == H("col", <<>>, name, type, unit, desc)
N(words) == H("names", words, "", "", "", "")
Files == << [head |-> <<>>, rows |-> <<>>, fixn |-> <<>>, fixt |-> <<>>],
            [head |-> <<N(<<"a", "b">>)>>, rows |-> << <<<<"1">>, <<"x">>>>, <<<<"2">>, <<"y">>>>, <<<<"3">>, <<"z">>>> >>, fixn |-> <<>>, fixt |-> <<"int", "string">>],
            [head |-> <<CL("b", "double", "m", "d"), CL("a", "[int]", "", ""), N(<<"a", "b">>)>>, rows |-> << <<<<"1", ",", "2">>, <<"2", ".", "5">>>>, <<<<"7">>, <<"1", "e", "2">>>> >>, fixn |-> <<>>, fixt |-> <<>>],
            [head |-> <<CL("a", "int", "", "")>>, rows |-> << <<<<"1">>>>, <<<<"x">>>>, <<<<"3">>>> >>, fixn |-> <<"q">>, fixt |-> <<>>],
            [head |-> <<CL("a", "", "", ""), CL("b", "", "", ""), CL("c", "long", "u", "")>>, rows |-> << <<<<"1">>, <<"2">>, <<"3">>>>, <<<<"1">>, <<"2">>>>, <<<<"1">>, <<"2">>, <<"4">>>> >>, fixn |-> <<>>, fixt |-> <<>>] >>
Ops == {[op |-> "read", n |-> 1], [op |-> "read", n |-> 2], [op |-> "read", n |-> -1], [op |-> "skip", n |-> 1], [op |-> "skip", n |-> 2],
        [op |-> "has", n |-> 0], [op |-> "left", n |-> 0], [op |-> "info", n |-> 0]}
Ob(o) == [op |-> o.op, n |-> o.n, obs |-> Okay]
VARIABLES file, hist, st, got
Init == file \in 1..Len(Files) /\ hist = <<>> /\ got = <<>>
        /\ st = Apply(Empty, [op |-> "open", head |-> Files[file].head, rows |-> Files[file].rows, fixn |-> Files[file].fixn, fixt |-> Files[file].fixt]).s
Next == /\ Len(hist) < MaxLen /\ ~st.r.dead /\ UNCHANGED file
        /\ \E o \in Ops : LET a == Apply(st, Ob(o)) IN
             /\ hist' = Append(hist, o) /\ st' = a.s
             /\ got' = IF o.op = "read" /\ a.r.k = "ok" THEN Append(got, <<a.s.r.pos - a.r.v[1], a.s.r.pos>>) ELSE got
Spec == Init /\ [][Next]_<<file, hist, st, got>>
\* rows are delivered in order, none twice; what is left is what has not been passed
Order == \A i \in 1..(Len(got) - 1) : got[i][2] <= got[i + 1][1]
Bounds == st.r.pos \in 0..Len(st.r.rows)
Honest == ~st.r.dead => (Apply(st, Ob([op |-> "has", n |-> 0])).r.v = <<1>>) = (Left(st.r) > 0)
PrintH == Emit /\ (Len(hist) = MaxLen \/ st.r.dead) => PrintT("GEN" \o ToJson([file |-> file, head |-> Files[file].head, rows |-> Files[file].rows, fixn |-> Files[file].fixn, fixt |-> Files[file].fixt, ops |-> hist]))
\* conversions never invent a value: to text and back, and to a wider type and its text
Chars == {<<"5">>, <<"-", "3">>, <<"2", ".", "5">>, <<"0", "0", "7">>, <<"1", "e", "3">>, <<"1", "2", "x">>, <<"x">>, <<>>, <<"1", ",", "2">>}
CastSound == \A c \in Chars, u \in Scalar : LET r == CastCell(Cell("string", <<>>, <<Concat(c)>>), c, u) IN
               r # <<>> /\ u \in {"int", "long"} => CastCell(Cell("string", <<>>, <<Concat(c)>>), c, "double") # <<>> /\ CastCell(Cell("string", <<>>, <<Concat(c)>>), c, "double")[1].x = r[1].x
==================================================================================
