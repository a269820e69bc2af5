---------------------------------- MODULE VLib ----------------------------------
(* Operators shared by the specifications: results as the drivers log them,      *)
(* row-major index arithmetic, small sequence helpers.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* An observation: kind, numbers, strings.  Always these three fields.
Res(k, v, s) == [k |-> k, v |-> v, s |-> s]
Ok(v)     == Res("ok", v, <<>>)
OkS(s)    == Res("ok", <<>>, s)
Okay      == Res("ok", <<>>, <<>>)
Throw     == Res("throw", <<>>, <<>>)
Same(a, b) == a.k = b.k /\ a.v = b.v /\ a.s = b.s

Bit(b) == IF b THEN 1 ELSE 0

CAP == 2000000000
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF b > CAP \div a THEN CAP ELSE a * b

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE Mul(s[i], ProdFrom(s, i + 1))
Prod(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN 0 ELSE ProdFrom(s, 1)

\* sum by halving: the recursion depth stays logarithmic
RECURSIVE SumR(_, _, _)
SumR(s, i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i] ELSE LET m == (i + j) \div 2 IN SumR(s, i, m) + SumR(s, m + 1, j)
SumSeq(s) == SumR(s, 1, Len(s))

Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
DropAt(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
InsAt(s, k, x) == [i \in 1..(Len(s) + 1) |-> IF i < k THEN s[i] ELSE IF i = k THEN x ELSE s[i - 1]]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Last1(s) == s[Len(s)]

\* row-major (last axis fastest) index of 0-based coordinates
RECURSIVE RavelR(_, _, _)
RavelR(c, sh, i) == IF i = 0 THEN 0 ELSE c[i] + sh[i] * RavelR(c, sh, i - 1)
Ravel(c, sh) == RavelR(c, sh, Len(sh))

\* coordinates of a row-major index
RECURSIVE UnravelR(_, _, _)
UnravelR(n, sh, i) == IF i = 0 THEN <<>> ELSE Append(UnravelR(n \div sh[i], sh, i - 1), n % sh[i])
Unravel(n, sh) == UnravelR(n, sh, Len(sh))

InShape(c, sh) == Len(c) = Len(sh) /\ \A i \in 1..Len(sh) : c[i] >= 0 /\ c[i] < sh[i]

Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Range(s) == {s[i] : i \in 1..Len(s)}
IdxOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
Pick(s, idx) == [i \in 1..Len(idx) |-> s[idx[i]]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
==================================================================================
