----------------------------------- MODULE Hist -----------------------------------
(* Histograms.  Data are in units of 1/4 (integer histograms: 1), clip and search arguments *)
(* in units of 1/16 (1).  A histogram keeps its edges E as integers in units of 1/q.        *)
EXTENDS Rat
Empty == <<>>
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
NaN == 2000000001
MaxOf(s) == CHOOSE m \in Range(s) : \A z \in Range(s) : z <= m
MinOf(s) == CHOOSE m \in Range(s) : \A z \in Range(s) : z >= m
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m)
ISqrt(n) == ISqrtR(n, 0, 46340)
RECURSIVE ICbrtR(_, _, _)
ICbrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m * m <= n THEN ICbrtR(n, m, hi) ELSE ICbrtR(n, lo, m)
ICbrt(n) == ICbrtR(n, 0, 1290)
\* ---- the number of bins: a set, because Scott's rule is computed up to rounding ----
Spread(x) == LET n == Len(x) IN n * SumSeq(Map(LAMBDA v : v * v, x)) - SumSeq(x) * SumSeq(x)      \* n^2 times the variance
NBins(e) == LET n == Len(e.x) IN
  IF e.kind = 0 THEN {Len(e.ed) - 1}
  ELSE IF n = 0 THEN {0}
  ELSE IF e.kind = 1 THEN {LET s == ISqrt(n) IN IF s * s = n THEN s ELSE s + 1}
  ELSE IF Spread(e.x) = 0 THEN {1}
  ELSE LET r == MaxOf(e.x) - MinOf(e.x) c == ICbrt(n * 1000000) s == ISqrt(Spread(e.x) * 10000) IN
       CeilDiv(2 * r * n * c, 7 * (s + 1))..CeilDiv(2 * r * n * (c + 1), 7 * s)
Pow2(n) == n \in {1, 2, 4, 8, 16}
\* the histogram without its counts
Frame(e, nb) ==
  LET int == e.ty = 2 n == Len(e.x) IN
  IF e.kind = 0 THEN [q |-> IF int THEN 1 ELSE 16, E |-> Map(LAMBDA v : IF int THEN v ELSE 4 * v, e.ed), nb |-> nb, ex |-> TRUE, int |-> int, l |-> 1, r |-> nb, c |-> <<>>]
  ELSE IF n = 0 THEN [q |-> 1, E |-> <<0>>, nb |-> 0, ex |-> TRUE, int |-> int, l |-> 1, r |-> 0, c |-> <<>>]
  ELSE LET a == MinOf(e.x) b == MaxOf(e.x) IN
       IF int THEN LET w == Max2(1, CeilDiv(b - a, nb)) IN [q |-> 1, E |-> [i \in 1..(nb + 1) |-> a + (i - 1) * w], nb |-> nb, ex |-> TRUE, int |-> TRUE, l |-> 1, r |-> nb, c |-> <<>>]
       ELSE LET s == IF e.kind = 2 /\ a = b THEN a - 2 ELSE a t == IF e.kind = 2 /\ a = b THEN b + 2 ELSE b IN
            [q |-> 16 * nb, E |-> [i \in 1..(nb + 1) |-> 4 * (s * nb + (i - 1) * (t - s))], nb |-> nb, ex |-> Pow2(nb) \/ (t - s) % nb = 0, int |-> FALSE, l |-> 1, r |-> nb, c |-> <<>>]
\* ---- the bin of a position: 0 = none; on an edge that is not exact the bin before is as good ----
ValPos(h, v) == IF h.int THEN v ELSE 4 * v * (h.q \div 16)
ArgPos(h, a) == IF h.int THEN a ELSE a * (h.q \div 16)
Bin(h, p) == IF h.nb = 0 \/ p < h.E[1] \/ p > Last1(h.E) THEN 0 ELSE Min2(h.nb, Cardinality({i \in 1..(h.nb + 1) : h.E[i] <= p}))
Bins(h, p) == LET b == Bin(h, p) IN {b} \cup (IF b > 1 /\ ~h.ex /\ p = h.E[b] THEN {b - 1} ELSE {})
Weight(e, i) == IF e.w = <<>> THEN 1 ELSE e.w[i]
Placed(h, e, i) == IF e.x[i] = NaN THEN {0} ELSE Bins(h, ValPos(h, e.x[i]))
Sum(s) == SumSeq(s)
WeightOf(e, P(_)) == Sum([i \in 1..Len(e.x) |-> IF P(i) THEN Weight(e, i) ELSE 0])
Canonical(h, e) == [k \in 1..h.nb |-> WeightOf(e, LAMBDA i : e.x[i] # NaN /\ Bin(h, ValPos(h, e.x[i])) = k)]
\* counts in which every value is in one of the bins it may be in
CountsOk(h, e, c) ==
  /\ \A k \in 1..h.nb : LET s == Sum(SubSeq(c, 1, k)) IN
       /\ s >= WeightOf(e, LAMBDA i : \A b \in Placed(h, e, i) : b \in 1..k)
       /\ s <= WeightOf(e, LAMBDA i : \E b \in Placed(h, e, i) : b \in 1..k)
  /\ Sum(c) = WeightOf(e, LAMBDA i : 0 \notin Placed(h, e, i))
Obs(e) == IF "obs" \in DOMAIN e THEN e.obs ELSE Res("none", <<>>, <<>>)
Make(st, e) ==
  LET o == Obs(e) can == LET h == Frame(e, CHOOSE n \in NBins(e) : TRUE) IN [h EXCEPT !.c = Canonical(h, e)] IN
  IF o.k = "ok" /\ Len(o.v) > 0 /\ o.v[1] \in NBins(e) /\ Len(o.v) = o.v[1] + 1 /\ CountsOk(Frame(e, o.v[1]), e, Tail(o.v))
  THEN Ret(Append(st, [Frame(e, o.v[1]) EXCEPT !.c = Tail(o.v)]), o)
  ELSE Ret(Append(st, can), Ok(<<can.nb>> \o can.c))
\* ---- clipping ----
Size(h) == h.r - h.l + 1
Cut(h) == SubSeq(h.c, h.l, h.r)
ClipTo(h, a, b) == LET l == IF a > h.l /\ a <= h.r THEN a ELSE h.l IN [h EXCEPT !.l = l, !.r = IF b >= l /\ b < h.r THEN b ELSE h.r]
Clips(h, a, b) == {ClipTo(h, x, y) : x \in Bins(h, ArgPos(h, a)), y \in Bins(h, ArgPos(h, b))}
Shown(h) == Ok(<<Size(h)>> \o Cut(h))
\* ---- what can be seen: only the bins that are left ----
EdgeR(h, i) == R(h.E[i], h.q)
AllNear(f, v) == Len(v) = Len(f) /\ \A i \in 1..Len(f) : Near(f[i], v[i])
Edges(h) == [i \in 1..(Size(h) + 1) |-> EdgeR(h, h.l + i - 1)]
TDiv(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Centers(h) == [i \in 1..Size(h) |-> LET s == h.E[h.l + i - 1] + h.E[h.l + i] IN IF h.int THEN R(TDiv(s, 2), 1) ELSE R(s, 2 * h.q)]
\* ---- statistics (units 1/D) ----
Stats(h) ==
  LET D == h.q \div 4 e(i) == h.E[i] \div 4 n == Size(h) c == Cut(h) T == Sum(c) IN
  LET m2 == [i \in 1..n |-> e(h.l + i - 1) + e(h.l + i) - 2 * e(h.l)] IN         \* twice the centre, from the first edge
  LET s1 == Sum([i \in 1..n |-> c[i] * m2[i]]) s2 == Sum([i \in 1..n |-> c[i] * m2[i] * m2[i]]) IN
  LET k == CHOOSE i \in 1..n : 2 * Sum(SubSeq(c, 1, i)) >= T /\ \A j \in 1..(i - 1) : 2 * Sum(SubSeq(c, 1, j)) < T IN
  LET i0 == h.l + k - 1 below == Sum(SubSeq(c, 1, k - 1)) IN
  <<RAdd(R(s1, T * 2 * D), R(e(h.l), D)),
    R(e(i0) * 2 * c[k] + (e(i0 + 1) - e(i0)) * (T - 2 * below), 2 * c[k] * D),
    R(s2 * T - s1 * s1, T * T * 4 * D * D)>>
Judge(h, f, o) == IF o.k = "ok" /\ AllNear(f, o.v) THEN o ELSE Res("near", Flat(Map(LAMBDA r : <<r.n, r.d>>, f)), <<>>)
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "hist" -> Make(st, e)
    [] e.op = "cp" -> Ret(Append(st, st[e.g]), Okay)
    [] e.op = "clip" ->
         IF e.a > e.b THEN Ret(st, Throw)
         ELSE LET s == Clips(st[e.g], e.a, e.b) IN
              LET ok == {h \in s : Same(Shown(h), Obs(e))} IN
              LET h == IF ok # {} THEN CHOOSE x \in ok : TRUE ELSE CHOOSE x \in s : TRUE IN Ret([st EXCEPT ![e.g] = h], Shown(h))
    [] e.op = "counts" -> Ret(st, Shown(st[e.g]))
    [] e.op = "edges" -> Ret(st, Judge(st[e.g], Edges(st[e.g]), Obs(e)))
    [] e.op = "bins" -> Ret(st, Judge(st[e.g], Centers(st[e.g]), Obs(e)))
    [] e.op = "be" -> Ret(st, Judge(st[e.g], SubSeq(Edges(st[e.g]), e.i, e.i + 1), Obs(e)))
    [] e.op = "allbe" -> Ret(st, Judge(st[e.g], Flat([i \in 1..Size(st[e.g]) |-> SubSeq(Edges(st[e.g]), i, i + 1)]), Obs(e)))
    \* without any count there is nothing to say
    [] e.op = "stats" -> Ret(st, IF Sum(Cut(st[e.g])) = 0 THEN Obs(e) ELSE Judge(st[e.g], Stats(st[e.g]), Obs(e)))
    \* the bins a strategy gives to positions; 0 = outside
    [] e.op = "find" -> LET h == Frame(e, IF Obs(e).k = "ok" /\ Len(Obs(e).v) > 0 /\ Obs(e).v[1] \in NBins(e) THEN Obs(e).v[1] ELSE CHOOSE n \in NBins(e) : TRUE) o == Obs(e) IN
         Ret(st, IF o.k = "ok" /\ Len(o.v) = Len(e.qs) + 1 /\ o.v[1] = h.nb /\ \A i \in 1..Len(e.qs) : o.v[i + 1] \in Bins(h, ArgPos(h, e.qs[i])) THEN o
                 ELSE Ok(<<h.nb>> \o [i \in 1..Len(e.qs) |-> Bin(h, ArgPos(h, e.qs[i]))]))
    \* edges of any magnitude, known by their order only: edge i is at 4 i, the numbers next to it at 4 i - 1 and 4 i + 1, the middle at 4 i + 2
    [] e.op = "rank" ->
         LET n == Len(e.edv)
             bin(p) == IF p < 4 \/ p > 4 * n THEN 0 ELSE Min2(n - 1, p \div 4)
             cnt == [k \in 1..(n - 1) |-> Cardinality({i \in 1..Len(e.ps) : bin(e.ps[i]) = k})]
             l == IF e.cl = <<>> THEN 1 ELSE IF bin(e.cl[1]) > 1 THEN bin(e.cl[1]) ELSE 1
             r == IF e.cl = <<>> THEN n - 1 ELSE IF bin(e.cl[2]) >= l /\ bin(e.cl[2]) > 0 THEN bin(e.cl[2]) ELSE n - 1
         IN Ret(st, IF e.cl # <<>> /\ e.cl[1] > e.cl[2] THEN Throw ELSE Ok([i \in 1..Len(e.ps) |-> bin(e.ps[i])] \o SubSeq(cnt, l, r)))
    \* automatic binning of values of any magnitude: as many bins as the rule says (Scott: some), every value is counted, in the bin whose edges contain it
    [] e.op = "auto" ->
         LET o == Obs(e) n == e.n q == ISqrt(n) nb == o.v[1] IN
         Ret(st, IF o.k = "ok" /\ Len(o.v) = 3 /\ (IF e.kind = 1 THEN nb = (IF q * q = n THEN q ELSE q + 1) ELSE nb >= 1) /\ o.v[2] = n /\ o.v[3] = n THEN o ELSE Res("auto", <<n>>, <<>>))
==================================================================================
