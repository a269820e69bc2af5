------------------------------------ MODULE Pdf ------------------------------------
(* Cumulative distributions, their inverses, sampling, and the modes of a PDF.          *)
(* x, y: integers, y >= 0; ratios and probabilities are k/16 (samplers: k/64).          *)
EXTENDS Rat
Empty == <<>>
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
Sums(y) == LET F[i \in 0..Len(y)] == IF i = 0 THEN 0 ELSE F[i - 1] + y[i] IN [i \in 1..Len(y) |-> F[i]]
FirstIdx(n, P(_)) == CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j)
LastIdx(n, P(_)) == CHOOSE i \in 1..n : P(i) /\ \A j \in (i + 1)..n : ~P(j)
\* ---- Cumulative: c = [x, y], y not decreasing ----
Tray(c, k) == LET n == Len(c.y) IN LET i == FirstIdx(n, LAMBDA j : 16 * c.y[j] >= k * c.y[n]) IN
              <<c.x[i], c.x[LastIdx(n, LAMBDA j : c.y[j] = c.y[i])]>>
FindValue2(c, k, pos) == LET t == Tray(c, k) IN IF pos = 0 THEN 2 * t[1] ELSE IF pos = 1 THEN t[1] + t[2] ELSE 2 * t[2]
\* the intervals that hold at least k/16 of the total: the first sample counts for the interval that starts there
Holds(c, i, j, k) == 16 * (c.y[j] - (IF i = 1 THEN 0 ELSE c.y[i])) >= k * Last1(c.y)
Intervals(c, k) == LET n == Len(c.x) IN {p \in (1..n) \X (1..n) : p[1] < p[2] /\ Holds(c, p[1], p[2], k)} \cup {<<1, n>>}
Width(c, p) == c.x[p[2]] - c.x[p[1]]
MinIntervals(c, k) == LET s == Intervals(c, k) IN {<<c.x[p[1]], c.x[p[2]]>> : p \in {p \in s : \A q \in s : Width(c, p) <= Width(c, q)}}
\* ---- inverse of the cumulative of a PDF that is linear between its knots; Q = the units of the results ----
Q == 100
Sorted(k) == \A i \in 2..Len(k) : k[i - 1] <= k[i]
\* twice the cumulative at the knots
C2(x, p) == Sums([i \in 1..Len(x) |-> IF i = 1 THEN 0 ELSE (x[i] - x[i - 1]) * (p[i] + p[i - 1])])
MaxOf(s) == CHOOSE m \in Range(s) : \A z \in Range(s) : z <= m
\* v/Q is where the cumulative is k/d of the total.  On = exactly k/d; otherwise k/d up to a tiny bit more
Inverse(x, p, k, d, on, v) ==
  LET c == C2(x, p) n == Len(x) T == Last1(c) IN
  IF on /\ \E j \in 1..n : d * c[j] = k * T THEN v = Q * x[FirstIdx(n, LAMBDA j : d * c[j] = k * T)]
  ELSE /\ v \in (Q * x[1])..(Q * x[n])
       /\ T = 0 => v = Q * x[1]
       /\ LET i == IF n = 1 \/ v = Q * x[1] THEN 1 ELSE FirstIdx(n, LAMBDA j : v <= Q * x[j]) - 1 IN
          n > 1 =>
          LET dx == Max2(1, x[i + 1] - x[i]) rel == v - Q * x[i] IN
          Abs(d * (c[i] * dx * Q * Q + 2 * p[i] * rel * Q * dx + (p[i + 1] - p[i]) * rel * rel) - k * T * dx * Q * Q) <= d * 2 * MaxOf(p) * dx * Q + 1
\* the first value whose share reaches k/d
Discrete(p, k, d) == LET c == Sums(p) IN FirstIdx(Len(p), LAMBDA i : d * c[i] >= k * Last1(c))
\* ---- a sampler of two axes; v[j][i]: axis 1 (drawn last) is i, axis 2 (drawn first) is j ----
Row(e, j) == SubSeq(e.vals, (j - 1) * Len(e.k1) + 1, j * Len(e.k1))
Marg(e, j) == LET r == Row(e, j) IN IF e.cont1 = 1 /\ Len(e.k1) > 1 THEN Last1(C2(e.k1, r)) ELSE SumSeq(r)
Margs(e) == [j \in 1..Len(e.k2) |-> Marg(e, j)]
\* at an exact boundary rounding decides
Choices(p, k) == LET c == Sums(p) i == Discrete(p, k, 64) IN {i} \cup (IF 64 * c[i] = k * Last1(c) /\ i < Len(p) THEN {FirstIdx(Len(p), LAMBDA j : c[j] > c[i])} ELSE {})
DrawOk(e, a, b) ==       \* a: value of axis 1, b: of axis 2 (times Q when continuous)
  LET m == Margs(e) IN
  IF e.cont2 = 0
  THEN \E j \in Choices(m, e.k) : b = e.k2[j] /\
         LET r == Row(e, j) IN
         IF e.cont1 = 1 THEN Inverse(e.k1, r, e.k, 64, FALSE, a) ELSE \E i \in Choices(r, e.k) : a = e.k1[i]
  ELSE /\ Inverse(e.k2, m, e.k, 64, FALSE, b)
       /\ \E i \in 1..Len(e.k1), j \in 1..Len(e.k2) : a = e.k1[i] /\ Row(e, j)[i] > 0
            /\ (j = 1 \/ Q * e.k2[j - 1] <= b) /\ (j = Len(e.k2) \/ b <= Q * e.k2[j + 1])
\* ---- modes ----
Dx2(x, i) == IF i = 1 THEN 2 * (x[2] - x[1]) ELSE IF i = Len(x) THEN 2 * (x[i] - x[i - 1]) ELSE x[i + 1] - x[i - 1]
\* a mode goes down from its peak to either side until a zero, the end, or a sample below the threshold from where it rises
RECURSIVE Left(_, _, _, _), Right(_, _, _, _)
Left(y, p, top, k) == IF y[p] = 0 THEN p + 1 ELSE IF p = 1 THEN 1 ELSE IF 8 * y[p] < (8 - k) * top /\ y[p - 1] >= y[p] THEN p ELSE Left(y, p - 1, top, k)
Right(y, p, top, k) == IF y[p] = 0 THEN p - 1 ELSE IF p = Len(y) THEN p ELSE IF 8 * y[p] < (8 - k) * top /\ y[p + 1] >= y[p] THEN p ELSE Right(y, p + 1, top, k)
Clamp(r, lo, hi) == IF RLess(r, R(lo, 1)) THEN R(lo, 1) ELSE IF RLess(R(hi, 1), r) THEN R(hi, 1) ELSE r
RDiv(n, d) == IF d < 0 THEN R(-n, -d) ELSE R(n, d)
\* the top of the parabola through the peak and its neighbours
Parabola(x, y, c) == LET n == Len(x) IN IF n < 3 THEN R(x[c], 1) ELSE
  LET i == IF c = 1 THEN 2 ELSE IF c = n THEN n - 1 ELSE c IN
  LET x0 == x[i - 1] x1 == x[i] x2 == x[i + 1] y0 == y[i - 1] y1 == y[i] y2 == y[i + 1] IN
  LET den == 2 * ((x1 - x0) * y2 - (x2 - x0) * y1 + (x2 - x1) * y0)
      num == (x1 * x1 - x0 * x0) * y2 - (x2 * x2 - x0 * x0) * y1 + (x2 * x2 - x1 * x1) * y0 IN
  Clamp(IF den = 0 THEN R(x1, 1) ELSE RDiv(num, den), x[1], x[n])
Mode(x, y, k) ==
  LET top == MaxOf(y) IN LET c == IdxOf(top, y) IN LET l == Left(y, c, top, k) r == Right(y, c, top, k) IN
  LET a2 == SumSeq([i \in 1..(r - l + 1) |-> y[l + i - 1] * Dx2(x, l + i - 1)])
      m2 == SumSeq([i \in 1..(r - l + 1) |-> x[l + i - 1] * y[l + i - 1] * Dx2(x, l + i - 1)]) IN
  [s |-> x[c], a2 |-> a2, mean |-> R(m2, a2), top |-> Parabola(x, y, c), l |-> l, r |-> r, peak |-> top]
\* all the modes, highest first, each taken out of the PDF before the next is looked for
RECURSIVE Modes(_, _, _)
Modes(x, y, k) == IF MaxOf(y) = 0 THEN <<>> ELSE LET m == Mode(x, y, k) IN <<m>> \o Modes(x, [i \in 1..Len(y) |-> IF i \in m.l..m.r THEN 0 ELSE y[i]], k)
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
\* ordered by area, among equals the higher mode first
ByArea(s) == LET rank(i) == Cardinality({j \in 1..Len(s) : s[j].a2 > s[i].a2 \/ (s[j].a2 = s[i].a2 /\ j < i)}) + 1 IN
             [n \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : rank(i) = n]]
\* only the 3 n + 2 highest modes are looked at
Wanted(e) == LET ms == Modes(e.x, e.y, e.k) IN IF e.kind = 0 THEN Take(ms, e.n) ELSE Take(ByArea(Take(ms, 3 * e.n + 2)), e.n)
ModesOk(w, o) == /\ Len(o) = 4 * Len(w)
                 /\ \A i \in 1..Len(w) : LET b == 4 * (i - 1) IN o[b + 1] = w[i].s /\ o[b + 2] = w[i].a2 /\ Near(w[i].mean, o[b + 3]) /\ Near(w[i].top, o[b + 4])
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "cum" -> IF Len(e.x) # Len(e.y) THEN Ret(st, Throw) ELSE Ret(Append(st, [x |-> e.x, y |-> IF e.pdf = 1 THEN Sums(e.y) ELSE e.y]), Okay)
    [] e.op = "cp" -> Ret(Append(st, st[e.g]), Okay)
    [] e.op = "norm" -> Ret(st, Okay)
    [] e.op = "fv" -> Ret(st, IF e.k < 0 \/ e.k > 16 THEN Throw ELSE Ok(<<FindValue2(st[e.g], e.k, e.pos)>>))
    [] e.op = "ci" -> Ret(st, IF e.k <= 0 \/ e.k > 16 THEN Throw
                              ELSE Ok(<<FindValue2(st[e.g], 8 - (e.k \div 2), 2) \div 2, FindValue2(st[e.g], 8 + (e.k \div 2), 0) \div 2>>))
    [] e.op = "mi" -> Ret(st, IF e.k <= 0 \/ e.k > 16 THEN Throw
                              ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = 2 /\ <<e.obs.v[1], e.obs.v[2]>> \in MinIntervals(st[e.g], e.k) THEN e.obs
                              ELSE Res("one of", <<>>, <<ToString(MinIntervals(st[e.g], e.k))>>))
    [] e.op = "icc" -> Ret(st, IF Len(e.x) # Len(e.p) \/ ~Sorted(e.x) \/ e.k < 0 \/ e.k > 16 THEN Throw
                               ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Inverse(e.x, e.p, e.k, 16, e.eps = 0, e.obs.v[1]) THEN e.obs
                               ELSE Res("inverse", C2(e.x, e.p), <<>>))
    [] e.op = "icd" -> Ret(st, IF Len(e.x) # Len(e.p) \/ e.k < 0 \/ e.k > 16 THEN Throw ELSE Ok(<<e.x[Discrete(e.p, e.k, 16)]>>))
    [] e.op = "nds" -> Ret(st, IF e.bad = 1 THEN Throw
                               ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = 2 * e.draws /\ \A i \in 1..e.draws : DrawOk(e, e.obs.v[2 * i - 1], e.obs.v[2 * i]) THEN e.obs
                               ELSE Res("sample", Margs(e), <<>>))
    [] e.op = "modes" -> Ret(st, IF e.obs.k = "ok" /\ ModesOk(Wanted(e), e.obs.v) THEN e.obs
                                 ELSE Res("modes", Flat(Map(LAMBDA m : <<m.s, m.a2, m.mean.n, m.mean.d, m.top.n, m.top.d>>, Wanted(e))), <<>>))
==================================================================================
