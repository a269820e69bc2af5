----------------------------------- MODULE Som -----------------------------------
(* Self-organizing maps.  Weights and inputs are in units of 1/256.  A map is         *)
(* [x, y, d, f, w]: sizes, dimensions of the weights, distance (0 = L2, 1 = another   *)
(* one, here L1, which knows no uncertainties) and the weights of the cells, X fastest. *)
EXTENDS Rat
Empty == <<>>
Known(st, e) == {}
Ret(s, r) == [s |-> s, r |-> r]
Obs(e) == IF "obs" \in DOMAIN e THEN e.obs ELSE Res("none", <<>>, <<>>)
Good(e) == Obs(e).k = "ok"
U == 256
RECURSIVE ISqrtR(_, _, _)
ISqrtR(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtR(n, m, hi) ELSE ISqrtR(n, lo, m)
ISqrt(n) == ISqrtR(n, 0, 46340)
\* ---- cells ----
Cells(g) == 1..(g.x * g.y)
Col(g, c) == (c - 1) % g.x
Row(g, c) == (c - 1) \div g.x
CellAt(g, px, py) == px + py * g.x + 1
Split(v, d) == [c \in 1..(Len(v) \div d) |-> SubSeq(v, (c - 1) * d + 1, c * d)]
\* ---- distances, in units of 1/1024; L2: its square ----
Dist(f, a, b, u) == SumSeq([i \in 1..Len(a) |-> LET z == (a[i] - b[i]) * (IF u = <<>> THEN 4 ELSE 1024 \div u[i]) IN IF f = 0 THEN z * z ELSE Abs(z)])
Length(f, z) == IF f = 0 THEN ISqrt(z) ELSE z
DistIs(f, z, o) == o \in 0..100000 /\ (o * 128) \div 125 \in (Length(f, z) - 2)..(Length(f, z) + 3)        \* o: thousandths
BestCells(g, w, a, u) == LET D == [c \in Cells(g) |-> Dist(g.f, w[c], a, u)] IN {c \in Cells(g) : \A k \in Cells(g) : D[c] <= D[k]}
\* ---- how much a cell follows an input: <<numerator, denominator>> ----
Near2(g, b, c) == LET dx == Col(g, b) - Col(g, c) dy == Row(g, b) - Row(g, c) IN dx * dx + dy * dy
Cheb(g, b, c) == Max2(Abs(Col(g, b) - Col(g, c)), Abs(Row(g, b) - Row(g, c)))
Disk(r, d2, i, T) == IF 16 * d2 * T * T < r * r * (T - i) * (T - i) THEN <<1, 1>> ELSE <<0, 1>>            \* r in quarters
Neigh(e, g, b, c, i) == IF e.nk = 0 THEN Disk(e.nr, Near2(g, b, c), i, e.T)
                        ELSE LET k == Cheb(g, b, c) IN IF k = 0 THEN <<1, 1>> ELSE IF k = 1 THEN <<1, 2>> ELSE <<0, 1>>
Learn(e, i) == IF e.lk = 0 THEN <<e.T - i, e.T>> ELSE IF e.lk = 1 THEN <<1, 2>> ELSE IF i % 2 = 1 THEN <<0, 1>> ELSE <<1, 2>>
Moved(e, g, w, b, x, i) == [c \in Cells(g) |-> LET n == Neigh(e, g, b, c, i) l == Learn(e, i) IN
                              [k \in 1..g.d |-> w[c][k] + ((x[k] - w[c][k]) * n[1] * l[1]) \div (n[2] * l[2])]]
\* ---- what an iteration goes through ----
Orders(n, k) == {s \in [1..Min2(k, n) -> 1..n] : \A i, j \in 1..Min2(k, n) : i # j => s[i] # s[j]}
Samples(pol, n, k) == IF pol = 0 THEN {[i \in 1..n |-> i]}
                      ELSE IF pol = 1 THEN Orders(n, k)
                      ELSE IF n = 0 THEN {<<>>} ELSE {<<i>> : i \in 1..n}
\* ---- training: the set of the weights it may end with (equally close cells, random samples) ----
RECURSIVE Along(_, _, _, _, _)
Along(e, g, ws, i, s) == IF s = <<>> THEN ws
                         ELSE Along(e, g, UNION {{Moved(e, g, w, b, e.in[s[1]], i) : b \in BestCells(g, w, e.in[s[1]], <<>>)} : w \in ws}, i, Tail(s))
RECURSIVE Iterate(_, _, _, _)
Iterate(e, g, ws, i) == IF i = e.T THEN ws
                        ELSE Iterate(e, g, IF Learn(e, i)[1] = 0 THEN ws ELSE UNION {Along(e, g, ws, i, s) : s \in Samples(e.pol, Len(e.in), e.n)}, i + 1)
Trained(e, g) == Iterate(e, g, {g.w}, 0)
\* ---- exp(-n/d) in units of 1/40000 ----
EU == 40000
ExpNeg(n, d) == IF n > 10 * d THEN 0
                ELSE LET F[k \in 0..8] == IF k = 0 THEN EU ELSE (F[k - 1] * n) \div (16 * d * k) IN
                     LET t == F[0] - F[1] + F[2] - F[3] + F[4] - F[5] + F[6] - F[7] + F[8] IN
                     LET q(z) == (z * z) \div EU IN q(q(q(q(t))))
ExpIs(n, d, num, den, o) == o \in -10..100000 /\ Abs(o - (ExpNeg(n, d) * num) \div (40 * den)) <= 3 + 3 * (num \div den)                \* o: thousandths of num/den*exp(-n/d)
\* the square of the width of the Kohonen neighbourhood, <<num, den>>: m/2 to the power 2(T-i)/T
WidthSq(m, i, T) == IF m = 2 THEN <<1, 1>> ELSE IF i = 0 THEN <<m * m, 4>> ELSE IF 2 * i = T THEN <<m, 2>> ELSE IF 4 * i = T THEN <<8, 1>> ELSE <<2, 1>>     \* quarters: m = 8 only
Kohonen(e, q, o) == LET dx == q[1] - q[3] dy == q[2] - q[4] s == WidthSq(Max2(e.x, e.y), q[5], q[6]) IN
                    LET d2 == dx * dx + dy * dy IN
                    LET a == 16 * d2 * s[2] b == e.r * e.r * s[1] IN
                    \/ a <= b /\ ExpIs(d2 * s[2], 2 * s[1], 1, 1, o)
                    \/ a >= b /\ o = 0
FactorIs(e, q, o) == IF e.k = 0 THEN LET dx == q[1] - q[3] dy == q[2] - q[4] IN o = 1000 * Disk(e.r, dx * dx + dy * dy, q[5], q[6])[1] ELSE Kohonen(e, q, o)
RateIs(e, q, o) == IF e.k = 0 THEN Near(R(q[2] - q[1], q[2]), o) ELSE ExpIs(q[1], q[2], e.r, 4, o)
\* ---- U-matrix ----
Around(g, c) == {k \in Cells(g) : k # c /\ Cheb(g, c, k) = 1}
SumSet(A, f(_)) == LET F[T \in SUBSET A] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + F[T \ {x}] IN F[A]
UIs(g, how, c, o) == LET L == [k \in Cells(g) |-> Length(g.f, Dist(g.f, g.w[c], g.w[k], <<>>))] A == Around(g, c) IN
  IF A = {} THEN TRUE
  ELSE LET v == IF how = 0 THEN L[CHOOSE k \in A : \A j \in A : L[k] <= L[j]]
                ELSE IF how = 1 THEN L[CHOOSE k \in A : \A j \in A : L[k] >= L[j]]
                ELSE SumSet(A, LAMBDA k : L[k]) \div Cardinality(A) IN
       o \in 0..100000 /\ (o * 128) \div 125 \in (v - 3)..(v + 4)
\* ---- judged observations ----
Judge(ok, o, best) == IF ok THEN o ELSE best
Perm(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Hull(e, g, k, v) == LET vs == {g.w[c][k] : c \in Cells(g)} \cup {e.in[i][k] : i \in 1..Len(e.in)} IN (\E z \in vs : z <= v + 1) /\ (\E z \in vs : z >= v - 1)
Make(st, e) ==
  LET n == e.x * e.y * e.d o == Obs(e) IN
  LET v == IF e.init = <<>> THEN [i \in 1..n |-> 0] ELSE IF o.k = "ok" /\ Perm(o.v, e.init) THEN o.v ELSE e.init IN
  Ret(Append(st, [x |-> e.x, y |-> e.y, d |-> e.d, f |-> e.f, w |-> Split(v, e.d)]), Ok(v))
Train(st, e) ==
  LET g == st[e.g] ws == Trained(e, g) o == Obs(e) IN
  LET w == IF o.k = "ok" /\ Len(o.v) = g.x * g.y * g.d /\ Split(o.v, g.d) \in ws THEN Split(o.v, g.d) ELSE CHOOSE w \in ws : TRUE IN
  Ret([st EXCEPT ![e.g].w = w], Ok(Flat(w)))
\* one iteration with one input and the Kohonen neighbourhood, exponential decay at its start
OneStep(e, g, v) == \E b \in BestCells(g, g.w, e.in[1], <<>>) : \A c \in Cells(g) : \A k \in 1..g.d :
    LET s == WidthSq(Max2(g.x, g.y), 0, 1) d2 == Near2(g, b, c) diff == e.in[1][k] - g.w[c][k] o == v[(c - 1) * g.d + k] - g.w[c][k] IN
    LET a == 16 * d2 * s[2] m == e.nr * e.nr * s[1] IN
    \/ a <= m /\ Abs(o - ((((diff * (ExpNeg(d2 * s[2], 2 * s[1]) \div 4)) \div 1000) * e.lr) \div 40)) <= 4
    \/ a >= m /\ o = 0
Soft(st, e) == LET g == st[e.g] o == Obs(e) IN
  Ret(st, Judge(o.k = "ok" /\ Len(o.v) = g.x * g.y * g.d /\ (\A c \in Cells(g), k \in 1..g.d : Hull(e, g, k, o.v[(c - 1) * g.d + k])) /\ ((e.T = 1 /\ Len(e.in) = 1) => OneStep(e, g, o.v)), o, Res("trained", <<>>, <<>>)))
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "som" -> Make(st, e)
    [] e.op = "set" -> Ret([st EXCEPT ![e.g].w[CellAt(st[e.g], e.x, e.y)] = e.v], Okay)
    [] e.op = "get" -> Ret(st, Ok(st[e.g].w[CellAt(st[e.g], e.x, e.y)]))
    [] e.op = "size" -> Ret(st, Ok(<<st[e.g].x, st[e.g].y>>))
    \* each cell once, with its coordinates
    [] e.op = "all" -> Ret(st, Ok(Flat([c \in Cells(st[e.g]) |-> <<Col(st[e.g], c), Row(st[e.g], c)>> \o st[e.g].w[c]])))
    [] e.op = "bmu" -> LET g == st[e.g] o == Obs(e) IN
         IF e.u # <<>> /\ g.f = 1 THEN Ret(st, Throw)
         ELSE LET B == BestCells(g, g.w, e.v, e.u) IN LET b == CHOOSE c \in B : TRUE IN
              Ret(st, Judge(o.k = "ok" /\ Len(o.v) = 3 /\ o.v[1] \in 0..(g.x - 1) /\ o.v[2] \in 0..(g.y - 1) /\ CellAt(g, o.v[1], o.v[2]) \in B /\ DistIs(g.f, Dist(g.f, g.w[b], e.v, e.u), o.v[3]),
                            o, Ok(<<Col(g, b), Row(g, b), (Length(g.f, Dist(g.f, g.w[b], e.v, e.u)) * 125) \div 128>>)))
    [] e.op = "train" -> Train(st, e)
    [] e.op = "soft" -> Soft(st, e)
    \* the cell every input went to, then how many cells started from the initial value, and whether the inputs of every cell are in order
    [] e.op = "project" -> LET g == st[e.g] o == Obs(e) n == Len(e.in) u(i) == IF e.u = <<>> THEN <<>> ELSE e.u[i] IN
         IF e.u # <<>> /\ g.f = 1 /\ n > 0 THEN Ret(st, Throw)
         ELSE LET best == [i \in 1..n |-> BestCells(g, g.w, e.in[i], u(i))] IN
              Ret(st, Judge(o.k = "ok" /\ Len(o.v) = n + 2 /\ (\A i \in 1..n : o.v[i] \in best[i]) /\ o.v[n + 1] = g.x * g.y /\ o.v[n + 2] = 1,
                            o, Ok([i \in 1..n |-> CHOOSE c \in best[i] : TRUE] \o <<g.x * g.y, 1>>)))
    [] e.op = "umat" -> LET g == st[e.g] o == Obs(e) IN
         Ret(st, Judge(o.k = "ok" /\ Len(o.v) = g.x * g.y /\ \A c \in Cells(g) : UIs(g, e.how, c, o.v[c]), o, Res("umatrix", <<>>, <<>>)))
    [] e.op = "ser" -> IF e.bad # 0 THEN Ret(st, Throw) ELSE Ret(Append(st, st[e.g]), Okay)
    [] e.op = "mv" -> Ret(Append(st, st[e.g]), Okay)
    [] e.op = "nbh" -> LET o == Obs(e) IN Ret(st, Judge(o.k = "ok" /\ Len(o.v) = Len(e.qs) /\ \A i \in 1..Len(e.qs) : FactorIs(e, e.qs[i], o.v[i]), o, Res("factors", <<>>, <<>>)))
    [] e.op = "lrn" -> LET o == Obs(e) IN Ret(st, Judge(o.k = "ok" /\ Len(o.v) = Len(e.qs) /\ \A i \in 1..Len(e.qs) : RateIs(e, e.qs[i], o.v[i]), o, Res("rates", <<>>, <<>>)))
    \* e.rep passes over n elements, each ended by 0
    [] e.op = "samp" -> LET o == Obs(e) P == Samples(e.pol, e.m, e.n) IN
         LET ends == {i \in 1..Len(o.v) : o.v[i] = 0} IN
         Ret(st, Judge(o.k = "ok" /\ Cardinality(ends) = e.rep /\ (Len(o.v) \in ends) /\ \A z \in ends : LET a == CHOOSE y \in ({0} \cup ends) : y < z /\ \A t \in ends : t < z => t <= y IN
                          SubSeq(o.v, a + 1, z - 1) \in P, o, Res("passes", <<>>, <<>>)))
    [] e.op = "rand" -> LET o == Obs(e) IN
         Ret(st, Judge(o.k = "ok" /\ Len(o.v) = e.m /\ (\A i \in 1..e.m : o.v[i] >= e.lo /\ o.v[i] <= e.hi) /\ (e.m > 5 => \E i, j \in 1..e.m : o.v[i] # o.v[j]), o, Res("random", <<>>, <<>>)))
==================================================================================
