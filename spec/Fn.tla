----------------------------------- MODULE Fn -----------------------------------
(* Functions of one variable (MathUtils): polynomials, adapters, piecewise functions, *)
(* products, interpolations, integrals.  Coefficients and knots are integers, the     *)
(* arguments are half integers (q means q/2), results are rationals [n, d].           *)
(* A function is [t |-> "poly"|"ad", c], [t |-> "pw", k, f] or [t |-> "prod", a, b];  *)
(* the meaning of a product is the product of the meanings, however it is represented.*)
EXTENDS Rat
Empty == <<>>
Known(st, e) == {}
INF == 100000                  \* an extrapolated end
Ret(s, r) == [s |-> s, r |-> r]
\* ---- polynomials: c[i] is the coefficient of x^(i-1) ----
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
PolyVal(c, q) == LET m == Len(c) IN IF m = 0 THEN RZ
                 ELSE R(SumSeq([i \in 1..m |-> c[i] * Pow(q, i - 1) * Pow(2, m - i)]), Pow(2, m - 1))
PolyMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
                 [k \in 1..(Len(a) + Len(b) - 1) |-> SumSeq([i \in 1..Len(a) |-> IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0])]
PolyInt(c, p, q) == RSum([i \in 1..Len(c) |-> R(c[i] * (Pow(q, i) - Pow(p, i)), i * Pow(2, i))])
Deriv(c) == [i \in 1..Max2(0, Len(c) - 1) |-> i * c[i + 1]]
\* ---- functions ----
Poly(c) == [t |-> "poly", c |-> c]
\* the piece a piecewise function uses at q (half units): the first knot belongs to the first piece, any other to the piece on its left; 0 is outside
PieceAt(k, q) == IF q < 2 * k[1] \/ q > 2 * Last1(k) THEN 0
                 ELSE IF q = 2 * k[1] THEN 1
                 ELSE (CHOOSE i \in 1..Len(k) : 2 * k[i] >= q /\ \A j \in 1..(i - 1) : 2 * k[j] < q) - 1
\* ---- the polynomial on an interval without knots, m = its middle in quarter units ----
PieceOf(f, m) == LET in == {i \in 1..Len(f.f) : 4 * f.k[i] < m /\ m < 4 * f.k[i + 1]} IN IF in = {} THEN 0 ELSE CHOOSE i \in in : TRUE
RECURSIVE PwLike(_), OutAt(_, _), PolyOn(_, _), CanInt(_, _)
PwLike(f) == f.t = "pw" \/ (f.t = "prod" /\ (PwLike(f.a) \/ PwLike(f.b)))
OutAt(f, m) == (f.t = "pw" /\ (IF PieceOf(f, m) = 0 THEN TRUE ELSE OutAt(f.f[PieceOf(f, m)], m))) \/ (f.t = "prod" /\ (OutAt(f.a, m) \/ OutAt(f.b, m)))
PolyOn(f, m) ==
  IF f.t \in {"poly", "ad"} THEN f.c
  ELSE IF f.t = "prod" THEN PolyMul(PolyOn(f.a, m), PolyOn(f.b, m))
  ELSE IF PieceOf(f, m) = 0 THEN <<>> ELSE PolyOn(f.f[PieceOf(f, m)], m)
\* exact integration is possible where only polynomials are involved
CanInt(f, m) ==
  IF f.t = "poly" THEN TRUE ELSE IF f.t = "ad" THEN FALSE
  ELSE IF OutAt(f, m) THEN TRUE
  ELSE IF f.t = "prod" THEN CanInt(f.a, m) /\ CanInt(f.b, m)
  ELSE CanInt(f.f[PieceOf(f, m)], m)
RECURSIVE Knots(_)
Knots(f) == IF f.t \in {"poly", "ad"} THEN {} ELSE IF f.t = "prod" THEN Knots(f.a) \cup Knots(f.b)
            ELSE {2 * f.k[i] : i \in 1..Len(f.k)} \cup UNION {Knots(f.f[i]) : i \in 1..Len(f.f)}
RECURSIVE ZeroWidth(_), HasAd(_)
ZeroWidth(f) == IF f.t \in {"poly", "ad"} THEN FALSE ELSE IF f.t = "prod" THEN ZeroWidth(f.a) \/ ZeroWidth(f.b)
                ELSE \E i \in 1..Len(f.f) : f.k[i] = f.k[i + 1] \/ ZeroWidth(f.f[i])
HasAd(f) == IF f.t \in {"poly", "ad"} THEN f.t = "ad" ELSE IF f.t = "prod" THEN HasAd(f.a) \/ HasAd(f.b)
            ELSE \E i \in 1..Len(f.f) : HasAd(f.f[i])
SortSet(s) == LET F[n \in 0..Cardinality(s)] == IF n = 0 THEN <<>> ELSE
                 LET rest == s \ {F[n - 1][i] : i \in 1..(n - 1)} IN Append(F[n - 1], CHOOSE x \in rest : \A y \in rest : x <= y)
              IN F[Cardinality(s)]
Cuts(f, p, q) == SortSet({k \in Knots(f) : p < k /\ k < q} \cup {p, q})
Mids(c) == [i \in 1..(Len(c) - 1) |-> c[i] + c[i + 1]]
IntOk(f, p, q) == IF ~PwLike(f) THEN CanInt(f, 0) ELSE LET c == Cuts(f, Min2(p, q), Max2(p, q)) IN
                  \A i \in 1..(Len(c) - 1) : CanInt(f, c[i] + c[i + 1])
Integral(f, p, q) == LET c == Cuts(f, Min2(p, q), Max2(p, q)) IN
   LET v == RSum([i \in 1..(Len(c) - 1) |-> PolyInt(PolyOn(f, c[i] + c[i + 1]), c[i], c[i + 1])]) IN IF p <= q THEN v ELSE RNeg(v)
\* what a function may give: only a product has a choice, at a knot of its factors, where both neighbours are defined
RECURSIVE Vals(_, _), Strict(_, _)
Vals(f, q) ==
  IF f.t \in {"poly", "ad"} THEN {PolyVal(f.c, q)}
  ELSE IF f.t = "prod" THEN {RMul(x, y) : x \in Vals(f.a, q), y \in Vals(f.b, q)}
                            \cup (IF OutAt(f, 2 * q - 1) /\ OutAt(f, 2 * q + 1) THEN {RZ} ELSE {})      \* the supports only touch
  ELSE LET in == {i \in 1..Len(f.f) : 2 * f.k[i] <= q /\ q <= 2 * f.k[i + 1]} IN
       IF in = {} THEN {RZ} ELSE UNION {Vals(f.f[i], q) : i \in in}
Strict(f, q) == IF f.t # "pw" THEN Vals(f, q) ELSE IF PieceAt(f.k, q) = 0 THEN {RZ} ELSE Strict(f.f[PieceAt(f.k, q)], q)
\* ---- interpolation ----
\* neighbouring equal pairs count once
Dedup(x, y) == SelectSeq([i \in 1..Len(x) |-> <<x[i], y[i], i>>], LAMBDA p : p[3] = 1 \/ x[p[3] - 1] # p[1] \/ y[p[3] - 1] # p[2])
Increasing(x) == \A i \in 2..Len(x) : x[i - 1] <= x[i]
HasStep(x, y) == \E i \in 2..Len(x) : x[i] = x[i - 1] /\ y[i] # y[i - 1]
BadData(x, y) == Len(x) # Len(y) \/ Len(x) = 0 \/ ~Increasing(x)
\* the line through two points with an integer slope
Line(p, r) == IF p[1] = r[1] THEN <<p[2]>> ELSE LET s == (r[2] - p[2]) \div (r[1] - p[1]) IN <<p[2] - s * p[1], s>>
Lin(x, y, ext) == LET d == Dedup(x, y) n == Len(d) IN
  IF n = 1 THEN (IF ext THEN [t |-> "ad", c |-> <<y[1]>>] ELSE [t |-> "pw", k |-> <<x[1], x[1]>>, f |-> <<Poly(<<y[1]>>)>>])
  ELSE [t |-> "pw", k |-> [i \in 1..n |-> IF ext /\ i = 1 THEN -INF ELSE IF ext /\ i = n THEN INF ELSE d[i][1]],
        f |-> [i \in 1..(n - 1) |-> Poly(Line(d[i], d[i + 1]))]]
\* the value of the broken line through (x, y) at q/2, with any slopes
LineAt(x0, y0, x1, y1, q) == RAdd(R(y0, 1), R((y1 - y0) * (q - 2 * x0), 2 * (x1 - x0)))
\* x strictly increasing, at least two points
LinAt(x, y, ext, q) == LET n == Len(x) IN
  IF q < 2 * x[1] THEN (IF ext THEN LineAt(x[1], y[1], x[2], y[2], q) ELSE RZ)
  ELSE IF q > 2 * x[n] THEN (IF ext THEN LineAt(x[n - 1], y[n - 1], x[n], y[n], q) ELSE RZ)
  ELSE LET i == CHOOSE i \in 1..(n - 1) : 2 * x[i] <= q /\ q <= 2 * x[i + 1] IN LineAt(x[i], y[i], x[i + 1], y[i + 1], q)
LinAll(x, y, ext, q) == IF Len(x) = 1 THEN (IF ext \/ q = 2 * x[1] THEN R(y[1], 1) ELSE RZ) ELSE LinAt(x, y, ext, q)
\* ---- a natural cubic spline, seen through 5 equidistant samples s[1..5] per interval of width dx (S * value, rounded) ----
Samples(o, i) == SubSeq(o, 5 * (i - 1) + 1, 5 * i)
D1L(s) == -11 * s[1] + 18 * s[2] - 9 * s[3] + 2 * s[4]              \* 6 h f'
D1R(s) == 11 * s[5] - 18 * s[4] + 9 * s[3] - 2 * s[2]
D2L(s) == 2 * s[1] - 5 * s[2] + 4 * s[3] - s[4]                      \* h^2 f''
D2R(s) == 2 * s[5] - 5 * s[4] + 4 * s[3] - s[2]
Cubic(s) == Abs(s[1] - 4 * s[2] + 6 * s[3] - 4 * s[4] + s[5]) <= 10
SplineOk(x, y, o) == LET n == Len(x) - 1 IN
  /\ \A i \in 1..Len(o) : Abs(o[i]) < 3000000
  /\ Len(o) = 5 * (n + 2)
  /\ \A i \in 1..n : LET s == Samples(o, i) IN Abs(s[1] - S * y[i]) <= 1 /\ Abs(s[5] - S * y[i + 1]) <= 1 /\ Cubic(s)
  /\ \A i \in 1..(n - 1) : LET s == Samples(o, i) r == Samples(o, i + 1) a == x[i + 1] - x[i] b == x[i + 2] - x[i + 1] IN
       /\ Abs(D1R(s) * b - D1L(r) * a) <= 25 * (a + b)
       /\ Abs(D2R(s) * b * b - D2L(r) * a * a) <= 10 * (a * a + b * b)
  /\ Abs(D2L(Samples(o, 1))) <= 10 /\ Abs(D2R(Samples(o, n))) <= 10
\* the two last groups: 5 samples from one interval before the first knot to half inside, and the mirror at the other end
SplineEnds(x, y, ext, o) == LET n == Len(x) - 1 l == Samples(o, n + 1) r == Samples(o, n + 2) IN
  IF ext THEN Cubic(l) /\ Cubic(r) ELSE \A i \in 1..2 : l[i] = 0 /\ r[6 - i] = 0
\* ---- numerical schemes on a polynomial of degree at most two: exact ----
Apply(st, e) ==
  CASE e.op = "new" -> Ret(Empty, Okay)
    [] e.op = "poly" -> Ret(Append(st, Poly(e.c)), Ok(e.c))
    [] e.op = "ad" -> Ret(Append(st, [t |-> "ad", c |-> e.c]), Okay)
    [] e.op = "pw" -> IF Len(e.k) # Len(e.f) + 1 \/ ~Increasing(e.k) THEN Ret(st, Throw)
                      ELSE Ret(Append(st, [t |-> "pw", k |-> e.k, f |-> [i \in 1..Len(e.f) |-> st[e.f[i]]]]), Ok(e.k))
    [] e.op = "lin" -> IF BadData(e.x, e.y) THEN Ret(st, Throw) ELSE Ret(Append(st, Lin(e.x, e.y, e.ext = 1)), Okay)
    [] e.op = "mul" -> Ret(Append(st, IF st[e.a].t = "poly" /\ st[e.b].t = "poly" THEN Poly(PolyMul(st[e.a].c, st[e.b].c)) ELSE [t |-> "prod", a |-> st[e.a], b |-> st[e.b]]), Okay)
    [] e.op = "cl" -> Ret(Append(st, st[e.a]), Okay)
    [] e.op = "der" -> Ret(Append(st, Poly(Deriv(st[e.a].c))), Ok(Deriv(st[e.a].c)))
    [] e.op = "ev" -> Ret(st, IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ \E r \in Strict(st[e.a], e.q) : Near(r, e.obs.v[1]) THEN e.obs
                              ELSE Res("one of", <<>>, <<ToString(Strict(st[e.a], e.q))>>))
    [] e.op = "prim" -> \* the indefinite integral of a polynomial, at q minus at p
         Ret(st, LET r == PolyInt(st[e.a].c, e.p, e.q) IN IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Near(r, e.obs.v[1]) THEN e.obs ELSE Res("integral", <<r.n, r.d>>, <<>>))
    [] e.op = "int" -> Ret(st, IF e.obs.k = "throw" /\ ZeroWidth(st[e.a]) /\ HasAd(st[e.a]) THEN Throw      \* an empty piece may be asked too
                               ELSE IF ~IntOk(st[e.a], e.p, e.q) THEN Throw ELSE
                               LET r == Integral(st[e.a], e.p, e.q) IN
                               IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Near(r, e.obs.v[1]) THEN e.obs ELSE Res("integral", <<r.n, r.d>>, <<>>))
    [] e.op = "num" -> \* with a numerical scheme: also where there is no exact integral; e.a is a polynomial or adapter of degree <= 2
         Ret(st, LET r == PolyInt(st[e.a].c, e.p, e.q) IN
                 IF st[e.a].t = "ad" /\ e.order < 3 THEN Throw
                 ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Near(r, e.obs.v[1]) THEN e.obs ELSE Res("integral", <<r.n, r.d>>, <<>>))
    [] e.op = "simpson" -> \* one application of the rule, and one that starts from the previous order
         Ret(st, LET r == PolyInt(st[e.a].c, e.p, e.q) IN
                 IF e.order < (IF e.rec = 1 THEN 4 ELSE 3) THEN Throw
                 ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ Near(r, e.obs.v[1]) THEN e.obs ELSE Res("integral", <<r.n, r.d>>, <<>>))
    [] e.op = "diff" -> \* numerical derivatives at q/2
         Ret(st, LET d == Deriv(PolyOn(st[e.a], 0)) IN
                 LET r == IF e.n = 1 THEN PolyVal(d, e.q) ELSE PolyVal(Deriv(d), e.q) IN
                 IF e.obs.k = "ok" /\ Len(e.obs.v) = 1 /\ \E z \in -3..3 : Near(r, e.obs.v[1] + z) THEN e.obs ELSE Res("derivative", <<r.n, r.d>>, <<>>))
    [] e.op = "linv" -> \* interpolate (how 0, 1: from a dataset) or simple_interpolation (2), at the points e.qs
         Ret(st, LET d == Dedup(e.x, e.y) x == Map(LAMBDA p : p[1], d) y == Map(LAMBDA p : p[2], d) IN
                 IF Len(e.x) # Len(e.y) \/ Len(e.x) = 0 \/ (e.how # 2 /\ ~Increasing(e.x)) THEN Throw
                 ELSE IF e.obs.k = "ok" /\ Len(e.obs.v) = Len(e.qs) /\ \A i \in 1..Len(e.qs) : Near(LinAll(x, y, e.ext = 1, e.qs[i]), e.obs.v[i]) THEN e.obs
                 ELSE Res("line", Flat([i \in 1..Len(e.qs) |-> LET r == LinAll(x, y, e.ext = 1, e.qs[i]) IN <<r.n, r.d>>]), <<>>))
    [] e.op = "spl" ->
         Ret(st, LET d == Dedup(e.x, e.y) x == Map(LAMBDA p : p[1], d) y == Map(LAMBDA p : p[2], d) IN
                 IF BadData(e.x, e.y) \/ HasStep(e.x, e.y) THEN Throw
                 ELSE IF Len(x) = 1 THEN (IF e.obs.k = "ok" /\ Len(e.obs.v) = 3 /\ \A i \in 1..3 : e.obs.v[i] = S * (IF e.ext = 1 \/ i = 2 THEN y[1] ELSE 0) THEN e.obs ELSE Res("constant", y, <<>>))
                 ELSE IF e.obs.k = "ok" /\ SplineOk(x, y, e.obs.v) /\ SplineEnds(x, y, e.ext = 1, e.obs.v) THEN e.obs
                 ELSE Res("natural spline", x, <<>>))
    [] e.op = "sq" -> \* a x^2 + b x + c = y; the roots are constructed to be e.r1 <= e.r2 (or none)
         Ret(st, IF e.kind = "bad" THEN Throw ELSE IF e.kind = "none" THEN Ok(<<2000000001, 2000000001>>) ELSE Ok(<<e.r1, e.r2>>))
==================================================================================
