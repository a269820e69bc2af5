"""P24-P27: MathUtils."""
SRC = ["MathUtils/src/lib/", "XYDataset/src/lib/XYDataset.cpp", "NdArray/src/lib/"]


def build_fn(ctx):
    return ctx.build("fn", "d_fn.cpp", FN_SRC)


FN_SRC = ["MathUtils/src/lib/function/", "MathUtils/src/lib/interpolation/", "MathUtils/src/lib/numericalIntegration/",
          "MathUtils/src/lib/numericalDifferentiation/", "MathUtils/src/lib/helpers/", "XYDataset/src/lib/XYDataset.cpp"]


class Fns:
    """Random trees of functions; only the degree and the kind are tracked, to stay within exact arithmetic."""

    def __init__(self, r):
        self.r, self.ev, self.f = r, [dict(op="new")], []

    def add(self, e, deg, kind):
        self.ev.append(e)
        self.f.append((deg, kind))

    def poly(self, ad=False):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3]) if not ad else r.choice([1, 2, 3])
        c = [r.randint(-2, 2) for _ in range(n)]
        self.add(dict(op="ad" if ad else "poly", c=c), max(0, n - 1), "ad" if ad else "poly")

    def knots(self, n, lo=-3, hi=3):
        r = self.r
        k = sorted(r.sample(range(lo, hi + 1), min(n, hi - lo + 1)))
        while len(k) < n:
            k.append(k[-1])
        if r.random() < .12 and n > 2:
            i = r.randrange(1, n)
            k[i] = k[i - 1]
        return k

    def pw(self):
        r = self.r
        c = [i for i, f in enumerate(self.f) if f[0] <= 2]
        if not c:
            return self.poly()
        n = r.choice([1, 1, 2, 2, 3, 4])
        fs = [r.choice(c) + 1 for _ in range(n)]
        k = self.knots(n + 1)
        x = r.random()
        e = dict(op="pw", k=k, f=fs, sh=r.randint(0, 1))
        if x < .04 and k[0] != k[-1]:
            e["k"] = k[::-1]
            self.ev.append(e)
        elif x < .08:
            e["k"] = k[:-1] if r.random() < .5 else k + [k[-1] + 1]
            self.ev.append(e)
        else:
            self.add(e, max(self.f[i - 1][0] for i in fs), "pw")

    def lin(self):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        ext = r.randint(0, 1)
        x, y = [], []
        for i in range(n):
            if not x:
                x.append(r.randint(-3, 1))
                y.append(r.randint(-3, 3))
                continue
            k = r.random()
            if k < .12:                                        # the same pair again
                x.append(x[-1])
                y.append(y[-1])
            elif k < .27 and len(set(x)) > 1 and i < n - 1:     # a step
                x.append(x[-1])
                y.append(y[-1] + r.choice([-2, -1, 1, 2]))
            else:
                x.append(x[-1] + r.choice([1, 1, 2]))
                y.append(y[-1] + r.randint(-2, 2) * (x[-1] - x[-2]))
        if x[-1] == x[-2:][0] and len(x) > 1 and y[-1] != y[-2]:
            ext = 0
        k = r.random()
        e = dict(op="lin", x=x, y=y, ext=ext, ds=r.randint(0, 1))
        if k < .04 and x[0] != x[-1]:
            e.update(x=x[::-1], ds=0)
            self.ev.append(e)
        elif k < .07:
            e.update(y=y + [1], ds=0)
            self.ev.append(e)
        else:
            self.add(e, 1, "pw" if len(set(zip(x, y))) > 1 or not ext else "gen")

    def mul(self):
        r = self.r
        a, b = r.randrange(len(self.f)), r.randrange(len(self.f))
        d = self.f[a][0] + self.f[b][0]
        if d <= 4:
            ka, kb = self.f[a][1], self.f[b][1]
            k = "pw" if "pw" in (ka, kb) else "poly" if (ka, kb) == ("poly", "poly") else "prod"
            self.add(dict(op="mul", a=a + 1, b=b + 1), d, k)

    def build(self):
        r = self.r
        k = r.random()
        if k < .2:
            self.poly()
        elif k < .28:
            self.poly(ad=True)
        elif k < .5:
            self.pw()
        elif k < .7:
            self.lin()
        elif self.f and k < .92:
            self.mul()
        elif self.f:
            a = r.randrange(len(self.f))
            if self.f[a][1] == "poly":
                self.ev.append(dict(op="der", a=a + 1))
                self.f.append((max(0, self.f[a][0] - 1), "poly"))
            else:
                self.add(dict(op="cl", a=a + 1), *self.f[a])

    def ask(self, all_points=False):
        r = self.r
        if not self.f:
            return
        a = r.randrange(len(self.f))
        k = r.random()
        if k < .5:
            qs = range(-8, 9) if r.random() < .3 else [r.randint(-9, 9) for _ in range(3)]
            for q in qs:
                self.ev.append(dict(op="ev", a=a + 1, q=q))
        elif k < .9:
            for _ in range(3):
                self.ev.append(dict(op="int", a=a + 1, p=r.randint(-8, 8), q=r.randint(-8, 8)))
        elif self.f[a][1] == "poly":
            self.ev.append(dict(op="prim", a=a + 1, p=r.randint(-6, 6), q=r.randint(-6, 6)))


def numeric_case(r):
    ev = [dict(op="new")]
    while True:
        c = [r.randint(-3, 3) for _ in range(r.randint(1, 3))]
        p, q = r.randint(-6, 6), r.randint(-6, 6)
        v = sum(x * (q ** (i + 1) - p ** (i + 1)) / (i + 1) / 2 ** (i + 1) for i, x in enumerate(c))
        if abs(v) > .2:
            break
    ev.append(dict(op=r.choice(["ad", "poly"]), c=c))
    ev.append(dict(op="num", a=1, p=p, q=q, order=r.choice([1, 2, 3, 3, 4, 5])))
    ev.append(dict(op="simpson", a=1, p=p, q=q, order=r.choice([2, 3, 4, 5, 6]), rec=r.randint(0, 1)))
    ev.append(dict(op="diff", a=1, q=r.randint(-6, 6), n=r.randint(1, 2)))
    a, b = r.choice([-2, -1, 1, 2, 0]), r.randint(-3, 3)
    y = r.randint(-5, 5)
    if a:
        r1, r2 = sorted([r.randint(-4, 4), r.randint(-4, 4)])
        if r.random() < .15:        # a (x-r)^2 + a: no root at 0
            ev.append(dict(op="sq", a=a, b=-2 * a * r1, c=a * r1 * r1 + a * r.randint(1, 5) + y, y=y, kind="none", r1=0, r2=0))
        else:
            ev.append(dict(op="sq", a=a, b=-a * (r1 + r2), c=a * r1 * r2 + y, y=y, kind="ok", r1=r1, r2=r2))
    elif b:
        x = r.randint(-5, 5)
        ev.append(dict(op="sq", a=0, b=b, c=y - b * x, y=y, kind="ok", r1=x, r2=x))
    else:
        ev.append(dict(op="sq", a=0, b=0, c=1, y=y, kind="bad", r1=0, r2=0))
    return ev


def interp_case(r, op):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8] * 5 + [25])
    if op == "spl":
        n = r.choice([1, 2, 3, 3, 4, 5, 7])
    x, y = [], []
    how = r.randint(0, 2) if op == "linv" else r.randint(0, 1)
    ext = r.randint(0, 1)
    for i in range(n):
        if x and r.random() < .08 and not (how == 2 and ext):
            x.append(x[-1])
            y.append(y[-1])
        else:
            x.append((x[-1] + r.choice([1, 1, 2, 3, 5])) if x else r.randint(-8, 3))
            y.append(r.randint(-20, 20))
    k = r.random()
    if how != 2 and k < .05:
        x[r.randrange(n)] -= 30 if n > 1 else 0
        how = 0
    elif k < .08:
        y.append(3)
        how = 0 if how == 1 else how
    elif k < .1:
        x, y = [], []
        how = 0 if how == 1 else how
    elif op == "spl" and k < .15:
        i = r.randrange(len(x))
        x.insert(i, x[i])
        y.insert(i, y[i] + 1)
    e = dict(op=op, x=x, y=y, ext=ext, how=how)
    if op == "linv":
        lo, hi = (min(x), max(x)) if x else (0, 1)
        e["qs"] = list(range(2 * lo - 3, 2 * hi + 4)) if hi - lo < 12 else [r.randint(2 * lo - 5, 2 * hi + 5) for _ in range(12)] + [2 * v for v in x]
    return e


def p24(ctx):
    exe = build_fn(ctx)
    r = ctx.rng
    depth = ctx.pick(5, 6)
    cfg = "SPECIFICATION Spec\nINVARIANT Additive ProductLaw PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Emit = %s\n"
    cases = []
    for h in ctx.gen("MCFn", cfg % (ctx.pick(4, 5), "TRUE"), workers=8):
        ev = [dict(op="new")]
        n = 0
        for e in h:
            ev.append(e)
            n += 1
        for q in range(-5, 6):
            ev.append(dict(op="ev", a=n, q=q))
        for p, q in [(-6, 6), (6, -6), (-1, 1), (0, 4), (1, 2), (2, 2), (-4, -1), (3, -3)]:
            ev.append(dict(op="int", a=n, p=p, q=q))
        cases.append(ev)
    ctx.conform(exe, cases, "TrFn", "functions built by the specification")
    cases = []
    for _ in range(ctx.pick(8000, 80000)):
        m = Fns(r)
        for _ in range(r.randint(3, 9)):
            m.build()
        for _ in range(r.randint(2, 5)):
            m.ask()
        cases.append(m.ev)
    ctx.conform(exe, cases, "TrFn", "random functions, products and integrals")
    cases = [[dict(op="new"), interp_case(r, "linv"), interp_case(r, "spl"), interp_case(r, "spl")] for _ in range(ctx.pick(12000, 120000))]
    ctx.conform(exe, cases, "TrFn", "interpolation of random data")
    ctx.conform(exe, [numeric_case(r) for _ in range(ctx.pick(4000, 40000))], "TrFn", "numerical schemes")
    ctx.assumptions += ["arguments, knots and coefficients are small integers or half integers, so that the specification computes exactly; results are compared to 0.001",
                        "no step at an extrapolated end", "at a knot of a product either one-sided value is accepted", "piecewise functions have at least two knots"]


# driver type -> discrete bits, in the order of the arguments; from 11 on: interpn, with the axes in the order of the array
GT = {1: [0], 2: [0, 0], 3: [0, 0, 0], 4: [1], 5: [0, 1], 6: [1, 0], 7: [1, 0, 1], 8: [0, 1, 0], 9: [0, 0], 10: [0, 0, 1, 0], 11: [0], 12: [0, 0], 13: [0, 0, 0], 14: [0] * 4}


def grid_case(r):
    ev = [dict(op="new")]
    t = r.choice(list(GT))
    disc = GT[t]
    n = len(disc)
    kn = []
    for d in disc:
        m = r.choice([1, 1, 2, 2, 3, 4]) if n > 2 else r.choice([1, 2, 3, 4, 6])
        if d:
            k = r.sample(range(-9, 10), m)
        else:
            k = [r.randint(-6, 4)]
            while len(k) < m:
                k.append(k[-1] + r.choice([1, 1, 2, 4] if n > 2 else [1, 2, 3, 5]))
        kn.append(k)
    sh = [len(k) for k in kn]
    rev = int(t < 11)
    sh = sh[::-1] if rev else sh
    tot = 1
    for s in sh:
        tot *= s
    e = dict(op="grid", t=t, kn=kn, ext=r.randint(0, 1), rev=rev, disc=disc, cubic=0)
    x = r.random()
    if x < .03:
        sh = sh + [1]
    elif x < .06 and n > 1 and len(set(sh)) > 1:
        sh = sh[::-1] if sh != sh[::-1] else sh[1:] + sh[:1]
    elif x < .09:
        a = r.randrange(n)
        if not disc[a] and len(kn[a]) > 1:
            kn[a] = kn[a][1:] + kn[a][:1]
    elif x < .11:
        i = r.randrange(len(sh))
        sh = sh[:i] + [sh[i] + 1] + sh[i + 1:]
    elif x < .13 and t > 10:
        e["cubic"] = 1
    tot = 1
    for s in sh:
        tot *= s
    e.update(sh=sh, vals=[r.randint(-20, 20) for _ in range(tot)])
    ev.append(e)
    want = sh[::-1] if rev else sh
    if want != [len(k) for k in kn] or e["cubic"] or any(not d and k != sorted(k) for d, k in zip(disc, kn)):
        return ev
    if r.random() < .3:
        ev.append(dict(op="cp", g=1))
    for g in range(1, len(ev) - 0 if ev[-1]["op"] == "cp" else 2):
        qs = []
        for _ in range(r.choice([3, 6, 12])):
            q = []
            for d, k in zip(disc, kn):
                if d:
                    q.append(2 * (r.choice(k) if r.random() < .9 else r.randint(-12, 12)))
                else:
                    q.append(r.choice([2 * r.choice(k), r.randint(2 * k[0], 2 * k[-1]), r.randint(2 * k[0], 2 * k[-1]), 2 * k[0] - r.randint(1, 3), 2 * k[-1] + r.randint(1, 3)]))
            qs.append(q)
        ev.append(dict(op="at", g=min(g, 2), qs=qs))
    return ev


def p25(ctx):
    exe = ctx.build("interpn", "d_interpn.cpp", ["MathUtils/src/lib/function/", "MathUtils/src/lib/interpolation/", "XYDataset/src/lib/XYDataset.cpp", "NdArray/src/"])
    r = ctx.rng
    ty = {(0, 0, 1): 2, (0, 1, 1): 5, (1, 0, 1): 6, (0, 0, 0): 12}
    cases = []
    hs = ctx.gen("MCGridInterp", "SPECIFICATION Spec\nINVARIANT Corner Between PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Emit = TRUE\n Vs = %s\n" % ctx.pick("{2, 5}", "{0, 2, 5}"), workers=8)
    for h in hs:
        e = h[0]
        t = ty.get((e["disc"][0], e["disc"][1], e["rev"]))
        if t is None:
            continue
        if len(e["vals"]) == 9 and r.random() < .7:
            continue
        ev = [dict(op="new"), dict(e, t=t)]
        qa = [[2 * k for k in kn] + [-1, 20] if d else list(range(2 * kn[0] - 2, 2 * kn[-1] + 3)) for kn, d in zip(e["kn"], e["disc"])]
        qa = [[q - q % 2 for q in x] if d else x for x, d in zip(qa, e["disc"])]
        ev.append(dict(op="at", g=1, qs=[[a, b] for a in qa[0] for b in qa[1]]))
        cases.append(ev)
    ctx.conform(exe, cases, "TrGridInterp", "grids of the specification, all half points")
    ctx.conform(exe, [grid_case(r) for _ in range(ctx.pick(25000, 250000))], "TrGridInterp", "random grids with one to four axes")
    ctx.assumptions += ["knots of a continuous axis are distinct, no axis is empty", "knots, values and arguments are small integers or half integers; results are compared to 0.001"]


def build_pdf(ctx):
    return ctx.build("pdf", "d_pdf.cpp", ["MathUtils/src/lib/PDF/", "MathUtils/src/lib/function/", "MathUtils/src/lib/interpolation/", "MathUtils/src/lib/helpers/",
                                          "XYDataset/src/lib/XYDataset.cpp", "NdArray/src/"])


MCPDF = "SPECIFICATION Spec\nINVARIANT ModeLaw IntervalLaw PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n M = %d\n Emit = TRUE\n"


def pdf_x(n):
    return [i + i // 3 for i in range(1, n + 1)]


def xs(r, n, steps, lo=-9, hi=9):
    x = [r.randint(lo, hi)]
    while len(x) < n:
        x.append(x[-1] + r.choice(steps))
    return x[:n]


def total2(r, n, m):
    """values with a total that is a power of two"""
    while True:
        y = [r.choice([0, r.randint(0, m)]) for _ in range(n)]
        t = sum(y)
        for i in r.sample(range(n), n):
            for v in range(m + 1):
                u = t - y[i] + v
                if u and not u & (u - 1):
                    y[i] = v
                    return y


def cum_case(r):
    ev = [dict(op="new")]
    n, pow2 = 0, []
    for _ in range(r.randint(2, 9)):
        k = r.random()
        if not n or k < .25:
            m = r.choice([1, 2, 3, 4, 5, 8, 12])
            x = xs(r, m, [1, 1, 2, 5])
            p2 = r.random() < .5
            y = total2(r, m, 5) if p2 else [r.choice([0, r.randint(0, 6)]) for _ in range(m)]
            if not sum(y):
                y[r.randrange(m)] = 3
            pdf = r.randint(0, 1)
            if not pdf:
                y = [sum(y[:i + 1]) for i in range(m)]
            e = dict(op="cum", x=x, y=y, pdf=pdf, ds=r.randint(0, 1))
            if r.random() < .05:
                e["x"] = x + [x[-1] + 1]
                ev.append(e)
                continue
            ev.append(e)
            pow2.append(p2)
            n += 1
        elif k < .32:
            g = r.randint(1, n)
            ev.append(dict(op="cp", g=g, how=r.randint(0, 3)))
            pow2.append(pow2[g - 1])
            n += 1
        elif k < .4:
            g = r.randint(1, n)
            if pow2[g - 1]:
                ev.append(dict(op="norm", g=g))
        else:
            g = r.randint(1, n)
            for _ in range(3):
                ev.append(dict(op="fv", g=g, k=r.randint(-1, 17) if r.random() < .2 else r.randint(0, 16), pos=r.randint(0, 2)))
            ev.append(dict(op="ci", g=g, k=2 * r.randint(0, 9)))
            ev.append(dict(op="mi", g=g, k=r.randint(0, 17)))
    return ev


def inv_case(r):
    ev = [dict(op="new")]
    m = r.choice([1, 2, 2, 3, 4, 5, 7])
    off = r.choice([0, 0, 0, 500, -900])
    x = [v + off for v in xs(r, m, [1, 1, 2, 4])]
    p = [r.choice([0, 0, r.randint(0, 5), r.randint(0, 5)]) for _ in range(m)]
    if r.random() < .04:
        p = p + [1] if r.random() < .5 else p[:-1]
    elif r.random() < .04 and m > 1:
        x = x[1:] + x[:1]
    eps = r.random() < .25
    for k in ([r.randint(0, 15)] if eps else range(0, 17) if r.random() < .3 else [r.randint(-1, 17), 0, 16, 8]):
        ev.append(dict(op="icc", x=x, p=p, k=k, eps=int(eps), fl=int(r.random() < .3 and not eps)))
    m = r.choice([1, 2, 3, 4, 6, 9])
    x = r.sample(range(-99, 99), m)
    p = total2(r, m, 6)
    if r.random() < .04:
        p = p + [1] if r.random() < .5 else p[:-1]
    for k in range(-1, 18):
        ev.append(dict(op="icd", x=x, p=p, k=k, fl=r.randint(0, 1)))
    return ev


def sample_case(r):
    ev = [dict(op="new")]
    t = r.randint(0, 4)
    c1, c2 = int(t in (1, 4)), int(t == 2)
    n1, n2 = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4])
    k1 = xs(r, n1, [1, 2, 3]) if c1 else r.sample(range(-20, 21), n1)
    k2 = xs(r, n2, [1, 2, 3]) if c2 else r.sample(range(-20, 21), n2)
    vals = [r.choice([0, r.randint(0, 5), r.randint(1, 5)]) for _ in range(n1 * n2)]
    if not any(vals):
        vals[0] = 1
    # a marginal that is zero gives no value of its own
    for j in range(n2):
        row = vals[j * n1:(j + 1) * n1]
        if not any(row):
            vals[j * n1 + r.randrange(n1)] = 1
    sh, bad = [n2, n1], 0
    if r.random() < .05:
        bad, sh = 1, [n2 * n1]
    elif r.random() < .05 and n1 != n2:
        bad, sh = 1, [n1, n2]
    how = r.choice([0, 1]) if bad else r.choice([0, 1, 2, 3, 4, 5, 6, 7])
    if how >= 6:            # the positions in the cell are the knots
        if t not in (0, 2):
            how -= 2
        else:
            k1 = list(range(n1))
    for k in [r.randrange(1, 64, 2) for _ in range(4)]:
        ev.append(dict(op="nds", t=t, k1=k1, k2=k2, sh=sh, vals=vals, cont1=c1, cont2=c2, k=k, draws=r.randint(1, 2), how=how, bad=bad))
    return ev


def p26(ctx):
    exe = build_pdf(ctx)
    r = ctx.rng
    n = ctx.pick(5, 7)
    cases = []
    for y in ctx.gen("MCPdf", MCPDF % (n, 2), workers=8):
        x = pdf_x(n)
        ev = [dict(op="new"), dict(op="cum", x=x, y=y, pdf=1, ds=0)]
        ev += [dict(op="fv", g=1, k=k, pos=p) for k in (0, 1, 5, 8, 16) for p in range(3)]
        ev += [dict(op="mi", g=1, k=k) for k in (1, 4, 8, 12, 16)] + [dict(op="ci", g=1, k=k) for k in (2, 8, 16)]
        ev += [dict(op="icc", x=x, p=y, k=k, eps=0, fl=0) for k in (0, 1, 4, 8, 11, 16)]
        s = sum(y)
        if not s & (s - 1):
            ev += [dict(op="icd", x=x, p=y, k=k, fl=0) for k in range(0, 17)]
        cases.append(ev)
    ctx.conform(exe, cases, "TrPdf", "distributions of the specification")
    ctx.conform(exe, [cum_case(r) for _ in range(ctx.pick(8000, 80000))], "TrPdf", "random cumulative distributions")
    ctx.conform(exe, [inv_case(r) for _ in range(ctx.pick(8000, 80000))], "TrPdf", "inverse cumulative distributions")
    ctx.conform(exe, [sample_case(r) for _ in range(ctx.pick(8000, 80000))], "TrPdf", "samplers with two axes")
    ctx.assumptions += ["samples, knots and densities are small integers, probabilities multiples of 1/16 (samplers: odd multiples of 1/64); results of continuous axes are compared to 0.01",
                        "at a marginal boundary of a sampler either neighbour is accepted"]


def mode_case(r):
    n = r.choice([2, 2, 3, 4, 6, 9, 14] * 5 + [40])
    x = xs(r, n, [1, 1, 1, 2, 3])
    m = r.choice([1, 2, 4, 9])
    y = [r.choice([0, r.randint(0, m), r.randint(0, m), r.randint(0, m)]) for _ in range(n)]
    ev = [dict(op="new")]
    for _ in range(2):
        ev.append(dict(op="modes", x=x, y=y, k=r.randint(0, 8), n=r.choice([0, 1, 1, 2, 3, 5]), kind=r.randint(0, 1), ds=r.randint(0, 1)))
    return ev


def p27(ctx):
    exe = build_pdf(ctx)
    r = ctx.rng
    n = ctx.pick(6, 7)
    x = pdf_x(n)
    cases = []
    for y in ctx.gen("MCPdf", MCPDF % (n, 3), workers=8):
        cases.append([dict(op="new")] + [dict(op="modes", x=x, y=y, k=k, n=m, kind=kd, ds=0) for k, m, kd in [(0, 2, 0), (3, 9, 0), (6, 1, 1), (4, 2, 1)]])
    ctx.conform(exe, cases, "TrPdf", "densities of the specification")
    ctx.conform(exe, [mode_case(r) for _ in range(ctx.pick(25000, 250000))], "TrPdf", "random densities")
    ctx.assumptions += ["positions are integers, densities non-negative integers, at least two samples; positions are compared to 0.001"]


CHECKS = dict(P24=p24, P25=p25, P26=p26, P27=p27)
