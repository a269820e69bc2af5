"""P11-P13: GridContainer."""
SRC = ["Table/src/lib/", "XYDataset/src/lib/QualifiedName.cpp"]
QUOTED = ["-include", "boost/io/quoted.hpp"]
TYPES = {1: 1, 2: 2, 3: 3, 4: 4, 5: 2, 6: 3, 7: 2}
QNCOL = {1: ["axis_0"], 2: ["axis_1", "axis_0"], 3: ["axis_2", "axis_1", "axis_0"], 4: ["axis_3", "axis_2", "axis_1", "axis_0"]}


class Model:
    """Enough of the state to generate events that make sense (no judgement here)."""

    def __init__(self, rng, t=None, maxn=60):
        self.rng = rng
        self.t = t or rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
        self.n = TYPES[self.t]
        self.g, self.it, self.ev = [], [], [dict(op="new", nm=0)]
        self.maxn = maxn
        self.fixing = True

    def add(self, **e):
        self.ev.append(e)

    def grid(self):
        r = self.rng
        while True:
            sh = [r.choice([1, 2, 3, 4, 5, 7]) if self.n < 4 else r.choice([1, 2, 2, 3]) for _ in range(self.n)]
            if r.random() < .03:
                sh[r.randrange(self.n)] = 0
            p = 1
            for s in sh:
                p *= s
            if p <= self.maxn:
                break
        kn = [sorted(r.sample(range(-20, 60), s)) for s in sh]
        if r.random() < .15:
            for k in kn:
                r.shuffle(k)
            self.sorted = False
        if r.random() < .1 and any(len(k) > 1 for k in kn):      # a repeated knot
            k = r.choice([k for k in kn if len(k) > 1])
            k[1] = k[0]
        self.add(op="grid", kn=kn, t=self.t, tp=r.randint(0, 1))
        self.g.append(dict(kn=kn, fix=[None] * self.n, alive=True, srt=all(k == sorted(k) for k in kn), tot=p, slice=False))
        return len(self.g)

    def alive(self):
        return [i + 1 for i, g in enumerate(self.g) if g["alive"]]

    def sizes(self, h):
        g = self.g[h - 1]
        return [1 if f is not None else len(k) for f, k in zip(g["fix"], g["kn"])]

    def slice(self, h=None):
        r = self.rng
        h = h or r.choice(self.alive())
        g = self.g[h - 1]
        free = [a for a in range(self.n) if g["fix"][a] is None]
        a = r.choice(free) if free and r.random() < .9 else r.randrange(self.n)
        k = g["kn"][a]
        if r.random() < .5:
            x, by = r.choice(list(range(len(k))) * 3 + [len(k), len(k) + 3]), "i"
            idx = x
        else:
            x, by = r.choice(k + k + k + [99]) if k else 99, "v"
            idx = k.index(x) if x in k else 1000
        self.add(op="slice", g=h, ax=a + 1, by=by, x=x, c=r.randint(0, 1))
        if idx < len(k) and g["fix"][a] is None:
            f = list(g["fix"])
            f[a] = idx
            self.g.append(dict(g, fix=f, slice=True))
            return len(self.g)

    def coords(self, h, bad=True):
        r = self.rng
        c = [r.randrange(s) if s else 0 for s in self.sizes(h)]
        if bad and r.random() < .15:
            a = r.randrange(self.n)
            c[a] = self.sizes(h)[a] + r.choice([0, 0, 1, 5])
        return c

    def access(self):
        r = self.rng
        h = r.choice(self.alive())
        k = r.random()
        sz = self.sizes(h)
        if k < .25:
            self.add(op="all", g=h, how=r.randint(0, 2))
        elif k < .4:
            self.add(op="axes", g=h)
        elif k < .65:
            c = self.coords(h)
            ok = all(x < s for x, s in zip(c, sz))
            self.add(op="at", g=h, c=c, how=r.choice([0, 2, 1, 3]) if ok else r.choice([0, 2]))
        elif k < .85:
            c = self.coords(h)
            ok = all(x < s for x, s in zip(c, sz))
            self.add(op="put", g=h, c=c, x=r.randint(100, 999), how=r.randint(0, 1) if ok else 0)
        elif k < .9:
            self.add(op="fill", g=h, x=r.randint(1000, 2000))
        elif self.g[h - 1]["srt"] and all(sz) and self.t not in (3, 7):        # qualified names are ordered by their hashes
            c = []
            for a, kn in enumerate(self.g[h - 1]["kn"]):
                c.append(r.choice([r.choice(kn), r.randint(-25, 65), kn[0] - 1, kn[-1] + 1, r.choice(kn) + r.choice([-1, 1])]))
            self.add(op="inf", g=h, c=c, tp=r.randint(0, 1))

    # the iterators are tracked with the same rule as the specification, to know where they end
    def shape(self, h):
        return [len(k) for k in self.g[h - 1]["kn"]]

    def frm(self, h, p, fix):
        sh, n = self.shape(h), self.g[h - 1]["tot"]
        while p < n:
            q, ok = p, True
            for a, s in enumerate(sh):
                if fix[a] is not None and q % s != fix[a]:
                    ok = False
                    break
                q //= s
            if ok:
                return p
            p += 1
        return n

    def iterate(self):
        r = self.rng
        k = r.random()
        live = [i for i in range(len(self.it)) if self.g[self.it[i]["g"] - 1]["alive"]]
        if not live or k < .12 and len(self.it) < 6:
            h = r.choice(self.alive())
            how = r.choice([0, 0, 1, 2])
            self.add(op="it", g=h, how=how)
            f = self.g[h - 1]["fix"]
            self.it.append(dict(g=h, how=min(how, 1), fix=list(f), pos=self.frm(h, 0, f), fin=False))
            return
        i = r.choice(live)
        q = self.it[i]
        n = self.g[q["g"] - 1]["tot"]
        if k < .45:
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                if q["pos"] < n:
                    self.add(op="next", i=i + 1)
                    q["pos"] = self.frm(q["g"], q["pos"] + 1, q["fix"])
        elif k < .7 and self.fixing:
            a = r.randrange(self.n)
            kn = self.g[q["g"] - 1]["kn"][a]
            if r.random() < .5:
                x, by = r.choice(list(range(len(kn))) * 4 + [len(kn)]), "i"
                idx = x
            else:
                x, by = r.choice(kn * 4 + [99]), "v"
                idx = kn.index(x) if x in kn else 1000
            self.add(op="fix", i=i + 1, ax=a + 1, by=by, x=x)
            if idx < len(kn) and q["fix"][a] in (None, idx):
                q["fix"][a] = idx
                q["pos"] = self.frm(q["g"], q["pos"], q["fix"])
        elif k < .76:
            self.add(op="rest", i=i + 1)
        elif k < .82 and len(self.it) < 6:
            self.add(op="cp", i=i + 1)
            self.it.append(dict(q, fix=list(q["fix"])))
        elif k < .86:
            js = [j for j in live if self.it[j]["g"] == q["g"] and self.it[j]["how"] == q["how"]]
            j = r.choice(js)
            if r.random() < .5:
                self.add(op="eq", i=i + 1, j=j + 1)
            elif j != i:
                self.add(op="asg", i=i + 1, j=j + 1)
                self.it[i] = dict(self.it[j], fix=list(self.it[j]["fix"]))
        elif k < .9:
            if q["how"] == 0 and q["pos"] < n:
                self.add(op="wr", i=i + 1, x=r.randint(100, 999))
        elif k < .95:
            free = [a for a in range(self.n) if self.g[q["g"] - 1]["fix"][a] is None]
            if free and q["pos"] < n:
                self.add(op="idx", i=i + 1, ax=r.choice(free) + 1)
        else:
            # fixAllAxes: from another iterator that stands on a cell, to a fresh one at or before it
            js = [j for j in live if self.g[self.it[j]["g"] - 1]["kn"] == self.g[q["g"] - 1]["kn"] and self.it[j]["pos"] < self.g[self.it[j]["g"] - 1]["tot"]]
            if js and self.fixing and all(f is None for f in q["fix"]):
                j = r.choice(js)
                kn = self.g[q["g"] - 1]["kn"]
                if all(len(set(k)) == len(k) for k in kn):
                    self.add(op="fixall", i=i + 1, j=j + 1)
                    p, f = self.it[j]["pos"], []
                    for s in self.shape(q["g"]):
                        f.append(p % s)
                        p //= s
                    q["fix"] = f
                    q["pos"] = self.frm(q["g"], q["pos"], f)

    def move(self):
        h = self.rng.choice(self.alive())
        self.add(op="move", g=h)
        self.g.append(dict(self.g[h - 1]))
        self.g[h - 1]["alive"] = False

    def arch(self):
        r = self.rng
        hs = [r.choice(self.alive()) for _ in range(r.choice([1, 1, 2, 3]))]
        self.add(op="arch", gs=hs, text=r.randint(0, 2 if self.t in (1, 2, 3, 4) and all(all(self.g[h - 1]["kn"]) for h in hs) else 1))
        for h in hs:
            g = self.g[h - 1]
            kn = [k if f is None else [k[f]] for k, f in zip(g["kn"], g["fix"])]
            tot = 1
            for k in kn:
                tot *= len(k)
            self.g.append(dict(kn=kn, fix=[None] * self.n, alive=True, srt=g["srt"], tot=tot, slice=False))

    def table(self):
        hs = [h for h in self.alive() if all(self.sizes(h))]
        if hs:
            self.add(op="table", g=self.rng.choice(hs), cn=QNCOL[self.n] + ["value"])


def gen(ctx, shape, depth, emit, ops):
    cfg = "SPECIFICATION Spec\nINVARIANT SliceSound IterSound PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Shape = <<%s>>\n Depth = %d\n Emit = %s\n Ops = {%s}\n" % (
        ",".join(map(str, shape)), depth, "TRUE" if emit else "FALSE", ",".join('"%s"' % o for o in ops))
    return cfg


def spec_cases(ctx, shape, depth, ops, tail):
    """Every history of the specification, with the fields only the driver needs."""
    body = gen(ctx, shape, depth, True, ops)
    cases = []
    t = {1: 1, 2: 2, 3: 3, 4: 4}[len(shape)]
    mod = "---- MODULE MCGridRun ----\nEXTENDS MCGrid\nSh == <<%s>>\n====\n" % ",".join(map(str, shape))
    open(ctx.specdir + "/MCGridRun.tla", "w").write(mod)
    body = body.replace("Shape = <<%s>>" % ",".join(map(str, shape)), "Shape <- Sh")
    for h in ctx.gen("MCGridRun", body, workers=8):
        ev, g, it = [dict(op="new", nm=0)], 0, 0
        for e in h:
            if e["op"] == "grid":
                ev.append(dict(e, t=t, tp=0))
                g = 1
            elif e["op"] == "it":
                ev.append(dict(e, how=len(ev) % 3))
            elif e["op"] == "slice":
                ev.append(dict(op="slice", g=e["g"], ax=e["ax"], by=e["by"], x=e["x"], c=len(ev) % 2))
            elif e["op"] == "fix":
                ev.append(dict(op="fix", i=e["i"], ax=e["ax"], by=e["by"], x=e["x"]))
            else:
                ev.append(e)
        cases.append(ev + tail(h))
    return cases


def build(ctx):
    return ctx.build("grid", "d_grid.cpp", SRC, repo_flags=QUOTED)


def p11(ctx):
    exe = build(ctx)
    rng = ctx.rng
    cases = []
    for sh in [[3], [1], [2, 3], [3, 1], [2, 2, 2], [1, 3, 2], [2, 1, 2, 2]]:
        cases += spec_cases(ctx, sh, 4 if len(sh) < 3 else 3, ["it", "next"], lambda h: [dict(op="rest", i=1), dict(op="all", g=1, how=0)] if len(h) > 1 else [])
    import itertools
    for d, m in ((1, 5), (2, 3), (3, 3), (4, 2)):
        for sh in itertools.product(range(1, m + 1), repeat=d):
            ev = []
            for c in itertools.product(*[range(s + 1) for s in sh]):
                ev.append(dict(op="help", sh=list(sh), c=list(c)))
            cases.append(ev)
    ctx.conform(exe, cases, "TrGrid", "iterations and index arithmetic of the specification")
    cases = []
    for _ in range(ctx.pick(6000, 60000)):
        m = Model(rng)
        m.fixing = False                 # slices and fixed axes are P12
        m.grid()
        for _ in range(rng.randint(4, 14)):
            k = rng.random()
            if k < .55:
                m.access()
            elif k < .93:
                m.iterate()
            elif k < .96:
                m.grid()
            else:
                m.move()
        cases.append(m.ev)
    ctx.conform(exe, cases, "TrGrid", "random cells, axes and iterators")
    cases = []
    for _ in range(ctx.pick(3000, 20000)):
        a = [rng.randint(0, 3) for _ in range(rng.randint(0, 4))]
        b = list(a)
        if rng.random() < .6:
            b = rng.choice([a[:-1], a + [1], [rng.randint(0, 3) for _ in a]])
        sh = [rng.randint(1, 9) for _ in range(rng.randint(1, 4))]
        cases.append([dict(op="axeq", a=a, b=b, t=rng.randint(0, 1)), dict(op="help", sh=sh, c=[rng.randint(0, s) if rng.random() < .2 else rng.randrange(s) for s in sh])])
    ctx.conform(exe, cases, "TrGrid", "equality of axes, index helper")
    ctx.assumptions += ["an iterator is not moved beyond the end", "a grid that was moved from is not used", "infimum is asked of sorted axes"]


def p12(ctx):
    exe = build(ctx)
    rng = ctx.rng
    cases = []

    def tail(h):
        g = 1 + sum(e["op"] == "slice" for e in h)
        return [dict(op="rest", i=1)] if any(e["op"] == "it" for e in h) else []
    for sh, d in [([2, 3], ctx.pick(5, 6)), ([3, 2], 5), ([2, 2, 2], ctx.pick(4, 5))]:
        cases += spec_cases(ctx, sh, d, ["slice", "it", "next", "fix"], tail)
    if len(cases) > ctx.pick(60000, 10 ** 9):
        rng.shuffle(cases)
        cases = cases[:ctx.pick(60000, 10 ** 9)]
    ctx.conform(exe, cases, "TrGrid", "histories of the specification")
    cases = []
    for sh in [[3, 2], [2, 2, 2], [1, 3, 2], [2, 2, 2, 2]]:
        # every slice of every slice: axes, cells, access and search
        import itertools
        t = len(sh)
        for order in itertools.permutations(range(t)):
            for idx in itertools.product(*[range(s) for s in sh]):
                ev = [dict(op="new", nm=0), dict(op="grid", kn=[[4 * i for i in range(s)] for s in sh], t=6 if t == 3 else t, tp=0)]
                for k, a in enumerate(order):
                    ev.append(dict(op="slice", g=k + 1, ax=a + 1, by="i", x=idx[a], c=0))
                    ev.append(dict(op="axes", g=k + 2))
                    ev.append(dict(op="all", g=k + 2, how=0))
                    ev.append(dict(op="inf", g=k + 2, c=[5] * t, tp=0))
                    ev.append(dict(op="slice", g=k + 2, ax=a + 1, by="i", x=idx[a], c=0))
                ev.append(dict(op="put", g=t, c=[0 if a != order[-1] else idx[a] for a in range(t)], x=500, how=0))
                ev.append(dict(op="all", g=1, how=0))
                cases.append(ev)
    ctx.conform(exe, cases, "TrGrid", "all slices of slices")
    cases = []
    for _ in range(ctx.pick(9000, 90000)):
        m = Model(rng)
        m.grid()
        for _ in range(rng.randint(5, 18)):
            k = rng.random()
            if k < .3:
                m.slice()
            elif k < .55:
                m.access()
            elif k < .97:
                m.iterate()
            else:
                m.move()
        cases.append(m.ev)
    ctx.conform(exe, cases, "TrGrid", "random slices and fixed iterators")
    ctx.assumptions += ["an iterator is not moved beyond the end", "the axis index of a fixed axis of a slice is not asked of its iterators"]


def p13(ctx):
    exe = build(ctx)
    rng = ctx.rng
    ctx.mc("MCGridRun", run_cfg(ctx, [2, 2, 2], 4))
    cases = []
    for _ in range(ctx.pick(7000, 70000)):
        m = Model(rng, t=rng.choice([1, 2, 3, 4, 7]))
        nm = m.ev[0]['nm'] = rng.choice([0, 0, 1])
        m.grid()
        for _ in range(rng.randint(2, 9)):
            k = rng.random()
            if k < .25:
                m.slice()
            elif k < .5:
                m.access()
            elif k < .7:
                m.arch()
            elif k < .8:
                if not nm:
                    m.table()
            elif k < .9:
                m.iterate()
            else:
                m.grid()
            if len(m.g) > 9:
                break
        for h in m.alive():
            m.add(op="all", g=h, how=1)
            m.add(op="axes", g=h)
        cases.append(m.ev)
    ctx.conform(exe, cases, "TrGrid", "archives and tables of grids and slices")
    ctx.assumptions += ["cells are numbers or objects without default constructor, knots numbers, strings or qualified names", "FITS archives through an in-memory stand-in for CCfits"]


def run_cfg(ctx, shape, depth):
    open(ctx.specdir + "/MCGridRun.tla", "w").write("---- MODULE MCGridRun ----\nEXTENDS MCGrid\nSh == <<%s>>\n====\n" % ",".join(map(str, shape)))
    return gen(ctx, shape, depth, False, ["slice", "it", "next", "fix"]).replace("Shape = <<%s>>" % ",".join(map(str, shape)), "Shape <- Sh")


CHECKS = dict(P11=p11, P12=p12, P13=p13)
