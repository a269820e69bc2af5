"""P28: Histogram."""
import struct


def frame(r):
    ty = r.choice([0, 0, 1, 2])
    kind = r.randint(0, 2)
    u = 1 if ty == 2 else 4
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16])
    if kind == 0 and r.random() < .05:
        n = 70
    lo = r.randint(-5 * u, 3 * u)
    hi = lo + r.choice([0, 1, 2, 3, 5, 8, 4 * u, 6 * u, 8 * u, 30 if ty == 2 else 8])
    x = [r.randint(lo, hi) for _ in range(n)]
    if r.random() < .3 and n > 2:
        x[0], x[1] = lo, hi
    ed = []
    if kind == 0:
        ed = sorted(r.choice([r.randint(lo - 1, hi + 1), r.randint(lo, hi)]) for _ in range(r.choice([2, 2, 3, 4, 5, 6] * 5 + [20])))
        if ed[0] == ed[-1]:
            ed[-1] += 1
        if ty != 2 and x and r.random() < .1:
            x[r.randrange(n)] = 2000000001
    return dict(kind=kind, ty=ty, ed=ed, x=x), lo, hi, u


def case(r):
    ev, hs = [dict(op="new")], []
    while len(ev) < 4 or r.random() < .8:
        k = r.random()
        if not hs or k < .2:
            f, lo, hi, u = frame(r)
            w = []
            if r.random() < .4 and len(f["x"]) <= 8:
                w = [r.randint(0, 3) for _ in f["x"]]
            ev.append(dict(op="hist", w=w, **f))
            hs.append(dict(lo=lo, hi=hi, ty=f["ty"], kind=f["kind"], some=f["kind"] == 0 or bool(f["x"])))
        elif k < .28:
            g = r.randrange(len(hs))
            ev.append(dict(op="cp", g=g + 1, how=r.randint(0, 3)))
            hs.append(dict(hs[g]))
        elif k < .45:
            g = r.randrange(len(hs))
            h = hs[g]
            a, b = sorted(arg(r, h) for _ in range(2))
            if r.random() < .05 and a != b:
                a, b = b, a
            ev.append(dict(op="clip", g=g + 1, a=a, b=b))
        elif k < .55:
            f, lo, hi, u = frame(r)
            h = dict(lo=lo, hi=hi, ty=f["ty"], kind=0)
            ev.append(dict(op="find", qs=[arg(r, h) for _ in range(8)], **f))
        else:
            g = r.randrange(len(hs))
            h = hs[g]
            ev.append(dict(op=r.choice(["counts", "edges", "bins", "allbe"]), g=g + 1))
            if h["ty"] != 2 and h["some"]:
                ev.append(dict(op="stats", g=g + 1))
    return ev


def arg(r, h):
    if h["ty"] == 2:
        return r.randint(h["lo"] - 2, h["hi"] + 2)
    q = r.randint(4 * h["lo"] - 6, 4 * h["hi"] + 6)
    return q if h["kind"] == 0 else q | 1


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def rank_case(r):
    """edges of any magnitude, values at them, next to them and between them"""
    ty = r.randint(0, 1)
    fl = f32 if ty else float
    n = r.randint(2, 7)
    base = r.choice([0, 0, 1, -1]) * 10 ** r.uniform(-3, 6)
    step = max(10 ** r.uniform(-6, 6), abs(base) * (1e-4 if ty else 1e-11))
    ed = [fl(base)]
    while len(ed) < n:
        ed.append(fl(ed[-1] + step * r.choice([1, 1, r.uniform(1, 9)])))
    if ed != sorted(set(ed)) or any(b - a < 1e-5 * max(abs(a), abs(b)) * (1 if ty else 1e-8) for a, b in zip(ed, ed[1:])):
        return rank_case(r)
    q = lambda: r.choice([0, 4 * n + 2, r.choice([4 * i + r.choice([-1, 0, 1]) for i in range(1, n + 1)]), r.choice([4 * i + 2 for i in range(1, n)])])
    cl = []
    if r.random() < .5:
        cl = sorted([q(), q()])
    ev = dict(op="rank", ty=ty, edv=[repr(x) for x in ed], ps=[q() for _ in range(r.randint(1, 12))], cl=cl)
    return [dict(op="new"), ev]


def auto_case(r):
    ty = r.randint(0, 1)
    fl = f32 if ty else float
    n = r.choice([1, 2, 3, 5, 10, 26, 50, 99, 100, 101, 200])
    base = r.choice([0, 0, 1, -1]) * 10 ** r.uniform(-2, 3)
    w = 10 ** r.uniform(-1, 4)
    x = [fl(base + r.choice([r.uniform(0, w), r.gauss(0, w), w])) for _ in range(n)]
    if len(set(x)) == 1 and n > 1:
        return auto_case(r)
    return [dict(op="new"), dict(op="auto", ty=ty, kind=r.choice([1, 2]) if n > 1 else 2, n=n, xv=[repr(v) for v in x])]


def p28(ctx):
    exe = ctx.build("hist", "d_hist.cpp", [])
    r = ctx.rng
    cases = []
    cfg = "SPECIFICATION Spec\nINVARIANT CountLaw AllCounted ClipLaw ClipKeeps PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n K = %d\n Emit = TRUE\n Kinds = {0, 1, 2}\n"
    for h in ctx.gen("MCHist", cfg % (ctx.pick(3, 4), 1), workers=8) + ctx.gen("MCHist", cfg % (2, 2), workers=8):
        if len(h) == 3 and r.random() < ctx.pick(.8, 0):
            continue
        ev = [dict(op="new")] + h + [dict(op="edges", g=1), dict(op="bins", g=1)]
        e = h[0]
        if e["ty"] != 2 and (e["kind"] == 0 or e["x"]):
            ev.append(dict(op="stats", g=1))
        cases.append(ev)
    ctx.conform(exe, cases, "TrHist", "histograms of the specification")
    ctx.conform(exe, [case(r) for _ in range(ctx.pick(25000, 250000))], "TrHist", "random histograms, clips and copies")
    ctx.conform(exe, [rank_case(r) for _ in range(ctx.pick(8000, 80000))] + [auto_case(r) for _ in range(ctx.pick(3000, 30000))], "TrHist", "edges and values of any magnitude, and the numbers next to them")
    ctx.assumptions += ["values are multiples of 1/4 (or integers), weights small integers; positions and statistics are compared to 0.001",
                        "the number of bins of Scott's rule is accepted within 1 %", "statistics of integer histograms and of histograms without counts are not looked at"]


CHECKS = dict(P28=p28)
