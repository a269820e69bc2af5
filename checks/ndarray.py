"""P06-P08: NdArray addressing, views, operations."""
SRC = ["NdArray/src/"]


def mk(rng, shape, attrs=(), data=None, how=None):
    n = 1
    for s in shape:
        n *= s
    n *= max(1, len(attrs))
    if data is None:
        data = [rng.randint(-50, 50) for _ in range(n)]
    how = how or rng.choice(["vec", "iter", "move", "zero"])
    return dict(op="mk", shape=list(shape), attrs=list(attrs), how=how, data=data)


class Sim:
    """Just enough bookkeeping to choose sensible operations; TLC judges the results."""
    def __init__(self):
        self.a = []          # dict(shape, attrs, stale, grp)


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def rand_shape(rng, maxn=40):
    while True:
        s = [rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 0]) if rng.random() < .93 else rng.randint(1, 9) for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4]))]
        if prod(s) <= maxn and (prod(s) > 0 or rng.random() < .15):
            return s


def factor(rng, n):
    if n == 0:
        return rng.choice([[0], [0, 3], [2, 0]])
    s = []
    while n > 1 and rng.random() < .7:
        d = [x for x in range(1, n + 1) if n % x == 0]
        f = rng.choice(d)
        s.append(f)
        n //= f
    s.append(n)
    rng.shuffle(s)
    return s


def sequence(rng, n, weights, concat):
    ev = [dict(op="new")]
    H = []

    def add(shape, attrs):
        H.append(dict(shape=list(shape), attrs=list(attrs), stale=False))

    def mk_one():
        shape = rand_shape(rng)
        attrs = rng.sample(["ID", "SED", "PDZ", "X"], rng.randint(1, 3)) if rng.random() < .25 else []
        e = mk(rng, shape, attrs)
        if rng.random() < .06:                      # wrong amount of data
            e = dict(e, how=rng.choice(["vec", "iter", "move"]), data=e["data"] + [1] if rng.random() < .5 or not e["data"] else e["data"][:-1])
            ev.append(e)
            return
        ev.append(e)
        add(shape + ([len(attrs)] if attrs else []), attrs)
    mk_one()
    ops, w = zip(*weights.items())
    for _ in range(n):
        if not H:
            mk_one()
            continue
        op = rng.choices(ops, w)[0]
        h = rng.randrange(len(H))
        if rng.random() < .4:
            h = len(H) - 1
        a = H[h]
        sh = a["shape"]
        stale = a["stale"]
        if op in ("mk",) and len(H) < 7:
            mk_one()
        elif op in ("dup", "copy") and len(H) < 8 and not (stale and op == "dup"):
            ev.append(dict(op=op, h=h + 1))
            add(sh, a["attrs"])
        elif op == "assign" and not stale:
            g = rng.randrange(len(H))
            ev.append(dict(op=op, h=g + 1, g=h + 1))
            H[g] = dict(shape=list(sh), attrs=list(a["attrs"]), stale=False)
        elif op == "reshape" and not stale:
            ns = factor(rng, prod(sh)) if rng.random() < .85 else rand_shape(rng)
            ev.append(dict(op=op, h=h + 1, shape=ns))
            if not a["attrs"] and prod(ns) == prod(sh):
                a["shape"] = list(ns)
        elif op in ("slice", "rslice") and len(H) < 8:
            dim = sh[0] if op == "slice" else sh[-1]
            i = rng.randint(0, max(0, dim - 1)) if rng.random() < .9 else dim + rng.randint(0, 1)
            ev.append(dict(op=op, h=h + 1, i=i))
            if len(sh) > 1 and i < dim:
                add(sh[1:] if op == "slice" else sh[:-1], a["attrs"] if op == "slice" else [])
        elif op in ("get", "set"):
            c = [rng.randint(0, max(0, s - 1)) for s in sh]
            if rng.random() < .12:
                k = rng.randrange(len(c))
                c[k] = sh[k] + rng.randint(0, 1)
            if rng.random() < .06:
                c = c[:-1] if rng.random() < .5 and len(c) > 1 else c + [0]
            e = dict(op=op, h=h + 1, c=c)
            if op == "set":
                e["v"] = rng.randint(-99, 99)
            ev.append(e)
        elif op in ("getattr", "setattr"):
            if not a["attrs"] and rng.random() < .8:
                continue
            c = [rng.randint(0, max(0, s - 1)) for s in sh[:-1]]
            if rng.random() < .1:
                c = c + [0]
            e = dict(op=op, h=h + 1, c=c, a=rng.choice(a["attrs"] + ["ID", "NOPE"]) if rng.random() < .15 or not a["attrs"] else rng.choice(a["attrs"]))
            if op == "setattr":
                e["v"] = rng.randint(-99, 99)
            ev.append(e)
        elif op == "fill" and not stale:
            ev.append(dict(op=op, h=h + 1, v=rng.randint(-50, 50)))
        elif op == "iter" and not stale and prod(sh):
            ev.append(dict(op=op, h=h + 1, i=rng.randrange(prod(sh)), j=rng.randrange(prod(sh))))
        elif op in ("str", "sum", "argmax", "argmin") and not stale:
            ev.append(dict(op=op, h=h + 1))
        elif op == "eq":
            c = [x for x in range(len(H)) if H[x]["shape"] == sh]
            g = rng.choice(c) if rng.random() < .8 else rng.randrange(len(H))
            if stale or H[g]["stale"]:
                continue
            ev.append(dict(op=op, h=h + 1, g=g + 1))
        elif op == "concat" and concat and not stale:
            c = [x for x in range(len(H)) if H[x]["shape"][1:] == sh[1:] and len(H[x]["shape"]) == len(sh)]
            g = rng.choice(c) if rng.random() < .85 else rng.randrange(len(H))
            if H[g]["stale"]:
                continue
            gs = list(H[g]["shape"])
            if prod(sh) + prod(gs) > 90:
                continue
            ev.append(dict(op=op, h=h + 1, g=g + 1))
            if gs[1:] == sh[1:] and len(gs) == len(sh):
                a["shape"] = [sh[0] + gs[0]] + sh[1:]
                a["stale"] = prod(gs) > 0
        elif op == "sumaxis":
            ax = rng.randint(-len(sh), len(sh) - 1) if rng.random() < .92 else len(sh)
            if 0 in sh or (stale and len(sh) == 1):
                continue
            ev.append(dict(op=op, h=h + 1, axis=ax))
        elif op == "trapz":
            ax = rng.randint(-len(sh), len(sh) - 1)
            if 0 in sh:
                continue
            k = sh[ax]
            if rng.random() < .06:
                k += 1
            kn = [rng.randint(-3, 3)]
            while len(kn) < k:
                kn.append(kn[-1] + rng.randint(1, 4))
            ev.append(dict(op=op, h=h + 1, axis=ax, knots=kn[:k]))
        elif op == "unravel":
            s = [x for x in rand_shape(rng) if x] or [3]
            n_ = prod(s)
            ev.append(dict(op=op, i=rng.randint(0, n_ - 1) if rng.random() < .85 else n_ + rng.randint(0, 3), shape=s))
        if rng.random() < .5:
            ev.append(dict(op="dumpall"))
        elif rng.random() < .3 and H:
            x = rng.randrange(len(H))
            ev.append(dict(op=rng.choice(["dump", "atall"]), h=x + 1))
    ev.append(dict(op="dumpall"))
    return ev


def big(rng):
    """Shapes whose element count does not fit in 16 bits."""
    out = []
    for sh in ([70001], [257, 300], [3, 151, 160]):
        ev = [dict(op="new"), dict(op="mk", shape=sh, attrs=[], how="zero", data=[])]
        for k in range(8):
            c = [rng.randrange(s) for s in sh] if k else [s - 1 for s in sh]
            ev.append(dict(op="set", h=1, c=c, v=k + 1))
            ev.append(dict(op="get", h=1, c=c))
        ev += [dict(op="iter", h=1, i=prod(sh) - 1, j=prod(sh) - 2)]
        if len(sh) > 1:
            ev += [dict(op="slice", h=1, i=sh[0] - 1), dict(op="get", h=2, c=[s - 1 for s in sh[1:]]),
                   dict(op="rslice", h=1, i=sh[-1] - 1), dict(op="get", h=3, c=[s - 1 for s in sh[:-1]])]
        out.append(ev)
    # element counts that overflow 32 bits: the data can never match
    for sh in ([65536, 65536], [65536, 65536, 3], [2, 65536, 32768]):
        for how in ("vec", "iter", "move"):
            out.append([dict(op="new"), dict(op="mk", shape=sh, attrs=[], how=how, data=[])])
        out.append([dict(op="new"), dict(op="mk", shape=sh[:-1], attrs=["a"] * 1, how="vec", data=[])] if sh[-1] < 10 else
                   [dict(op="new"), dict(op="mk", shape=[0], attrs=[], how="vec", data=[]), dict(op="reshape", h=1, shape=sh)])
    return out


def grow(rng, n):
    """Concatenations of larger arrays: small and large parts, on owners and on views."""
    out = []
    for _ in range(n):
        rest = rng.choice([[], [], [3], [2, 2]])
        r = prod(rest)
        a, b = (rng.choice([1, 2, 7, 16, 33, 64, 100, 128, 200]) for _ in range(2))
        a, b = max(1, a // r), max(1, b // r)
        mk = lambda sh: dict(op="mk", shape=sh, attrs=[], how=rng.choice(["vec", "iter", "move"]), data=[rng.randint(-99, 99) for _ in range(prod(sh))])
        ev = [dict(op="new"), mk([a] + rest), mk([b] + rest)]
        h = 1
        if rng.random() < .3:
            ev = [dict(op="new"), mk([2, a] + rest), mk([b] + rest), dict(op="slice", h=1, i=rng.randrange(2))]
            h = 3
        ev += [dict(op="concat", h=h, g=2), dict(op="atall", h=h), dict(op="set", h=h, c=[a + b - 1] + [0] * len(rest), v=5),
               dict(op="set", h=h, c=[0] * (1 + len(rest)), v=6), dict(op="atall", h=h), dict(op="dumpall")]
        out.append(ev)
    return out


BASE = dict(mk=3, dup=2, copy=3, assign=1, reshape=3, slice=3, rslice=3, get=4, set=5, getattr=3, setattr=2, fill=2, eq=3,
            iter=3, str=2)
VIEW = dict(BASE, slice=9, rslice=9, set=8, reshape=5, fill=4, copy=5, sum=1, sumaxis=1, argmax=1)
OPS = dict(BASE, sum=4, sumaxis=6, trapz=6, argmax=4, argmin=4, unravel=5, concat=6, slice=5, rslice=5)

CFG = """SPECIFICATION Spec
INVARIANT WellFormed SlicesCover Aliasing PrintH
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = %d
  MaxH = %d
  Emit = TRUE
  WithConcat = %s
  StartsN = %d
"""


def run(ctx, weights, concat, depth, maxh, starts, nseq):
    exe = ctx.build("nd", "d_ndarray.cpp", SRC)
    hist = ctx.gen("MCNdArr", CFG % (depth, maxh, "TRUE" if concat else "FALSE", starts), workers=8, heap="8g")
    cases = [[dict(op="new")] + h + [dict(op="dumpall")] for h in hist]
    ctx.conform(exe, cases, "TrNdArr", "every history of MCNdArr up to depth %d" % depth)
    rng = ctx.rng
    cases = [sequence(rng, rng.randint(5, 45), weights, concat) for _ in range(nseq)]
    ctx.conform(exe, cases, "TrNdArr", "random operation sequences")
    ctx.conform(exe, big(rng), "TrNdArr", "large shapes")
    if concat:
        ctx.conform(exe, grow(rng, ctx.pick(150, 1500)), "TrNdArr", "concatenations of larger arrays")
    exed = ctx.build("ndd", "d_ndarray.cpp", SRC, flags=["-DELT=double"])
    cases = [sequence(rng, rng.randint(5, 45), weights, concat) for _ in range(nseq // 4)]
    ctx.conform(exed, cases, "TrNdArr", "random operation sequences, double elements")
    ctx.assumptions += ["element types int and double stand for all T; containers std::vector (Npy memory mapping: P09)",
                        "shapes up to 4 axes for sequences"]


def p06(ctx):
    run(ctx, BASE, False, ctx.pick(4, 5), 3, 4, ctx.pick(1500, 20000))


def p07(ctx):
    run(ctx, VIEW, False, ctx.pick(4, 5), ctx.pick(4, 4), 4, ctx.pick(1500, 20000))


def p08(ctx):
    run(ctx, OPS, True, ctx.pick(4, 5), 3, 3, ctx.pick(1800, 20000))


CHECKS = dict(P06=p06, P07=p07, P08=p08)
