"""P03, P04, P05: FilePool under a controlled scheduler."""
from .threadpool import sched
SRC = ["FilePool/src/lib/"]
FL = ["-include", "memory"]


def seq_lru(rng):
    """one thread, exact least-recently-used order"""
    prog, acc, held = [], 0, {}
    nm = 1
    lim = rng.choice([1, 2, 3, 4, 2, 3, 1, 0])
    ks = list(range(rng.randint(1, 3)))
    style = rng.choice(["handlers", "direct", "both"])
    hs = {}
    for _ in range(rng.randint(4, 22)):
        r = rng.random()
        if style == "direct" or (style == "both" and r < .4):
            op = rng.choice(["dopen"] * 4 + ["dclose", "dused", "dused", "dlock", "dfree"])
            s = rng.randint(0, 4)
            if op == "dopen":
                prog.append(["dclose", s])
                prog.append(["dopen", s, 0, rng.randint(0, 2), rng.randint(0, 1), int(rng.random() < .75)])
            else:
                prog.append([op, s])
        else:
            f = rng.choice(ks)
            if f not in hs or rng.random() < .1:
                prog.append(["geth", f, 0, f, rng.choice([0, 0, 2, 4, 5, 7])])
                hs[f] = 1
            if rng.random() < .07:
                prog.append(["drop", f])
                hs.pop(f, None)
                continue
            s = rng.randint(0, 3)
            w = rng.randint(0, 1)
            clash = any(held[k][0] == f and (w or held[k][1]) for k in held if k != s)
            if rng.random() < .3:
                prog.append(["rel", s])
                held.pop(s, None)
                continue
            mode = w | (2 if clash or rng.random() < .3 else 0)
            prog.append(["get", s, f, mode, int(rng.random() < .3)])
            held[s] = (f, w)            # perhaps: it may have failed
        if rng.random() < .2:
            prog.append(["used", 0])
        if rng.random() < .03:
            prog.append(["closeall", 0])
    if rng.random() < .25:
        for s in range(5):
            prog.append(["dclose", s])
        prog.append(["mgrdrop", 0])
    fail = [rng.randint(1, 8)] if rng.random() < .2 else []
    return dict(limits=[lim], fail=fail, prog=prog, **sched(rng, 100))


def reopen(rng):
    """the same files over and over with a small limit: reuse and eviction"""
    lim = rng.randint(1, 3)
    prog = [["geth", f, 0, f, 0] for f in range(3)]
    for _ in range(rng.randint(5, 20)):
        prog.append(["get", 0, rng.randint(0, 2), rng.choice([0, 0, 1, 2, 3]), int(rng.random() < .2)])
        if rng.random() < .7:
            prog.append(["rel", 0])
        prog.append(["used", 0]) if rng.random() < .3 else None
    return dict(limits=[lim], fail=[], prog=prog, **sched(rng, 100))


def conc(rng, files=None, nthreads=None):
    """threads that acquire and release accessors; while holding one, only of later files"""
    nf = files or rng.randint(1, 3)
    nt = nthreads or rng.randint(2, 4)
    lim = rng.choice([1, 1, 2, 2, 3, 4, 50, 0])

    def thread():
        p, have = [], set()
        for _ in range(rng.randint(1, 5)):
            f = rng.randrange(nf)
            if f not in have:
                p.append(["geth", f, 0, f, rng.choice([0, 0, 2, 5])])
                have.add(f)
            w = int(rng.random() < .45)
            p.append(["get", 0, f, w | (2 if rng.random() < .3 else 0), int(rng.random() < .25)])
            if rng.random() < .4:
                p.append(["nap"])
            if rng.random() < .3 and f + 1 < nf:
                g = rng.randrange(f + 1, nf)
                if g not in have:
                    p.append(["geth", g, 0, g, 0])
                    have.add(g)
                p.append(["get", 1, g, rng.choice([0, 1, 2, 3]), 0])
                p.append(["rel", 1])
            elif rng.random() < .2:
                p.append(["get", 1, f, rng.choice([2, 3]), int(rng.random() < .3)])     # try while holding
                p.append(["rel", 1])
            r = rng.random()
            if r < .15:
                p.append(["drop", f])              # the accessor outlives the handler reference
                have.discard(f)
            if r < .9:
                p.append(["rel", 0])
            if rng.random() < .15:
                p.append(["drop", f])
                have.discard(f)
        p.append(["rel", 0])
        return p
    pre = []
    if rng.random() < .5:
        pre = [["geth", 7, 0, 0, 0]]
    if rng.random() < .3:       # idle descriptors to begin with
        for f in range(nf):
            pre += [["geth", f, 0, f, 0], ["get", f, f, rng.randint(0, 1), 0], ["rel", f]]
    prog = pre + [["par"] + [thread() for _ in range(nt)]]
    if rng.random() < .2:
        prog += [["used", 0], ["get", 0, 7, 1, 0], ["rel", 0]]
    if rng.random() < .15:
        prog += [["mgrdrop", 0]]
    fail = [rng.randint(1, 6)] if rng.random() < .1 else []
    return dict(limits=[lim], fail=fail, prog=prog, **sched(rng, 300))


def handlers(rng):
    """who gets which handler"""
    nm = rng.randint(1, 2)

    def thread(k):
        p = []
        for _ in range(rng.randint(1, k)):
            r = rng.random()
            if r < .6:
                p.append(["geth", rng.randint(0, 2), rng.randrange(nm), rng.randint(0, 2), rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8])])
                if p[-1][3] == 2 and p[-1][4] == 3:
                    p[-1][4] = 0
            elif r < .85:
                p.append(["drop", rng.randint(0, 2)])
            elif r < .9:
                p.append(["mkfile", 2])
            else:
                p.append(["has", rng.randrange(nm), rng.randint(0, 1), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])])
        return p
    if rng.random() < .4:
        prog = thread(14)
    else:
        prog = thread(2) + [["par"] + [thread(5) for _ in range(rng.randint(2, 3))]] + thread(3)
    return dict(limits=[rng.choice([1, 3, 10]) for _ in range(nm)], fail=[], prog=prog, **sched(rng, 100))


MCCFG = """SPECIFICATION Spec
INVARIANT Inv NoStuck Served
CHECK_DEADLOCK FALSE
CONSTANTS
  Cl = {%s}
  Keys = {%s}
  Lim = %d
  MaxOps = %d
  Sequential = %s
  Types = {%s}
"""


def models(ctx):
    for cl, keys, lim, n, ty in [("1, 2", "0, 1", 1, 4, "0"), ("1, 2", "0, 1", 2, 4, "0"), ("1, 2, 3", "0", 2, 3, "0")] + \
            ([("1, 2, 3", "0, 1", 2, 4, "0"), ("1, 2", "0, 1", 2, 4, "0, 1"), ("1, 2, 3", "0, 1", 1, 3, "0, 1")] if ctx.thorough else []):
        ctx.mc("MCFilePool", MCCFG % (cl, keys, lim, n, "FALSE", ty), timeout=850, heap="16g")


def generated(ctx):
    out = []
    for lim, n, ty in [(1, 3, "0, 1"), (2, 4, "0")] + ([(2, 4, "0, 1"), (1, 5, "0")] if ctx.thorough else []):
        hs = ctx.gen("MCFilePool", MCCFG % ("1, 2", "0, 1", lim, n, "TRUE", ty) + "VIEW View\nINVARIANT PrintH\n", limit=ctx.pick(1500, 20000))
        for h in hs:
            prog = [["geth", 0, 0, 0, 0], ["geth", 1, 0, 1, 0]]
            for o in h:
                prog.append(["get", o[1], o[2], o[3], o[4]] if o[0] == "get" else ["rel", o[1]])
                prog.append(["used", 0])
            out.append(dict(limits=[lim], fail=[], prog=prog, seed=ctx.rng.randrange(1, 10 ** 9), mode=0, p=0.0, pmem=0.0, depth=1, expect=50))
    return out


def run(ctx, plan, mc=True):
    if mc:
        models(ctx)
    exe = ctx.build("fp", ["d_filepool.cpp", "vsched.cpp"], SRC, san=False, repo_flags=["-fsanitize=thread"],
                    flags=["-D_GLIBCXX_ASSERTIONS"] + FL, link=["-rdynamic", "-ldl"], repo_first=True)
    asan = ctx.build("fpa", ["d_filepool.cpp", "vsched.cpp"], SRC, flags=FL, link=["-rdynamic", "-ldl"])
    g = generated(ctx) if mc else []
    if g:
        ctx.conform_sched(asan, g, "TrFilePool", "every transition of the sequential specification")
    for label, f, k in plan:
        ctx.conform_sched(exe, [f(ctx.rng) for _ in range(k)], "TrFilePool", label)
        ctx.conform_sched(asan, [f(ctx.rng) for _ in range(k // 2)], "TrFilePool", label + " (ASan)")
    ctx.assumptions += ["schedules are sampled (random walk and PCT), not enumerated", "a thread that holds an accessor only blocks for later files",
                        "memory accesses are sequentially consistent in the controlled runs",
                        "the manager is not used for new accessors after its last reference is gone, as documented"]


def p03(ctx):
    run(ctx, [("concurrent accessors", conc, ctx.pick(3000, 40000)), ("one file, many threads", lambda r: conc(r, 1, 4), ctx.pick(1500, 20000)),
              ("one thread", seq_lru, ctx.pick(800, 8000))])


def p04(ctx):
    run(ctx, [("one thread, exact LRU order", seq_lru, ctx.pick(2500, 30000)), ("reuse and eviction", reopen, ctx.pick(800, 8000)),
              ("concurrent accessors", conc, ctx.pick(2500, 30000))])


def p05(ctx):
    run(ctx, [("handlers", handlers, ctx.pick(5000, 50000)), ("concurrent accessors", conc, ctx.pick(1500, 15000)), ("one thread", seq_lru, ctx.pick(600, 6000))], mc=True)


CHECKS = dict(P03=p03, P04=p04, P05=p05)
