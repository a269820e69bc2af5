"""P14, P15: configuration manager, wildcard options, manager ids."""
import itertools
from .threadpool import sched
SRC = ["Configuration/src/lib/ConfigManager.cpp", "Configuration/src/lib/Configuration.cpp", "Configuration/src/lib/ProgramOptionsHelper.cpp", "Configuration/src/lib/Utils.cpp"]
N = 8


def ev(op, m=0, **k):
    return dict(op=op, m=m, **k)


def needs(decl, S):
    S = set(S)
    while True:
        T = S | {b for a, b in decl if a in S}
        if T == S:
            return S
        S = T


def cyclic(G):
    return any(a in needs(G, [b]) for a, b in G)


def case(rng, decl, extra, roots, n):
    """register, close, initialise and look, with calls in the wrong phase in between; m=0 carries the graph, m=1 a small one"""
    ev0 = [ev("register", i=i, boom=0) for i in roots] + [ev("depend", i=a, j=b) for a, b in extra]
    rng.shuffle(ev0)
    if rng.random() < .2 and ev0:
        ev0.insert(rng.randrange(len(ev0) + 1), ev("register", i=rng.randrange(n), boom=1))
    reg = needs(decl, [e["i"] for e in ev0 if e["op"] == "register" and not e["boom"]])
    probe = lambda m: rng.choice([ev("get", m, i=rng.randrange(n)), ev("get", m, i=rng.randrange(n))])
    late = lambda m: rng.choice([ev("register", m, i=rng.randrange(n), boom=0), ev("depend", m, i=rng.randrange(n), j=rng.randrange(n)), ev("get", m, i=rng.randrange(n))])
    out = [ev("new", decl=[list(p) for p in decl])]
    seq = list(ev0)
    if rng.random() < .3:
        seq.insert(rng.randrange(len(seq) + 1), probe(0))
    seq.append(ev("close"))
    if rng.random() < .2:
        seq.append(ev("close"))
    if rng.random() < .4:
        seq.append(late(0))
    G = {(a, b) for a, b in set(decl) | set(extra) if a in reg and b in reg}
    if not cyclic(G):
        fail = rng.random() < .15 and reg
        seq.append(ev("init", fi=rng.choice(sorted(reg)) if fail else -1, fp=rng.randrange(3) if fail else -1))
        if not fail:
            seq += [ev("get", i=i) for i in range(n)]
            if rng.random() < .3:
                seq += [rng.choice([late(0), ev("close")]) for _ in range(2)]
                seq.append(ev("get", i=rng.randrange(n)))
    else:
        seq.append(late(0))
    # the other manager, interleaved
    if rng.random() < .4:
        i = rng.randrange(n)
        b = [ev("register", 1, i=i, boom=0), probe(1), ev("close", 1)]
        r1 = needs(decl, [i])
        if not cyclic({(x, y) for x, y in decl if x in r1}):
            b += [ev("init", 1, fi=-1, fp=-1), ev("get", 1, i=i), probe(1)]
        for e in reversed(b):
            pass
        pos = sorted(rng.randrange(len(seq) + 1) for _ in b)
        for k, (p, e) in enumerate(zip(pos, b)):
            seq.insert(p + k, e)
    return out + seq


def p14(ctx):
    exe = ctx.build("config", "d_config.cpp", SRC)
    cfg = "SPECIFICATION Spec\nINVARIANT Closed OrderIffAcyclic Register PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n K = %d\n Emit = TRUE\n"
    gen = ctx.gen("MCConfig", cfg % 3, workers=8)
    rng = ctx.rng
    t = lambda ps: [tuple(p) for p in ps]
    cases = []
    for g in gen:
        f = rng.sample(range(N), 3)                 # any three of the types, so that every order of the types occurs
        mp = lambda ps: [(f[a], f[b]) for a, b in t(ps)]
        cases.append(case(rng, mp(g["decl"]), mp(g["extra"]), [f[r] for r in g["roots"]], N))
    ctx.conform(exe, cases, "TrConfig", "every graph of three configurations")
    cases = []
    for _ in range(ctx.pick(6000, 60000)):
        n = rng.randint(1, N)
        dens = rng.choice([.1, .15, .25, .5])
        perm = rng.sample(range(N), N)
        dag = rng.random() < .6
        edges = [(perm[a], perm[b]) for a in range(n) for b in range(n) if (a < b if dag else True) and rng.random() < dens * (1 if a != b else .3)]
        x = rng.random()
        decl = [e for e in edges if rng.random() < x]
        extra = [e for e in edges if e not in decl] + [(rng.randrange(N), rng.randrange(N)) for _ in range(rng.choice([0, 0, 0, 1]))]
        cases.append(case(rng, decl, extra, rng.sample(range(N), rng.randint(0, min(N, 4))), N))
    ctx.conform(exe, cases, "TrConfig", "random graphs")
    ctx.assumptions += ["at most 8 configuration types", "initialize() is called once, after a successful closeRegistration()"]


def p15(ctx):
    rng = ctx.rng
    exe = ctx.build("config", "d_config.cpp", SRC)
    al = ["a", "b", "A", "-", ".", " ", "_"]
    names = [list(p) for n in (1, 2) for p in itertools.product("aA-", repeat=n)]
    opts = [list(p) for n in range(1, 5) for p in itertools.product("aA-", repeat=n)]
    cases = []
    for nm in names:
        for o in opts:
            cases.append([ev("wild", names=[nm], opts=[o])])
    for n in names:
        for o in opts[:30]:
            cases.append([ev("wc", name=n, inst=o)])
    for _ in range(ctx.pick(6000, 60000)):
        ns = [[rng.choice(al) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
        os_ = []
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            b = rng.choice(ns) if ns and r < .7 else [c.swapcase() for c in rng.choice(ns)] if ns and r < .8 else [rng.choice(al) for _ in range(rng.randint(0, 4))]
            os_.append(b + (["-"] if rng.random() < .7 else []) + [rng.choice(al) for _ in range(rng.randint(0, 3))])
        cases.append([ev("wild", names=ns, opts=os_)])
    ctx.conform(exe, cases, "TrConfig", "wildcard option names")
    # manager ids: every clock, every interleaving
    for n, k in [(2, 3), (3, 2)] + ([(3, 3)] if ctx.thorough else []):
        ctx.mc("MCIds", "SPECIFICATION Spec\nINVARIANT Distinct\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n K = %d\n T = 4\n" % (n, k))
    exe = ctx.build("ids", ["d_ids.cpp", "vsched.cpp"], ["Configuration/src/lib/Utils.cpp"], san=False, repo_flags=["-fsanitize=thread"], link=["-rdynamic", "-ldl"], repo_first=True)
    sc = []
    for _ in range(ctx.pick(4000, 40000)):
        s = sched(rng, 200)
        s["threads"] = [rng.randint(1, 4) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        s["clock"] = [rng.choice([0, 1, 1, 1, 2, 1000, -1, -2, -1500]) if rng.random() < .5 else 1 for _ in range(12)]
        sc.append(s)
    ctx.conform_sched(exe, sc, "TrIds", "manager ids")
    ctx.assumptions += ["the clock may stand still or jump back, but moves on after a few readings"]


CHECKS = dict(P14=p14, P15=p15)
