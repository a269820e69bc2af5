"""P29: self-organizing maps."""
U = 256


def bits(ev):
    """Fractional bits that a training may add to the weights."""
    n = len(ev["in"]) if ev["pol"] == 0 else min(ev["n"], len(ev["in"])) if ev["pol"] == 1 else 1
    b = 0
    for i in range(ev["T"]):
        l = {0: {1: [0], 2: [0, 1], 4: [0, 2, 1, 2]}.get(ev["T"], [9] * 9)[i] if ev["lk"] == 0 else 0, 1: 1, 3: 1}[ev["lk"]]
        if ev["lk"] == 3 and i % 2:
            continue
        b += n * (l + (1 if ev["nk"] == 1 else 0))
    return b


def case(r):
    ev, ms = [dict(op="new")], []
    vec = lambda d, z=1: [r.choice([r.randint(-4, 4), r.randint(-1, 1)]) * U // z for _ in range(d)]
    unc = lambda d: [r.choice([128, 256, 512, 1024]) for _ in range(d)]
    while len(ev) < 5 or r.random() < .85:
        k = r.random()
        live = [i for i, m in enumerate(ms) if m]
        if not live or k < .1:
            x, y, d = r.choice([1, 1, 2, 2, 3, 4]), r.choice([1, 2, 2, 3]), r.randint(1, 3)
            init = [] if r.random() < .2 else [v for _ in range(x * y) for v in vec(d)]
            ev.append(dict(op="som", x=x, y=y, d=d, f=r.choice([0, 0, 1]), init=init))
            ms.append(dict(x=x, y=y, d=d, f=ev[-1]["f"], bits=0, ties=not init))
            continue
        g = r.choice(live)
        m = ms[g]
        x, y, d = m["x"], m["y"], m["d"]
        if k < .2:
            ev.append(dict(op="set", g=g + 1, x=r.randrange(x), y=r.randrange(y), v=vec(d)))
        elif k < .27:
            ev.append(dict(op="get", g=g + 1, x=r.randrange(x), y=r.randrange(y), c=r.randint(0, 1)))
        elif k < .33:
            ev.append(dict(op=r.choice(["all", "all", "size"]), g=g + 1, c=r.randint(0, 2)))
        elif k < .45:
            ev.append(dict(op="bmu", g=g + 1, v=vec(d, r.choice([1, 2])), u=unc(d) if r.random() < .4 else [], how=r.randint(0, 1)))
        elif k < .65:
            T, pol = r.choice([0, 1, 1, 2, 2, 4]), r.choice([0, 0, 0, 1, 2])
            e = dict(op="train", g=g + 1, T=T, nk=r.randint(0, 1), nr=r.choice([1, 3, 5, 7, 9]), lk=r.choice([0, 0, 1, 3]), pol=pol, n=r.randint(0, 3 if pol == 1 else 1))
            e["in"] = [vec(d) for _ in range(r.choice([0, 1, 1, 2, 3] if T < 4 and pol != 1 else [0, 1, 2]))]
            if m["bits"] + bits(e) <= 8 and not (m["ties"] and (T * len(e["in"]) > 2 or x * y > 6)):
                m["bits"] += bits(e)
                ev.append(e)
        elif k < .72:
            T = r.choice([1, 1, 2, 3, 5])
            e = dict(op="soft", g=g + 1, T=T, nk=2, nr=r.choice([3, 4, 5, 8]), lk=2, lr=r.choice([1, 2, 3, 4]), pol=r.randint(0, 2), n=r.randint(0, 3))
            e["in"] = [vec(d) for _ in range(r.choice([1, 1, 2, 4]) if T > 1 else 1)]
            if T == 1:
                e["pol"] = 0
            ev.append(e)
        elif k < .8:
            n = r.randint(0, 5)
            ev.append(dict(op="project", g=g + 1, u=[unc(d) for _ in range(n)] if r.random() < .4 else []))
            ev[-1]["in"] = [vec(d, r.choice([1, 2])) for _ in range(n)]
        elif k < .88:
            ev.append(dict(op="umat", g=g + 1, how=r.randint(0, 2)))
        elif k < .94:
            bad = int(r.random() < .2)
            ev.append(dict(op="ser", g=g + 1, how=r.randint(0, 2), bad=bad))
            if bad:
                ev[-1]["bad"] = r.choice([1, 2, 3] if ev[-1]["how"] == 2 and m["f"] == 0 else [1, 3])
            if not bad:
                ms.append(dict(m))
        elif k < .96:
            ev.append(dict(op="mv", g=g + 1, how=r.randint(0, 1)))
            ms.append(dict(m))
            ms[g] = None
        elif k < .97:
            ev.append(nbh(r))
        elif k < .98:
            kk = r.randint(0, 1)
            T = r.randint(1, 12)
            ev.append(dict(op="lrn", k=kk, r=r.randint(1, 8), qs=[[i, T] for i in range(T)]))
        elif k < .99:
            pol = r.randint(0, 2)
            ev.append(dict(op="samp", pol=pol, m=r.randint(0, 4), n=r.randint(0, 5), rep=r.randint(1, 3)))
        else:
            lo = r.randint(-3000, 3000)
            ev.append(dict(op="rand", k=r.randint(0, 1), lo=lo, hi=lo + r.choice([500, 1000, 4000]), m=r.randint(1, 10)))
    return ev


def nbh(r):
    k = r.randint(0, 1)
    x, y = r.choice([(1, 1), (2, 2), (3, 2), (5, 7), (8, 8), (8, 3), (2, 8), (9, 4), (1, 6)])
    qs = []
    for _ in range(10):
        if not qs or r.random() < .4:
            T = r.choice([1, 2] + ([4] if max(x, y) in (2, 8) else [])) if k else r.choice([1, 2, 3, 4])
        qs.append([r.randrange(x), r.randrange(y), r.randrange(x), r.randrange(y), r.randrange(T), T])
    return dict(op="nbh", k=k, x=x, y=y, r=r.choice([1, 3, 5, 7, 9, 13] if k == 0 else [2, 3, 4, 4, 5, 8, 12]), qs=qs)


def p29(ctx):
    exe = ctx.build("som", ["d_som.cpp", "d_som2.cpp"], ["SOM/src/lib/"], repo_flags=["-include", "algorithm"], libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system", "-lpthread"])
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANT HullLaw LearnLaw BestLaw PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Sizes = {%s}\n Vals = {%s}\n N = %d\n K = %d\n Ts = {%s}\n Emit = TRUE\n"
    hs = ctx.gen("MCSom", cfg % ("11, 21, 12, 31", "0, 256, 768", 2, 1, "1, 2"), workers=8)
    hs += ctx.gen("MCSom", cfg % ("22", "0, 256, 512", 1, 1, "1, 2"), workers=8)
    hs += ctx.gen("MCSom", cfg % ("21, 13", "0, 512", 1, 2, "1"), workers=8)
    cases = []
    for h in hs:
        ev = [dict(op="new")] + h
        ev += [dict(op="all", g=1, c=len(cases) % 3), dict(op="bmu", g=1, v=[128 * (len(cases) % 7)], u=[], how=len(cases) % 2), dict(op="umat", g=1, how=len(cases) % 3)]
        cases.append(ev)
    ctx.conform(exe, cases, "TrSom", "maps of the specification")
    ctx.conform(exe, [case(r) for _ in range(ctx.pick(12000, 120000))], "TrSom", "random maps, trainings and projections")
    ctx.conform(exe, [[dict(op="new")] + [nbh(r) for _ in range(5)] for _ in range(ctx.pick(2000, 20000))], "TrSom", "neighbourhood functions")
    ctx.assumptions += ["weights are multiples of 1/256 in -4..4, maps have at most 12 cells; distances, factors and U-matrices are compared to a few thousandths",
                        "trainings with the Kohonen neighbourhood and exponential decay are compared exactly for one input and iteration, otherwise only with the range of what was seen",
                        "random samples are accepted in any order; the distribution of random initial weights is not looked at"]


CHECKS = dict(P29=p29)
