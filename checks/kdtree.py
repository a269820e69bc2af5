"""P10: KdTree range queries."""
import itertools


def queries(rng, pts, n, k, lo, hi):
    ev = []
    for _ in range(k):
        if pts and rng.random() < .6:
            c = list(rng.choice(pts))
            if rng.random() < .6:
                c[rng.randrange(n)] += rng.randint(-3, 3)
        else:
            c = [rng.randint(lo - 2, hi + 2) for _ in range(n)]
        # radii at and around exact distances, and huge ones
        if pts and rng.random() < .5:
            p = rng.choice(pts)
            d = max(abs(p[i] - c[i]) for i in range(n))
            r = max(0, d + rng.randint(-1, 1))
        else:
            r = rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 2 * (hi - lo) + 2)])
        ev.append(dict(op="query", c=c, r=r))
    return ev


def p10(ctx):
    exe = ctx.build("kd", "d_kdtree.cpp")
    cfg = "SPECIFICATION Spec\nINVARIANT PruningIsExact PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n S = %d\n NPts = %d\n Vals0 = {%s}\n Emit = %s\n"
    T = ctx.thorough
    for n, s, k, vals in [(1, 1, 5 if T else 4, "0,1,3"), (1, 2, 5, "0,2" if not T else "0,1,3"), (2, 1, 3, "0,1" if not T else "0,1,3"), (2, 2, 5 if T else 4, "0,2")]:
        ctx.mc("MCKdTree", cfg % (n, s, k, vals, "FALSE"))
    gcfg = cfg.replace("INVARIANT PruningIsExact PrintH", "INVARIANT PrintH")
    g1 = ctx.gen("MCKdTree", gcfg % (1, 4, 6, "0,1,3", "TRUE"), workers=8)
    g2 = ctx.gen("MCKdTree", gcfg % (2, 9, 4 if not T else 5, "0,1,3", "TRUE"), workers=8)
    cases = []
    for pts in g1:
        for s in (4, 5):
            cases.append([dict(op="build", pts=pts, n=1, s=s, exp=0, off=0)] +
                         [dict(op="query", c=[c], r=r) for c in (-1, 0, 1, 2, 3, 4) for r in (0, 1, 2, 3)])
    for pts in g2:
        # padded with two remote points, so that the tree splits even with the smallest leaves
        q = pts + [[40, 40], [40, 41]]
        cases.append([dict(op="build", pts=q, n=2, s=4, exp=-3, off=0)] +
                     [dict(op="query", c=[x, y], r=r) for x in (-1, 0, 2) for y in (0, 1) for r in (1, 2, 3)])
    ctx.conform(exe, cases, "TrKdTree", "every point set of the specification")
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(1200, 12000)):
        n = rng.randint(1, 4)
        s = rng.choice([4, 4, 5, 9, 100])
        m = rng.choice([0, 1, 4, 5, 6, 9, 10, rng.randint(4, 40), rng.randint(20, 90)]) if s < 100 else rng.choice([99, 100, 101, 150])
        hi = rng.choice([1, 3, 10, 50])
        pts = [[rng.randint(0, hi) for _ in range(n)] for _ in range(m)]
        if rng.random() < .3:                         # many points with one shared coordinate
            a, v = rng.randrange(n), rng.randint(0, hi)
            for p in pts:
                if rng.random() < .8:
                    p[a] = v
        if rng.random() < .3:
            pts = [[-x if rng.random() < .5 else x for x in p] for p in pts]
        if rng.random() < .2:
            pts.sort(reverse=rng.random() < .5)
        cases.append([dict(op="build", pts=pts, n=n, s=s, exp=rng.choice([0, 0, -1, 5, -20]), off=rng.choice([0, 0, 0, 24, 25, 32, 44]))] + queries(rng, pts, n, 10, -hi if rng.random() < .3 else 0, hi))
    ctx.conform(exe, cases, "TrKdTree", "random point sets")
    ctx.assumptions += ["coordinates are integers scaled by powers of two and translated by powers of two up to 2^44, so that distances are exact", "radius >= 0"]


CHECKS = dict(P10=p10)
