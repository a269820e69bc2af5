"""P31: cosmological distances and the numerical methods behind them."""
SRC = ["PhysicsUtils/src/lib/CosmologicalDistances.cpp", "PhysicsUtils/src/lib/CosmologicalParameters.cpp", "MathUtils/src/lib/function/", "MathUtils/src/lib/interpolation/", "XYDataset/src/lib/XYDataset.cpp",
       "MathUtils/src/lib/numericalIntegration/", "MathUtils/src/lib/numericalDifferentiation/", "MathUtils/src/lib/helpers/"]


def possible(m, l, z):
    return all((m * u ** 3 + (100 - m - l) * u ** 2 + l) / 100 > .12 for u in (1 + z / 4 * i / 40 for i in range(41)))


def cosmo(r):
    while True:
        m, l = r.choice([0, 30, 100, r.randint(0, 150)]), r.choice([0, 70, 100, r.randint(0, 130)])
        if r.random() < .3:
            l = 100 - m if m <= 100 else 0
        zd = r.choice([4, 4, 4, 64, 1000])
        zs = sorted(set(r.choice([0, 1, 2, 3, 4, r.randint(0, dict([(4, 32), (64, 128), (1000, 900)])[zd])]) for _ in range(r.randint(1, 4))))
        if not possible(m, l, zs[-1] * 4 / zd):
            continue
        k = 100 - m - l
        # in a closed universe, not farther than halfway around
        if k < 0 and zs[-1] > 2 * zd:
            continue
        r.shuffle(zs)
        return dict(op="cosmo", m=m, l=l, h=r.choice([70, 100, r.randint(20, 150)]), zd=zd, zs=zs)


def method(r):
    k = r.random()
    if k < .4:
        rec, order = r.randint(0, 1), r.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
        n = 2 ** order
        return dict(op="simp", rec=rec, order=order, min=4 if rec else 3, a=r.randint(-20, 20), w=r.choice([1, 2, 4, 8]), fv=[r.choice([0, 1, r.randint(-50, 50)]) for _ in range(n + 1)])
    if k < .6:
        a = r.randint(0, 3)
        return dict(op="adapt", c=[r.randint(0, 5) for _ in range(r.randint(1, 5))] + [r.randint(1, 5)], a=a, b=a + r.randint(1, 4), prec=10 ** r.randint(3, 6), first=r.randint(3, 6), how=r.randint(0, 1))
    if k < .8:
        return dict(op="sq", a=r.choice([0, 0, 1, -1, r.randint(-8, 8)]), b=r.choice([0, r.choice([1, -1]) * r.choice([1, 2, 4, 8])]), p=r.randint(-40, 40), q=r.randint(-40, 40), y=r.randint(-100, 100))
    return dict(op="der", n=r.randint(1, 2), c=[r.randint(-9, 9) for _ in range(r.randint(1, 4))], x=r.randint(-16, 16))


def p31(ctx):
    exe = ctx.build("num", "d_num.cpp", SRC)
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANT DeSitter Milne Mattig Monotone Densities Curved PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ms = {%s}\n Ls = {%s}\n Zs = {%s}\n Emit = TRUE\n"
    if ctx.tier == "quick":
        sets = ("0, 20, 50, 100, 150", "0, 30, 70, 100", "0, 1, 2, 3, 4, 6, 8")
    else:
        sets = (", ".join(str(x) for x in range(0, 160, 10)), ", ".join(str(x) for x in range(0, 130, 10)), "0, 1, 2, 3, 4, 6, 8, 12, 16")
    cases = [[dict(op="new")] + h for h in ctx.gen("MCNum", cfg % sets, workers=8)]
    ctx.conform(exe, cases, "TrNum", "cosmologies of the specification")
    ctx.conform(exe, [[dict(op="new"), cosmo(r)] for _ in range(ctx.pick(3000, 60000))], "TrNum", "random cosmologies and redshifts")
    ctx.conform(exe, [[dict(op="new")] + [method(r) for _ in range(6)] for _ in range(ctx.pick(8000, 80000))], "TrNum", "quadratures, differences and equations")
    ctx.assumptions += ["densities in hundredths with E(z)^2 > 0.12 up to the redshift, redshifts in quarters up to 8, 64ths up to 2 and thousandths up to 0.9 (2 in closed universes)",
                        "distances are compared with an independent fixed point integration: to 2e-4 up to redshift 2, 3e-3 beyond; the relations between distances to 5e-5",
                        "polynomials with small integer coefficients; nodes and roots are multiples of 1/4 and 1/2"]


CHECKS = dict(P31=p31)
