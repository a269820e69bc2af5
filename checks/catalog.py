"""P20, P21: SourceCatalog."""
SRC = ["SourceCatalog/src/lib/", "Table/src/lib/!FitsReader,FitsReaderHelper,FitsWriter,FitsWriterHelper"]
QUOTED = ["-include", "boost/io/quoted.hpp"]
NAN, PINF, NINF = 2000000001, 2000000002, 2000000003


def fmt(n):
    return "%.10g" % (n / 64.0)


def mc(ctx, emit):
    cfg = "SPECIFICATION Spec\nINVARIANT Sound PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Emit = %s\n" % ("TRUE" if emit else "FALSE")
    return ctx.gen("MCCat", cfg, workers=8) if emit else ctx.mc("MCCat", cfg)


def col_type(rng, n):
    if n >= 2000000000:
        return rng.choice(["double", "float"])
    if n % 64 == 0:
        return rng.choice(["double", "double", "float", "int", "long", "string"])
    return rng.choice(["double", "double", "float", "string"])


def phot_event(rng, fs, cols, vals, st):
    names = [f["f"] for f in fs]
    mags = any(f["mag"] for f in fs)
    return dict(op="phot", fs=fs, cols=cols, vals=vals, ty=[col_type(rng, v) for v in vals], conv=1 if mags else rng.randint(0, 1), ask=rng.sample(names + ["nope"], 1 if len(names) < 2 else 2), **st)


def rphot(rng):
    k = rng.randint(1, 5) if rng.random() < .99 else rng.randint(9, 20)
    fs, cols, vals = [], [], []
    flag = rng.choice([-6336, -6336, 0, 320, -64])
    st = dict(miss=rng.randint(0, 1), flag=flag, up=rng.randint(0, 1), uflag=rng.choice([-6336, -64, 64, -6336]))
    good = rng.random() < .6           # mostly rows that are not rejected
    for i in range(k):
        f = rng.choice(["V", "B", "g/r", "F%d" % i, "F%d" % i, "F%d" % i])
        if f in [x["f"] for x in fs] and rng.random() < .8:
            f = "F%d" % i
        mag = int(rng.random() < .25)
        fs.append(dict(f=f, fc="f%d" % i, ec="e%d" % i, n=rng.choice([1, 2, 4]), mag=mag))
        if mag:
            fl = rng.choice([160 * rng.randint(-1, 4), 160 * rng.randint(-1, 4), flag if flag % 160 or flag > 960 or flag < -160 else 0, NAN if st["miss"] or not good else 160])
            er = rng.choice([64, 128, 192, 64] + ([-64, -128, st["uflag"], st["uflag"]] if st["up"] or not good else []) + ([] if good else [0]))
            if fl == flag or fl == NAN:
                er = rng.choice([0, 64, -64])
        else:
            fl = rng.choice([8 * rng.randint(1, 900)] * 4 + [-8 * rng.randint(1, 90), 0] + ([flag, NAN, flag] if st["miss"] or not good else []) + ([] if good else [PINF, NINF]))
            er = rng.choice([rng.randint(1, 500)] * 3 + ([-rng.randint(1, 500), st["uflag"]] if st["up"] and (not good or 0 < fl < PINF) else []) + ([] if good else [0, -5, PINF, NINF]))
            if fl in (flag, NAN) and rng.random() < .5:
                er = rng.choice([0, -64, 64, -6336])
        cols += ["f%d" % i, "e%d" % i]
        vals += [fl, er]
    if rng.random() < .3:
        p = list(range(len(cols)))
        rng.shuffle(p)
        cols, vals = [cols[i] for i in p], [vals[i] for i in p]
    if rng.random() < .3:
        cols.append("extra")
        vals.append(64)
    if rng.random() < .05:
        rng.choice(fs)[rng.choice(["fc", "ec"])] = "nope"
    return phot_event(rng, fs, cols, vals, st)


def p21(ctx):
    exe = ctx.build("cat", "d_cat.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    cases = []
    for g in mc(ctx, True):
        st = {k: g[k] for k in ("miss", "flag", "up", "uflag")}
        cases.append([phot_event(rng, [dict(f="V", fc="f", ec="e", n=g["n"], mag=g["mag"])], ["f", "e"], [g["flux"], g["err"]], st)])
    ctx.conform(exe, cases, "TrCat", "every setting with every flux and error of the specification")
    cases = [[rphot(rng)] for _ in range(ctx.pick(15000, 200000))]
    ctx.conform(exe, cases, "TrCat", "rows with several filters")
    fl, er = [64, 0, NAN, -6336], [8, 0]
    cases = []
    import itertools
    A = list(itertools.product([64, 0, -6336], [8, 0, 64], [0, 1], [0, 1]))
    for a in A:
        for b in A:
            cases.append([dict(op="fpeq", a=list(a), b=list(b))])
    ctx.conform(exe, cases, "TrCat", "equality of measurements")
    ctx.assumptions += ["the thresholds and conversions are given for all filters in the order of the mapping", "errors are numbers", "magnitudes are multiples of 5/2"]


def cell(rng, t):
    c = dict(t=t, s="", n=0, num=1, xs=[], vx=1)
    if t == "bool":
        b = rng.randint(0, 1)
        c.update(s=str(b), n=64 * b)
    elif t in ("int", "long"):
        v = rng.choice([0, 1, -1, 5, 17, rng.randint(-1000, 1000)])
        c.update(s=str(v), n=64 * v)
    elif t in ("float", "double"):
        n = rng.choice([0, 64, 16, -32, rng.randint(-6400, 6400)])
        c.update(s=fmt(n), n=n)
    elif t == "string":
        r = rng.random()
        if r < .5:
            n = rng.randint(-640, 640)
            c.update(s=fmt(n), n=n)
        elif r < .7:
            ns = [rng.randint(-640, 640) for _ in range(3)]
            c.update(s=",".join(map(fmt, ns)), num=0, xs=ns)
            return c
        else:
            c.update(s=rng.choice(["x", "a b", "1x", "5,y", "NGC 1"]), num=0, vx=0)
            return c
    else:
        ns = [rng.randint(-640, 640) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))]
        c.update(s="[" + "".join(fmt(n) + ";" for n in ns) + "]", num=0, xs=ns)
        return c
    c["xs"] = [c["n"]]
    return c


def rcat(rng):
    k = rng.randint(2, 6)
    cols = ["id", "a", "b", "c d", "e", "f"][:k]
    ty = [rng.choice(["int", "long", "string", "long", "string", "bool", "double"] if rng.random() < .3 else ["int", "long", "string"])]
    ty += [rng.choice(["double", "double", "float", "int", "long", "string", "bool", "[double]", "[float]"]) for _ in cols[1:]]
    order = list(range(k))
    if rng.random() < .5:
        rng.shuffle(order)
    cols, ty = [cols[i] for i in order], [ty[i] for i in order]
    n = rng.randint(1, 7) if rng.random() < .99 else rng.randint(20, 45)
    idc = cols.index("id")
    ids = rng.sample(range(-9, 40), n) if rng.random() < .8 else rng.sample(range(-33000000, 33000000), n)
    if rng.random() < .15 and n > 1:
        ids[-1] = ids[0]
    rows = []
    for i in range(n):
        r = [cell(rng, t) for t in ty]
        c = r[idc]
        if ty[idc] == "string":
            c.update(s=rng.choice(["%d", "%d", "s%d", "%d "]) % ids[i] if rng.random() < .9 else "0%d" % i, num=0, vx=0, xs=[])
        elif ty[idc] == "long" and rng.random() < .3:
            c.update(s=str((1 << 40) + ids[i]), num=0, vx=0, xs=[])
        elif ty[idc] in ("int", "long"):
            c.update(s=str(ids[i]), n=64 * ids[i], xs=[64 * ids[i]])
        rows.append(r)
    numc = [c for c, t in zip(cols, ty) if c != "id" and (t in ("double", "float", "int", "bool") or (t == "string" and rng.random() < .1) or rng.random() < .03)] or ["a"]
    if rng.random() < .03:
        numc.append("nope")
    vecc = [c for c, t in zip(cols, ty) if t.startswith("[")] or numc
    hs = []
    for kd in [rng.choice(["row", "z", "ze", "phot", "pdf", "row", "z"]) for _ in range(rng.randint(0, 4))]:
        hs.append(dict(k=kd, a=rng.choice(vecc if kd == "pdf" else numc), b=rng.choice(numc), n=rng.choice([1, 2, 3, 3, 3])))
    if rng.random() < .7:
        for h in [h for h in hs if h["k"] == "phot"]:     # mostly errors above zero, vectors of the right size
            if h["b"] in cols and h["b"] != "id":
                for r in rows:
                    c = r[cols.index(h["b"])]
                    if c["num"] and c["t"] in ("double", "float", "int"):
                        v = 64 * rng.randint(1, 9)
                        c.update(n=v, s=fmt(v), xs=[v])
        for h in [h for h in hs if h["k"] == "pdf"]:
            if h["a"] in cols and h["a"] != "id":
                for r in rows:
                    c = r[cols.index(h["a"])]
                    if c["t"].startswith("["):
                        ns = [rng.randint(-640, 640) for _ in range(h["n"])]
                        c.update(s="[" + "".join(fmt(x) + ";" for x in ns) + "]", xs=ns)
    ev = [dict(op="cat", cols=cols, ty=ty, rows=rows, id="id" if rng.random() < .96 else "nope", hs=hs)]
    pool = [r[idc]["s"] for r in rows] + ["0", "nope", "99"]
    for _ in range(rng.randint(1, 5)):
        s = rng.choice(pool)
        t = rng.choice("ns")
        if t == "n" and not s.lstrip("-").isdigit() or t == "n" and (s.lstrip("-") != "0" and s.lstrip("-").startswith("0")):
            t = "s"
        ev.append(dict(op="find", t=t, id=s))
    return ev


def p20(ctx):
    exe = ctx.build("cat", "d_cat.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    mc(ctx, False)
    cases = [rcat(rng) for _ in range(ctx.pick(12000, 150000))]
    ctx.conform(exe, cases, "TrCat", "catalogs of random tables")
    ctx.assumptions += ["the table has the column info the handlers were made for", "numbers are multiples of 1/64"]


CHECKS = dict(P20=p20, P21=p21)
