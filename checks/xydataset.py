"""P22, P23: XYDataset."""
TABLE = "Table/src/lib/!FitsReader,FitsReaderHelper,FitsWriter,FitsWriterHelper"
QUOTED = ["-include", "boost/io/quoted.hpp"]
SRC = ["XYDataset/src/lib/!FitsParser", TABLE]
NAMES = [".hid", "A", "A.dat", "B", "B.txt", "a b.dat", "a.dat", "a.dat.txt", "aa.txt", "b.dat", "c", "d.txt", "order.txt", "sub", "sub.dat", "z"]
DIRS = ["A", "A.dat", "B", "c", "sub", "z"]
WORDS = ["q", "name_1", "X", "a", "F0", "b"]
VALS = ["abc", "a b", "1.5", "x:y", "q", "# no", "NAME: z", "a"]


def num(rng, q):
    """the number q / 4 in one of its spellings"""
    s = repr(q / 4.0)
    if s.endswith(".0"):
        s = s[:-2]
    r = rng.random()
    if .5 < r < .6 and q:                             # scientific notation, all digits
        return ("%.12e" % (q / 4.0)).replace("e", rng.choice("eE"))
    if r < .2 and "." not in s and "e" not in s:
        s += "."
    elif r < .3 and "e" not in s:
        s += "e0"
    elif r < .4 and not s.startswith("-"):
        s = "+" + s
    elif r < .5 and "." in s and "e" not in s:
        s += "00"
    return s


def ws(rng, lo=0):
    return "".join(rng.choice(" \t") for _ in range(rng.choice([lo, lo, lo + 1, lo + 3])))


def line(rng, l):
    k = l["k"]
    if k == "blank":
        return ""
    if k == "com":
        return ws(rng) + "#" + rng.choice([" two words", "", " some text, more", " 1.0 2.0 3.0", " x: ", "##", " - "])
    if k == "name":
        return ws(rng) + "#" + ws(rng) + l["w"] + ws(rng)
    if k == "par":
        return ws(rng) + "#" + ws(rng) + l["w"] + ws(rng) + ":" + ws(rng) + l["val"] + ws(rng)
    if k == "data":
        return ws(rng) + num(rng, l["x"]) + ws(rng, 1) + num(rng, l["y"]) + ws(rng)
    if k == "bad":
        return rng.choice(["abc def", "1.0 x", "x 2", "nothing here at all", "1.0", "1,2"])
    return "1.0 2.0 3.0"


def text(rng, L, nl=True):
    return "\n".join(line(rng, l) for l in L) + ("\n" if nl and L else "")


def rec(k, w="", val="", x=0, y=0):
    return dict(k=k, w=w, val=val, x=x, y=y)


def rline(rng, k):
    if k == "name":
        return rec(k, rng.choice(WORDS))
    if k == "par":
        return rec(k, rng.choice(["NAME", "UNIT", "UNIT", "UNIT2", "MY UNIT", "unit"]), rng.choice(VALS))
    if k == "data":
        return rec(k, x=rng.choice([rng.randint(-400, 4000)] * 5 + [rng.randint(-2**30, 2**30)]), y=rng.randint(-9, 9) * rng.choice([1, 1, 100, 110000001]))
    return rec(k)


def lines(rng):
    L = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3] * 8 + [40])):
        L.append(rline(rng, rng.choice(["blank", "com", "name", "par", "par"])))
    r = rng.random()
    if r < .12:
        L.append(rline(rng, rng.choice(["bad", "three"])))
    elif r < .2:
        return L
    for _ in range(rng.choice([1, 2, 3, 4, 5] * 10 + [150])):
        L.append(rline(rng, rng.choice(["data"] * 8 + ["blank", "com"])))
    if rng.random() < .06:
        L.append(rline(rng, rng.choice(["bad", "three"])))
    return L


def gspell(rng, g):
    s = "/".join(g)
    r = rng.random()
    if r < .25:
        s += "/" * rng.randint(1, 3)
    if rng.random() < .25:
        s = "/" * rng.randint(1, 2) + s
    return s


def queries(rng, names, groups, n):
    ev = []
    alln = list(names) + [["nope"], ["A", "nope"], ["A"]] + [n[:-1] + [n[-1] + "x"] for n in names[:2]]
    for _ in range(n):
        r, via = rng.random(), rng.randint(0, 1)
        if r < .4:
            g = rng.choice(groups)
            ev.append(dict(op="list", g=g, gs=gspell(rng, g), via=via))
        elif r < .85:
            ev.append(dict(op="get", p=rng.choice(alln), one=rng.randint(0, 1), via=via))
        else:
            ev.append(dict(op="param", p=rng.choice(alln), key=rng.choice(["UNIT", "NAME", "MY UNIT", "none"]), via=via))
    return ev


def order_text(rng, names):
    out = []
    for n in names:
        if rng.random() < .2:
            out.append(rng.choice(["# comment", "", "   "]))
        out.append(ws(rng) + n + ws(rng) + (rng.choice(["# why", "#"]) if rng.random() < .2 else ""))
    return "\n".join(out) + ("\n" if rng.random() < .8 else "")


def tree_case(rng, tr, names, n):
    files = [dict(d=f["d"], f=f["f"], L=f["L"], t=text(rng, f["L"], rng.random() < .7)) for f in tr["files"]]
    orders = [dict(d=o["d"], names=o["names"], t=order_text(rng, o["names"])) for o in tr["orders"]]
    groups = [[], ["A"], ["B"], ["A", "sub"], ["A.dat"], ["nope"]] + [f["d"] for f in files]
    return [dict(op="tree", files=files, orders=orders, root=rng.randint(0, 2))] + queries(rng, names, groups, n)


def rtree(rng):
    files, seen = [], {}
    dirs = [[]]
    for _ in range(rng.randint(0, 4)):
        dirs.append(rng.choice(dirs) + [rng.choice(DIRS)])
    dirset = {tuple(d) for d in dirs}
    for _ in range(rng.choice(list(range(9)) * 4 + [40])):
        d = rng.choice(dirs)
        f = rng.choice([n for n in NAMES if n != "order.txt"])
        if tuple(d + [f]) in dirset or tuple(d + [f]) in seen:
            continue
        seen[tuple(d + [f])] = 1
        files.append(dict(d=d, f=f, L=lines(rng)))
    have = {()} | {tuple(f["d"][:i]) for f in files for i in range(len(f["d"]) + 1)}
    orders = []
    for d in sorted(have):
        if rng.random() < .5:
            ns = [n for n in NAMES if n != "order.txt"] + ["nope"]
            orders.append(dict(d=list(d), names=rng.sample(ns, rng.randint(0, 6))))
    names = []
    for f in files:
        stem = f["f"][:f["f"].rfind(".")] if "." in f["f"] else f["f"]
        for w in [stem] + [l["w"] for l in f["L"] if l["k"] == "name"] + [l["val"] for l in f["L"] if l["k"] == "par"]:
            if w and "/" not in w:
                names.append(f["d"] + [w])
    return dict(files=files, orders=orders), names


def p22(ctx):
    exe = ctx.build("xy", "d_xy.cpp", SRC, repo_flags=QUOTED)
    cfg = "SPECIFICATION Spec\nINVARIANT Complete Mirrors Grouped Contiguous PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxFiles = %d\n Emit = TRUE\n"
    gen = ctx.gen("MCXY", cfg % ctx.pick(4, 6), workers=8)
    rng = ctx.rng
    ctx.conform(exe, [tree_case(rng, g, g["names"], 10) for g in gen], "TrXY", "every tree of the specification")
    cases = []
    for _ in range(ctx.pick(2500, 25000)):
        tr, names = rtree(rng)
        cases.append(tree_case(rng, tr, names, rng.randint(3, 14)))
    ctx.conform(exe, cases, "TrXY", "random trees")
    cases = [[dict(op="noroot", how=0), dict(op="noroot", how=1), dict(op="nofile")]]
    kinds = ["blank", "com", "name", "par", "data", "bad", "three"]
    import itertools
    for n in range(0, ctx.pick(4, 5)):
        for ks in itertools.product(kinds, repeat=n):
            L = [rline(rng, k) for k in ks]
            cases.append([dict(op="file", f=rng.choice(NAMES), L=L, t=text(rng, L, rng.random() < .6))])
    for _ in range(ctx.pick(2000, 20000)):
        L = lines(rng)
        cases.append([dict(op="file", f=rng.choice(NAMES), L=L, t=text(rng, L, rng.random() < .6))])
    ctx.conform(exe, cases, "TrXY", "files of all line kinds")
    ctx.assumptions += ["file and directory names from a fixed alphabet", "coordinates are multiples of 1/4", "no name is listed twice in an order.txt"]


PARTS = ["a", "b", "ab", "A", "a b", "a.b", "-", "0", "é"]


def p23(ctx):
    exe = ctx.build("xy", "d_xy.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANT Complete Mirrors Grouped PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxFiles = %d\n Emit = TRUE\n"
    gen = ctx.gen("MCXY", cfg % ctx.pick(3, 5), workers=8)
    cases = []
    for g in gen:
        c = tree_case(rng, g, g["names"], 14)
        for e in c[1:]:
            e["via"] = int(rng.random() < .85)
        cases.append(c)
    for _ in range(ctx.pick(1500, 15000)):
        tr, names = rtree(rng)
        c = tree_case(rng, tr, names, rng.randint(6, 24))
        for e in c[1:]:
            e["via"] = int(rng.random() < .85)
        cases.append(c)
    ctx.conform(exe, cases, "TrXY", "queries through the cache")

    import itertools
    parts = PARTS[:-1] + ["\xe9"]
    small = ["a", "b", "ab", ""]
    cases = []
    for n in range(0, 4):
        for p in itertools.product(small + ["a/b", "/", "x/"], repeat=n):
            cases.append([dict(op="name", p=list(p), one=0)])
            if not any("/" in x for x in p) and n:
                cases.append([dict(op="name", p=list(p), one=1)])
    b = lambda p: list("/".join(p).encode("latin-1"))
    all2 = [list(p) for n in (1, 2, 3) for p in itertools.product(["a", "ab", "b"], repeat=n)]
    for p in all2:
        for q in all2:
            cases.append([dict(op="pair", p=p, q=q, pb=b(p), qb=b(q))])
    rp = lambda: [rng.choice(parts[:-1]) for _ in range(rng.randint(1, 5))]
    for _ in range(ctx.pick(3000, 30000)):
        p = rp()
        q = rng.choice([rp(), p[:rng.randint(1, len(p))], p + rp(), p[:-1] + [p[-1] + "a"], list(p)])
        cases.append([dict(op="pair", p=p, q=q, pb=b(p), qb=b(q)), dict(op="name", p=p, one=rng.randint(0, 1))])
    for _ in range(ctx.pick(300, 3000)):
        cases.append([dict(op="sorted", names=[rp()[:2] for _ in range(rng.randint(1, 8))])])
        n = rng.randint(0, 5)
        cases.append([dict(op="make", how=rng.randint(0, 2), xs=[rng.randint(-5, 5) for _ in range(n)], ys=[rng.randint(-5, 5) for _ in range(n)])])
        cases.append([dict(op="make", how=1, xs=[1] * n, ys=[2] * rng.randint(0, 5))])
    ctx.conform(exe, cases, "TrXY", "qualified names and data sets")
    ctx.assumptions += ["names of ASCII characters", "the wrapped provider is deterministic"]


CHECKS = dict(P22=p22, P23=p23)
