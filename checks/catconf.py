"""P32: the configurations for input catalogs."""
from checks.catalog import cell, fmt, NAN
SRC = ["Configuration/src/lib/", "SourceCatalog/src/lib/", "Table/src/lib/"]
QUOTED = ["-include", "boost/io/quoted.hpp"]
NONE = -99999
OPT = dict(file="cat", fmt="", idn="", idi=NONE, excl=[], miss=NONE, up="", uflag=NONE, zn="", zi=NONE, zen="", zei=NONE)


def line(rng, f, fc, ec, n=NONE, mag=NONE, k="f"):
    gap = lambda: rng.choice([" ", " ", "  ", "\t", " \t "])
    t = rng.choice(["", "", "", " ", "\t"]) + f + gap() + fc + gap() + ec
    if n != NONE:
        h = "%g" % (n / 2)
        t += gap() + (rng.choice([h, h, "0" + h, h + "e0"]) if n % 2 else rng.choice([h, h, h + ".0", h + "e0"]))
    if mag != NONE:
        t += gap() + "%d" % mag
    return dict(k=k, f=f, fc=fc, ec=ec, n=n, mag=mag, text=t + rng.choice(["", "", "", " ", "\t"]))


def comment(rng):
    return dict(k="com", f="", fc="", ec="", n=NONE, mag=NONE, text=rng.choice(["#", "# V f0 e0", "  # text", "#V f0 e0 1 1", "\t#", "## two"]))


def bad(rng):
    return dict(k="bad", f="", fc="", ec="", n=NONE, mag=NONE, text=rng.choice(["V", "V f0", "V f0 e0 # text", "V f0 e0 x", "V f0 e0 2 x", "V f0 e0 2 1 3", "V f0 #e0", "V f0 e0 2 1 #"]))


def num(t, n):
    s = "nan" if n == NAN else fmt(n)
    return dict(t=t, s=s, n=n, num=1, xs=[n], vx=1)


class Gen:
    def __init__(self, rng):
        self.r = rng

    def flux(self, f, st, good):
        """a flux and an error for a filter"""
        r = self.r
        flag, uflag, miss, up = st
        if f["mag"] == 1:
            fl = r.choice([160 * r.randint(-1, 4)] * 3 + [flag if flag % 160 or flag > 960 or flag < -160 else 0, NAN])
            er = r.choice([64, 128, 192, 64] + ([-64, -128, uflag, uflag] if up or not good else []) + ([] if good else [0]))
            return (fl, r.choice([0, 64, -64])) if fl in (flag, NAN) else (fl, er)
        fl = r.choice([60 * r.randint(1, 900)] * 5 + [-60 * r.randint(1, 90), 0] + ([flag, NAN, flag] if miss or not good else []))
        er = r.choice([r.randint(1, 500)] * 3 + ([-r.randint(1, 500), uflag] if up and (not good or 0 < fl < NAN) else []) + ([] if good else [0, -5]))
        if fl in (flag, NAN) and r.random() < .5:
            er = r.choice([0, -64, 64, -6336])
        return fl, er

    def ntype(self, n, fits):
        if n == NAN:
            return ["double", "float"]
        return ["double", "double", "float"] + (["int", "long"] if n % 64 == 0 else []) + ["string"]

    def run(self):
        r = self.r
        content = r.choice(["asc", "asc", "fits"])
        fits = content == "fits"
        good = r.random() < .85
        regs = r.choice([["phot"], ["phot", "specz"], ["band", "phot", "specz", "pdf"], ["specz"], ["pdf"], [], ["band"], ["pdf", "specz"], ["specz", "phot"], ["phot", "band"]])
        o = dict(OPT)
        e = dict(op="run", content=content, regs=regs, base=r.choice([0, 1, 1, 2]), mapopt=r.choice(["", "my.map"]), nomap=0, last=r.choice([0, 1, 1]), chunk=r.choice([1, 1, 2, 3, 100]))
        o["fmt"] = r.choice(["", "", "AUTO", "FITS" if fits else "ASCII"])
        if r.random() < .6:
            o["miss"] = r.choice([-6336, -6336, 0, 320, -64, 6000])
        o["up"] = r.choice(["", "", "YES", "YES", "NO", "yes"])
        if r.random() < .5:
            o["uflag"] = r.choice([-6336, -64, 64, -60])
        st = (o["miss"] if o["miss"] != NONE else -6336, o["uflag"] if o["uflag"] != NONE else -6336, o["miss"] != NONE, o["up"] == "YES")
        # the filters
        k = r.choice([0, 1, 2, 3, 4])
        names = r.sample(["V", "B", "g/r", "F1", "F10", "v", "VIS", "a-b"], k)
        fs = []
        for i, f in enumerate(names):
            n = r.choice([NONE, 2, 3, 4, 5, 6, 8, 10])
            mag = 0 if n == 3 else NONE if n == NONE else r.choice([NONE, 0, 0, 1] if st[2] else [NONE, 0])
            fs.append(line(r, f, "f%d" % i, "e%d" % i, n, mag))
        lines = list(fs)
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.insert(r.randint(0, len(lines)), comment(r))
        if r.random() < .3 and names:
            o["excl"] = r.sample(names, r.randint(1, len(names)))
            if r.random() < .3:
                o["excl"].append(o["excl"][0])
        # the columns: ids, fluxes, errors, redshifts, vectors, others
        cols = [["ID", "id"]]
        for f in fs:
            cols += [[f["fc"], ("flux", f)], [f["ec"], ("err", f)]]
        cols += [["Z", "num"], ["ZE", "num"], ["P", "vec"], ["x", "any"], ["id", "id2"], ["z", "num"]][:r.choice([2, 3, 3, 4, 5, 6])]
        if r.random() < .7:
            r.shuffle(cols)
        if r.random() < .3 and len(cols) > 2:
            i = [c[1] for c in cols].index("id")
            cols[i][0] = r.choice(["OBJECT", "Id", "name"])
            o["idn"] = cols[i][0]
        ids = ["int", "long", "string", "string", "long"]
        n = r.choice([1, 2, 3, 5])
        # the types come from the first row; the values of a column fit it
        ty = {}
        vlen = r.choice([2, 3, 3] if fits else [1, 2, 3, 3])
        idt = r.choice(ids) if r.random() < .95 else r.choice(["double", "bool"])
        idv = r.sample(range(-9, 60), n)
        if n > 1 and r.random() < .06:
            idv[-1] = idv[0]
            e["dup"] = 1
        fv = {f["f"]: [self.flux(f, st, good or r.random() < .5) for _ in range(n)] for f in fs}
        rows = []
        data = []
        for c in cols:
            k = c[1]
            if k in ("id", "id2"):
                t = idt if k == "id" else r.choice(["int", "string", "long"])
                v = idv if k == "id" else r.sample(range(99), n)
                if t == "string":
                    form = r.choice(["%d", "s%d", "NGC %d", "x_%d"])
                    col = [num(t, 64 * x) if form == "%d" else dict(t=t, s=form % x, n=0, num=0, xs=[], vx=0) for x in v]
                elif t == "bool":
                    col = [num("bool", 64 * r.randint(0, 1)) for x in v]
                elif t == "long" and good and r.random() < .5:
                    col = [dict(t=t, s=str((1 << 40) + x), n=0, num=0, xs=[], vx=0) for x in v]
                else:
                    col = [num(t, 64 * x) for x in v]
            elif isinstance(k, tuple):
                v = [p[0 if k[0] == "flux" else 1] for p in fv[k[1]["f"]]]
                ok = ["double", "double", "float"]
                if all(x != NAN and x % 64 == 0 for x in v):
                    ok += ["int", "long"]
                if all(x != NAN for x in v):
                    ok.append("string")
                t = r.choice(ok)
                col = [num(t, x) for x in v]
            elif k == "num":
                t = r.choice(["double", "double", "float", "int", "long", "string"])
                while True:
                    col = [cell(r, t) for _ in range(n)]
                    if all(x["num"] for x in col) or not good and r.random() < .2:
                        break
            elif k == "vec":
                t = r.choice(["[double]", "[float]"])
                col = []
                for _ in range(n):
                    ln = vlen if fits or r.random() < .97 else vlen + 1
                    ns = [r.randint(-640, 640) for _ in range(ln)]
                    col.append(dict(t=t, s="[" + "".join(fmt(x) + ";" for x in ns) + "]", n=0, num=0, xs=ns, vx=1))
            else:
                t = r.choice(["bool", "int", "double", "string"])
                col = [cell(r, t) for _ in range(n)]
            ty[c[0]] = t
            data.append(col)
        rows = [[data[j][i] for j in range(len(cols))] for i in range(n)]
        cn = [c[0] for c in cols]
        at = lambda nm: cn.index(nm) + 1
        if not o["idn"] and r.random() < .3:
            o["idi"] = at("ID")
        if "specz" in regs:
            for name, nn, ii in (("Z", "zn", "zi"), ("ZE", "zen", "zei")):
                name = r.choice([c[0] for c in cols if c[1] == "num"]) if r.random() < .3 else name
                if nn == "zn" or r.random() < .5:
                    if r.random() < .5:
                        o[nn] = name
                    else:
                        o[ii] = at(name)
        e["pdf"] = dict(col=r.choice(["P"] * 9 + ["x", "Z"]) if "P" in cn else r.choice(["Z", "P"]), n=vlen if r.random() < .95 else r.choice([1, 2, 3]))
        if e["pdf"]["col"] != "P" and good:
            e["pdf"] = dict(col="Z", n=1)
        e["how"] = r.choice(["table", "catalog", "catalog", "chunk"])
        if e.pop("dup", 0) and e["how"] == "chunk":
            e["how"] = "catalog"
        if idt == "bool" and e["how"] == "chunk":
            e["how"] = "catalog"
        # what goes wrong
        for _ in range(0 if good else r.choice([0, 1, 1, 2])):
            w = r.randrange(13)
            if w == 0: o["file"] = ""
            elif w == 1: o["fmt"] = r.choice(["fits", "X", "ASCI", "auto"])
            elif w == 2: o["idn"], o["idi"] = r.choice(cn), r.randint(1, len(cn))
            elif w == 3: o["idn"], o["idi"] = "", r.choice([0, -1, len(cn) + 1, len(cn), 100, -2147483647])
            elif w == 4: o["idn"], o["idi"] = r.choice(["nope", "Id", "iD"]), NONE
            elif w == 5: e["content"] = r.choice(["none", "dir"])
            elif w == 6 and content == "asc": o["fmt"] = "FITS"
            elif w == 7: lines.insert(r.randint(0, len(lines)), bad(r))
            elif w == 8: e["nomap"] = r.choice([1, 2])
            elif w == 9: o["excl"] = o["excl"] + [r.choice(["nope", "", "Vi", "F"])]
            elif w == 10 and lines:
                x = r.choice([x for x in lines if x["k"] == "f"] or [comment(r)])
                if x["k"] == "f":
                    i = lines.index(x)
                    lines[i] = line(r, x["f"], x["fc"], r.choice(["nope", "E0"]), x["n"], x["mag"]) if r.random() < .5 else line(r, x["f"], "nope", x["ec"], x["n"], x["mag"])
            elif w == 11: o[r.choice(["zn", "zen"])] = r.choice(["nope", "z", "Z", ""])
            elif w == 12: o[r.choice(["zi", "zei"])] = r.choice([0, -1, len(cn), len(cn) + 1, NONE])
        if e["how"] == "chunk" and o["idi"] != NONE and not good:
            e["how"] = "catalog"
        if "" in o["excl"]:
            o["excl"].remove("")
        e.update(o)
        e.update(lines=lines, cols=cn, ty=[ty[c] for c in cn], rows=rows,
                 lead=r.choice([[], [], ["# a catalog"], ["# SIMPLE  =  T", "#" * 100], [""], ["#" + "-" * 90, "", "# text"], ["  # SIMPLE"]]) if content == "asc" else [])
        return e


def full(r, e):
    """a program of the specification, with the texts and what does not matter"""
    e.pop("obs")
    for row in e["rows"]:
        for c in row:
            if c["s"] == "?":
                c["s"] = "nan" if c["n"] == NAN else fmt(c["n"]) if c["num"] else "[" + "".join(fmt(x) + ";" for x in c["xs"]) + "]"
    e["lines"] = [comment(r) if x["k"] == "com" else bad(r) if x["k"] == "bad" else line(r, x["f"], x["fc"], x["ec"], x["n"], x["mag"]) for x in e["lines"]]
    e.update(base=r.choice([0, 1, 2]), mapopt=r.choice(["", "my.map"]), last=r.choice([0, 1]), chunk=r.choice([1, 2, 3, 4]), lead=r.choice([[], ["# a catalog"]]))
    return e


def p32(ctx):
    exe = ctx.build("catconf", "d_catconf.cpp", SRC, repo_flags=QUOTED)
    cfg = "SPECIFICATION Spec\nINVARIANT Sound PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Emit = TRUE\n"
    cases = [[full(ctx.rng, e)] for e in ctx.gen("MCCatConf", cfg, workers=8)]
    ctx.conform(exe, cases, "TrCatConf", "every program of the specification")
    g = Gen(ctx.rng)
    cases = [[g.run()] for _ in range(ctx.pick(16000, 160000))]
    ctx.conform(exe, cases, "TrCatConf", "programs with catalog files, mappings and options")
    ctx.assumptions += ["CCfits is represented by an in-memory stand-in", "no filter is mapped twice", "magnitudes are multiples of 5/2 and come with a missing photometry flag"]


CHECKS = {"P32": p32}
