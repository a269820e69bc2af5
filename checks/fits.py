"""P30: tables in FITS files, and datasets read from them (through an in-memory stand-in for CCfits)."""
from checks.table import cell, string, el, canon, SCALAR, VEC, ND, TYPES
SRC = ["Table/src/lib/", "XYDataset/src/lib/FitsParser.cpp", "XYDataset/src/lib/StringFunctions.cpp", "XYDataset/src/lib/XYDataset.cpp"]
QUOTED = ["-include", "boost/io/quoted.hpp"]
NAMES = ["A", "B", "TAB", "x1", "Long Name"]
CN = ["a", "b", "A", "col 1", "x", "-", "c1", "ab"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ev = [dict(op="new")]
        self.f = [None, None, None]          # None or a list of HDUs
        self.w = []

    def add(self, **k):
        k.setdefault("f", 1)
        self.ev.append(k)

    # a cell that fits a column: the sizes of arrays are given by the column, the width of texts by the first rows
    def cell(self, fmt, c, lim):
        r = self.r
        while True:
            x = cell(r, c["type"])
            t = x["t"]
            if t in VEC:
                x = dict(t=t, sh=[], x=[cell(r, el(t))["x"][0] for _ in range(c["n"])])
            elif t in ND:
                n = 1
                for k in c["sh"]:
                    n *= k
                x = dict(t=t, sh=list(c["sh"]), x=[cell(r, el(t))["x"][0] for _ in range(n)])
            elif t == "string":
                s = x["x"][0].rstrip()
                if r.random() < .3:
                    s = r.choice("abcx1")
                if not s or lim and len(s) > lim:
                    continue
                x["x"] = [s]
            elif fmt == "asc":
                if t in ("float", "double"):
                    x["x"] = [canon(r.choice([1, -1]) * r.randint(1, 99999), r.randint(-9, 3))]
                elif lim and len(x["x"][0]) > lim:
                    x["x"] = [str(r.randint(0, 9))]
            return x

    def cols(self, fmt, bad=False):
        r = self.r
        ok = [t for t in (SCALAR if fmt == "asc" else TYPES) if t != "[bool]"]
        names = r.sample(CN, r.randint(1, 4)) if r.random() < .97 else ["c_%d" % i for i in range(r.randint(9, 14))]
        cs = [dict(name=n, type=r.choice(ok), unit=r.choice(["", "m", "erg / s"]), desc=r.choice(["", "d", "two words", " x"]), n=r.choice([1, 1, 2, 3]),
                   sh=r.choice([[1], [2], [1, 1], [2, 3], [3, 2], [2, 1, 2], [1, 4]])) for n in names]
        return cs

    def rows(self, fmt, cols, lim=None, n=None):
        n = n or self.r.choice([1, 1, 2, 3, 5] * 8 + [30 if len(cols) < 5 else 5])
        return [[self.cell(fmt, c, lim[i] if lim else 0) for i, c in enumerate(cols)] for _ in range(n)]

    def limits(self, fmt, cols, rows):
        return [max(len(w[i]["x"][0]) for w in rows) if c["type"] == "string" or fmt == "asc" and c["type"] in ("bool", "int", "long") else 0 for i, c in enumerate(cols)]

    def pub(self, cols):
        return [dict(name=c["name"], type=c["type"], unit=c["unit"], desc=c["desc"]) for c in cols]

    def spoil(self, fmt, cols, rows):
        """a table that cannot be written"""
        r = self.r
        cols, rows = [dict(c) for c in cols], [list(w) for w in rows]
        i = r.randrange(len(cols))
        if fmt == "asc":
            t = r.choice(VEC + ND)
            cols[i]["type"] = t
            for w in rows:
                w[i] = cell(r, t)
        elif r.random() < .5:
            cols[i]["type"] = "[bool]"
            for w in rows:
                w[i] = dict(t="[bool]", sh=[], x=["1", "0"])
        else:
            t = r.choice(VEC[1:] + ND)
            cols[i]["type"] = t
            rows = rows + [list(rows[0])]
            for k, w in enumerate(rows):
                m = 2 if k < len(rows) - 1 else r.choice([1, 3])
                w[i] = dict(t=t, sh=[m] if t in ND else [], x=["1"] * m)
            if t in ND and r.random() < .5:             # same size, other shape
                rows[-1][i] = dict(t=t, sh=[1, 2], x=["1"] * 2)
        return cols, rows

    def writer(self):
        r = self.r
        f = r.randrange(3)
        shared, over = int(r.random() < .4), int(r.random() < .3)
        self.add(op="writer", f=f + 1, shared=shared, over=over)
        fmt = r.choice(["bin", "bin", "asc"])
        if over or r.random() < .5:             # (the earlier writers of the file are done)
            for w in self.w:
                if w["f"] == f:
                    w["live"] = False
        if shared and (over or self.f[f] is None):
            self.f[f] = []
        hd = [] if over or self.f[f] is None else self.f[f]
        busy = {id(w["h"]) for w in self.w if w["live"] and w["f"] == f}
        w = dict(f=f, live=True, h=None, n=len(self.w) + 1)
        self.w.append(w)
        old = [h for h in hd if h["src"] == "w" and id(h) not in busy]
        name = r.choice([n for n in NAMES if n not in [h["name"] for h in hd]] + ([""] if "" not in [h["name"] for h in hd] else []))
        target = None
        if old and r.random() < .6:
            target = r.choice(old)
            name, fmt = target["name"], target["kind"]
        imgs = [h["name"] for h in hd if h["kind"] == "img"]
        sets = []
        if fmt == "asc" or r.random() < .3:
            sets.append(("fmt", fmt))
        if name or r.random() < .3:
            sets.append(("hdu", name))
        for _ in range(r.choice([0, 0, 1, 2])):
            sets.append(("com", r.choice(["a comment", "x", "two  words", "1"])))
        r.shuffle(sets)
        for k, x in sets:
            self.add(op="set", w=w["n"], what=k, x=x)
        cols = target["cols"] if target else self.cols(fmt)
        rows = self.rows(fmt, cols, target["lim"] if target else None)
        if target:
            rows = rows
        if r.random() < .25:
            c, b = self.spoil(fmt, cols, rows)
            self.add(op="add", w=w["n"], cols=self.pub(c), rows=b)
        if imgs and not target and r.random() < .5:      # the name of an image
            self.add(op="set", w=w["n"], what="hdu", x=r.choice(imgs))
            self.add(op="add", w=w["n"], cols=self.pub(cols), rows=rows)
            self.add(op="set", w=w["n"], what="hdu", x=name)
        self.add(op="add", w=w["n"], cols=self.pub(cols), rows=rows)
        if over and not shared or self.f[f] is None:
            self.f[f] = []
        if not target:
            target = dict(name=name, kind=fmt, cols=cols, lim=self.limits(fmt, cols, rows), src="w", n=len(cols), dbl=all(c["type"] in ("float", "double") for c in cols))
            self.f[f].append(target)
        w["h"] = target

    def more(self):
        r = self.r
        ws = [w for w in self.w if w["live"]]
        if not ws:
            return self.writer()
        w = r.choice(ws)
        h = w["h"]
        k = r.random()
        rows = self.rows(h["kind"], h["cols"], h["lim"])
        if k < .2:
            self.add(op="set", w=w["n"], what=r.choice(["fmt", "hdu", "com"]), x="asc")
        elif k < .35:
            c = [dict(x) for x in h["cols"]]
            r.choice(c)[r.choice(["name", "unit", "desc"])] += "z"
            ok = all(a["name"] == b["name"] and a["unit"] == b["unit"] for a, b in zip(c, h["cols"]))
            if len({x["name"] for x in c}) == len(c):
                self.add(op="add", w=w["n"], cols=self.pub(c), rows=rows)
        else:
            self.add(op="add", w=w["n"], cols=self.pub(h["cols"]), rows=rows)

    def other(self):
        r = self.r
        f = r.randrange(3)
        if self.f[f] is None:
            self.f[f] = []
        name = r.choice([n for n in NAMES + ["IMG", "RAW"] if n not in [h["name"] for h in self.f[f]]])
        if r.random() < .4:
            self.add(op="image", f=f + 1, name=name)
            self.f[f].append(dict(name=name, kind="img", src="r", n=0))
            return
        kind = r.choice(["bin", "bin", "asc"])
        cols, k = [], r.randint(1, 4)
        two = r.random() < .3
        if two:
            k, kind = 2, "bin"
        for i in range(k):
            nm = r.choice(["", "", "p%d" % i, "q%d" % i])
            if kind == "asc":
                c = r.choice("AIFED")
                n = dict(A=9, I=11, F=14, E=14, D=14)[c]
                dims, dec = [], {"F": ".6", "E": ".6", "D": ".6"}.get(c, "")
            else:
                c = "D" if two else r.choice("LBIJKEDABIJKEDAB" + "L")
                n = r.choice([0, 1, 1, 2, 4, 6]) if c != "A" else r.choice([0, 1, 3, 8])
                if two:
                    n = r.choice([0, 1])
                dims, dec = [], ""
                if c not in "LA" and n in (4, 6) and r.random() < .6:
                    dims = r.choice({4: [[4], [2, 2], [1, 4]], 6: [[2, 3], [3, 2], [1, 2, 3]]}[n])
            cols.append(dict(name=nm, f=dict(n=n, c=c), unit=r.choice(["", "m"]), desc=r.choice(["", "", "what", "x y"]), dims=dims, dec=dec))

        def val(c, n):
            if c == "A":
                return "".join(r.choice("abcXYZ01._") for _ in range(r.randint(1, max(1, n))))
            if c == "L":
                return r.choice("01")
            if c == "B":
                return str(r.randint(0, 255))
            if c == "I":
                return str(r.randint(-32768, 32767))
            if c == "J":
                return str(r.randint(-2**31, 2**31 - 1))
            if c == "K":
                return str(r.randint(-2**62, 2**62))
            return canon(r.randint(-99999, 99999), r.randint(-4, 3))
        rows = [[[val(c["f"]["c"], c["f"]["n"]) for _ in range(c["f"]["n"] if kind == "bin" and c["f"]["c"] != "A" and c["f"]["n"] > 1 else 1)] for c in cols] for _ in range(r.choice([0, 1, 2, 4]))]
        self.add(op="raw", f=f + 1, name=name, kind=kind, cols=cols, rows=rows)
        self.f[f].append(dict(name=name, kind=kind, src="r", n=len(cols)))
        if r.random() < .4:
            self.add(op="key", f=f + 1, h=r.randint(1, len(self.f[f])), k=r.choice(["DSNAME", "OTHER"]), x=r.choice(["set", "my data", ""]))

    def read(self):
        r = self.r
        f = r.randrange(3)
        hd = self.f[f] or []
        fixn = []
        by = r.choice(["name", "index", "hdu", "first"])
        ix = 1 if by == "first" else r.randint(0 if r.random() < .1 else 1, max(1, len(hd) + (r.random() < .1)))
        name = r.choice([h["name"] for h in hd] + ["nope"] * (r.random() < .1 or not hd))
        h = next((x for x in hd if x["name"] == name), None) if by == "name" else hd[ix - 1] if 1 <= ix <= len(hd) else None
        if r.random() < .3 and h:
            n = h["n"] + (r.choice([-1, 1]) if r.random() < .2 else 0)
            fixn = ["n%d" % i for i in range(n)]
            if r.random() < .15 and fixn:
                fixn[-1] = r.choice(["", "a b", fixn[0]])
                if len(fixn) == 1 and fixn[0] == "n0":
                    fixn = []
        self.add(op="open", f=f + 1, by=by, ix=ix, name=name, fixn=fixn)
        began = False
        for _ in range(r.randint(1, 7)):
            k = r.random()
            if k < .2:
                self.add(op="info")
            elif k < .3:
                self.add(op="has")
            elif k < .42:
                self.add(op="left")
            elif k < .5:
                self.add(op="comment")
                continue
            elif k < .55 and began:
                self.add(op="late")
                continue
            elif k < .7:
                self.add(op="skip", n=r.choice([0, 1, 1, 2, 3, 9]))
            else:
                self.add(op="read", n=r.choice([1, 1, 2, 3, -1, -1, -5]))
            began = True

    def dataset(self):
        r = self.r
        f = r.randint(1, 3)
        k = r.choice(["isds", "dsname", "param", "ds", "ds", "hdus"])
        self.add(op=k, f=f, k=r.choice(["DSNAME", "OTHER", "NONE", ""]))


def case(rng):
    g = Gen(rng)
    for _ in range(rng.randint(3, 12)):
        k = rng.random()
        if k < .2 and len(g.w) < 5:
            g.writer()
        elif k < .4:
            g.more()
        elif k < .55:
            g.other()
        elif k < .85:
            g.read()
        else:
            g.dataset()
    return g.ev


def p30(ctx):
    exe = ctx.build("fits", "d_fits.cpp", SRC, repo_flags=QUOTED)
    cfg = "SPECIFICATION Spec\nINVARIANT Typed Rejected ReadOnly Grows Bounds PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Emit = TRUE\n" % ctx.pick(4, 5)
    gen = ctx.gen("MCFits", cfg, workers=8)
    ctx.conform(exe, [[dict(op="new", f=1)] + h for h in gen], "TrFits", "every history of a writer, an image and a reader")
    cases = [case(ctx.rng) for _ in range(ctx.pick(8000, 80000))]
    ctx.conform(exe, cases, "TrFits", "writers, foreign tables, readers and datasets on three files")
    ctx.assumptions += ["CCfits is replaced by an in-memory stand-in", "texts and numbers appended later are not wider than those written first, arrays have the size of the first ones and at least one element",
                        "no trailing blanks in texts", "numbers in ASCII tables have at most five significant digits"]


CHECKS = dict(P30=p30)
