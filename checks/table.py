"""P16-P19: Table."""
import itertools
SRC = ["Table/src/lib/!FitsReader,FitsReaderHelper,FitsWriter,FitsWriterHelper"]
QUOTED = ["-include", "boost/io/quoted.hpp"]
SCALAR = ["bool", "int", "long", "float", "double", "string"]
VEC = ["[bool]", "[int]", "[long]", "[float]", "[double]"]
ND = ["[int+]", "[long+]", "[float+]", "[double+]"]
TYPES = SCALAR + VEC + ND


def el(t):
    return t.strip("[]+")


def canon(m, e):
    """the plain decimal text of m * 10^e"""
    if m == 0:
        return "0"
    neg, m = m < 0, abs(m)
    d = str(m).rstrip("0")
    e += len(str(m)) - len(d)
    p = len(d) + e
    if p <= 0:
        r = "0." + "0" * -p + d
    elif p >= len(d):
        r = d + "0" * (p - len(d))
    else:
        r = d[:p] + "." + d[p:]
    return ("-" if neg else "") + r


INTS = ["0", "1", "-1", "7", "42", "-2147483648", "2147483647", "100000"]
LONGS = INTS + ["9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649", "123456789012"]


def value(rng, t, wide):
    if t == "bool":
        return rng.choice("01")
    if t == "int":
        return rng.choice([rng.choice(INTS), str(rng.randint(-999, 999)), str(rng.randint(-2**31, 2**31 - 1))])
    if t == "long":
        return rng.choice([rng.choice(LONGS), str(rng.randint(-2**62, 2**62))])
    if rng.random() < .1:
        return "0"
    if rng.random() < .4:
        return canon(rng.randint(-4000, 4000) * 25, -2)
    s = rng.choice([1, -1])
    m = rng.randint(1, 999999)
    if wide:
        return canon(s * m, rng.randint(-36, 30))
    e = rng.randint(-4 - len(str(m)) + 1, 6 - len(str(m)))
    return canon(s * m, e)


SCH = list("abcXYZ019-_.,:;()[]<>'\\/ ")
WORDS = ["a", "a b", "x\"y", "\"", "\\", "\\\"", "a\\ b", "it's", "a,b", "1", "true", "-", "(m)", "<1>2", "  lead", "tail  ", "Column:", "\"q\"", "a\tb", "null", "()", "%d", "a  b"]


def string(rng, bad=()):
    while True:
        s = rng.choice(WORDS) if rng.random() < .5 else "".join(rng.choice(SCH) for _ in range(rng.randint(1, 8) if rng.random() < .98 else rng.randint(30, 200)))
        if s and not any(b and b in s for b in bad):
            return s


def cell(rng, t, wide=True, bad=(), empty=False):
    if t == "string":
        return dict(t=t, sh=[], x=[string(rng, bad)])
    if t in SCALAR:
        return dict(t=t, sh=[], x=[value(rng, t, wide)])
    if t in VEC:
        return dict(t=t, sh=[], x=[value(rng, el(t), wide) for _ in range(rng.randint(0 if empty else 1, 4) if rng.random() < .98 else rng.randint(10, 70))])
    sh = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))] if rng.random() < .98 else rng.choice([[12], [3, 11], [10, 2], [2, 1, 13], [1, 2, 1, 2, 2]])
    n = 1
    for k in sh:
        n *= k
    return dict(t=t, sh=sh, x=[value(rng, el(t), wide) for _ in range(n)])


# ------------------------------------------------------------------------ P16
NAMES = ["a", "b", "A", "col 1", "x", "a\"b", "Ünit".encode("ascii", "ignore").decode(), "-", "(c)", "c1", "ab"]
MANY = ["n_%d" % i for i in range(1, 31)]
BADTEXT = ["", "a\nb", "\n", "x\r", "a\fb"]


def rcols(rng, bad=False):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if bad else rng.randint(1, 4)
    if rng.random() < .03:
        n = rng.randint(5, 24)
    names = rng.sample(NAMES + MANY, n) if n > 4 else [rng.choice(NAMES) for _ in range(n)] if bad and rng.random() < .3 else rng.sample(NAMES, n)
    if bad and names and rng.random() < .2:
        names[rng.randrange(n)] = rng.choice(BADTEXT)
    return [dict(name=m, type=rng.choice(TYPES), unit=rng.choice(["", "", "m", "erg / s"]), desc=rng.choice(["", "d", "two words"])) for m in names]


def okcols(c):
    n = [x["name"] for x in c]
    return bool(n) and len(set(n)) == len(n) and not any(m in BADTEXT for m in n)


def variant(rng, cols):
    c = [dict(x) for x in cols]
    i = rng.randrange(len(c))
    f = rng.choice(["name", "type", "unit", "desc", "none", "drop", "swap"])
    if f == "drop" and len(c) > 1:
        c.pop(i)
    elif f == "swap" and len(c) > 1:
        c.append(c.pop(0))
    elif f in ("name", "unit", "desc"):
        c[i][f] += "z"
    elif f == "type":
        c[i][f] = rng.choice(TYPES)
    return c


def p16_case(rng):
    ev, infos, rows, tables = [dict(op="new")], [], [], []
    for _ in range(rng.randint(1, 3)):
        c = variant(rng, rng.choice(infos)) if infos and rng.random() < .6 else rcols(rng, True)
        ev.append(dict(op="info0", cols=c))
        if okcols(c):
            infos.append(c)
    if not infos:
        return ev
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < .12:
            ev.append(dict(op="find", i=rng.randrange(len(infos)), name=rng.choice(NAMES + ["nope", ""])))
        elif r < .25:
            ev.append(dict(op="eq", i=rng.randrange(len(infos)), j=rng.randrange(len(infos))))
        elif r < .6:
            i = rng.randrange(len(infos))
            cs = [cell(rng, x["type"], True, (), True) for x in infos[i]]
            good = True
            q = rng.random()
            if q < .08:
                cs.pop(rng.randrange(len(cs)))
                good = False
            elif q < .14:
                cs.append(cell(rng, "int"))
                good = False
            elif q < .22:
                k = rng.randrange(len(cs))
                t = rng.choice(TYPES)
                good = t == infos[i][k]["type"]
                cs[k] = cell(rng, t)
            elif q < .3 and any(c["t"] == "string" for c in cs):
                rng.choice([c for c in cs if c["t"] == "string"])["x"] = [rng.choice(BADTEXT)]
                good = False
            if q > .97:
                i, good = -1, False
            ev.append(dict(op="row", i=i, cells=cs))
            if good:
                rows.append(i)
        elif rows and r < .7:
            k = rng.randrange(len(rows))
            ev.append(dict(op="cell", r=k, n=rng.randint(0, len(infos[rows[k]]) + 1)))
        elif rows and r < .78:
            ev.append(dict(op="cellname", r=rng.randrange(len(rows)), name=rng.choice(NAMES)))
        elif rows and r < .92:
            l = [rng.randrange(len(rows)) for _ in range(rng.randint(0, 4))]
            ev.append(dict(op="table", rows=l))
            key = lambda i: [(c["name"], c["type"], c["unit"]) for c in infos[i]]
            if l and all(key(rows[k]) == key(rows[l[0]]) for k in l):
                tables.append(l)
        elif tables:
            t = rng.randrange(len(tables))
            ev.append(dict(op="trow", t=t, n=rng.randint(0, len(tables[t]) + 1)))
    return ev


def p16(ctx):
    exe = ctx.build("table", "d_table.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    mc_tab(ctx, 3)
    cases = []
    # every type in a column against every type in the cell
    for t in TYPES:
        for u in TYPES:
            cases.append([dict(op="new"), dict(op="info0", cols=[dict(name="a", type=t, unit="", desc="")]), dict(op="row", i=0, cells=[cell(rng, u)])])
    for c1 in itertools.product(["a", "b"], ["int", "string"], ["", "m"], ["", "d"]):
        for c2 in itertools.product(["a", "b"], ["int", "string"], ["", "m"], ["", "d"]):
            k = ["name", "type", "unit", "desc"]
            cases.append([dict(op="new"), dict(op="info0", cols=[dict(zip(k, c1))]), dict(op="info0", cols=[dict(zip(k, c2))]), dict(op="eq", i=0, j=1),
                          dict(op="row", i=0, cells=[cell(rng, c1[1])]), dict(op="row", i=1, cells=[cell(rng, c2[1])]), dict(op="table", rows=[0, 1])])
    cases += [p16_case(rng) for _ in range(ctx.pick(6000, 80000))]
    ctx.conform(exe, cases, "TrTab", "infos, rows and tables")
    ctx.assumptions += ["ASCII names and texts", "vertical white space is represented by newline, carriage return and form feed"]


# ------------------------------------------------------------------------ P17
INDICATORS = ["", "", "", "%", "//", "!!"]


def ops(rng, n, comment):
    ev = []
    for _ in range(n):
        r = rng.random()
        if r < .12:
            ev.append(dict(op="info"))
        elif r < .27:
            ev.append(dict(op="has"))
        elif r < .42:
            ev.append(dict(op="left"))
        elif r < .5:
            ev.append(dict(op="comment") if comment else dict(op="left"))
        elif r < .55:
            ev.append(dict(op="late" if any(x["op"] not in ("has", "left") for x in ev) else "has"))
        elif r < .68:
            ev.append(dict(op="skip", n=rng.choice([0, 1, 1, 2, 3, -1, 9])))
        else:
            ev.append(dict(op="read", n=rng.choice([1, 1, 2, 3, -1, 7])))
    return ev


UNITS = ["", "", "m", "erg / s", "erg/(s cm2)", " m ", "10^-3", "a - b", "()", "\"u\""]
DESCS = ["", "", "d", "two words", "a  b", "with (parens)", "- dash", "quote \" here", "\"quoted\"", "int (m) - x", "tab\there", "Column: z"]


def clean(bad, l):
    return [s for s in l if not any(b in s for b in bad)]


def write_case(rng, full):
    ci = rng.choice(INDICATORS)
    bad = [ci or "#"]
    n = rng.randint(1, 4) if rng.random() < .97 else rng.randint(5, 24)
    nm = (MANY if n > 4 else []) + clean(bad, [x for x in NAMES if x] + ["a b", "x\ty", " z", "q\\", "\"", "1", "12 3", "col2"])
    names = rng.sample(nm, n)
    show, fix = rng.choice([(1, 0), (1, 0), (1, 0), (0, 1), (0, 0)])
    cols = [dict(name=m, type=rng.choice(TYPES), unit=rng.choice(clean(bad, UNITS)), desc=rng.choice(clean(bad, DESCS))) for m in names]
    wide = show == 1 or fix == 1
    k = rng.randint(1, 5) if rng.random() < .98 else rng.randint(11, 40 if n < 5 else 12)
    rows = [[cell(rng, c["type"], wide, bad) for c in cols] for _ in range(k)]
    chunks, left = [], k
    while left:
        q = rng.randint(1, left)
        chunks.append(q)
        left -= q
    com = [rng.choice(clean(bad, ["a comment", "x", "", "two  words", "1 2 3", "- d", "a (b)", "\"q"])) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    e = dict(op="write", cols=cols, rows=rows, show=show, fix=fix, com=com, ci=ci, via=rng.randint(0, 2), wvia=int(rng.random() < .2), chunks=chunks, comsplit=rng.randint(0, 3))
    has = any(com)
    tail = [dict(op="info"), dict(op="read", n=-1), dict(op="has")]
    if has:
        tail.insert(rng.randint(0, 1), dict(op="comment"))
    return [dict(op="new"), e] + (ops(rng, rng.randint(3, 9), has) if full else tail)


def p17(ctx):
    exe = ctx.build("table", "d_table.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    mc_tab(ctx, 3)
    cases = [write_case(rng, rng.random() < .3) for _ in range(ctx.pick(6000, 80000))]
    ctx.conform(exe, cases, "TrTab", "written tables read back")
    ctx.assumptions += ["strings, names, units, descriptions and comments do not contain the comment indicator", "the first name does not start with 'Column:'",
                        "units have balanced parentheses, descriptions no white space at the ends", "numbers of at most six significant digits", "vectors written are not empty"]


# ------------------------------------------------------------------------ P18
KEYW = {"bool": ["bool", "boolean"], "int": ["int", "int32"], "long": ["long", "int64"], "[bool]": ["[bool]", "[boolean]"], "[int]": ["[int]", "[int32]"],
        "[long]": ["[long]", "[int64]"], "[int+]": ["[int+]", "[int32+]"], "[long+]": ["[long+]", "[int64+]"]}


def q(rng, s, p=.1):
    if s == "" or any(c in s for c in " \t\"") or rng.random() < p:
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return s


def ws(rng, lo=0):
    return "".join(rng.choice("  \t") for _ in range(rng.choice([lo, lo, lo + 1, lo + 2])))


def head_line(rng, h, ci):
    """-> (text of the line, the record of the specification)"""
    r = dict(k=h["k"], words=h.get("words", []), name=h.get("name", ""), type=h.get("type", ""), unit=h.get("unit", ""), desc=h.get("desc", ""), txt="", lead=0)
    if h["k"] == "blank":
        return ws(rng), r
    if h["k"] == "col":
        t = "Column:" + ws(rng, 1 if rng.random() < .9 else 0) + q(rng, r["name"], .15)
        if r["type"]:
            t += ws(rng, 1) + rng.choice(KEYW.get(r["type"], [r["type"]]))
        if r["unit"]:
            t += ws(rng, 1) + "(" + r["unit"] + ")"
        if r["desc"]:
            t += ws(rng, 1) + "-" + rng.choice([" ", "  ", "\t"]) + r["desc"]
    else:
        t = "".join(("" if i == 0 else ws(rng, 1)) + q(rng, w) for i, w in enumerate(r["words"]))
    r["txt"] = t
    r["lead"] = int(rng.random() < .15)
    return (rng.choice([" ", "\t", "  "]) if r["lead"] else "") + ci + ws(rng) + t + ws(rng), r


def render(rng, head, rows, ci):
    lines, recs = [], []
    for h in head:
        t, r = head_line(rng, h, ci)
        lines.append(t)
        recs.append(r)
    for i, row in enumerate(rows):
        if i or not head:
            while rng.random() < .12 and i:
                lines.append(rng.choice(["", "   ", ci + " note", ci, "  " + ci + " a b"]))
        # an unquoted token may not start with a quote; white space needs quotes
        l = ws(rng) + "".join(("" if k == 0 else ws(rng, 1)) + q(rng, "".join(t)) for k, t in enumerate(row)) + ws(rng)
        if rng.random() < .1:                         # the indicator must not begin inside the last token
            l += (" " if l.endswith(ci[0]) else "") + ci + rng.choice(["", " why", " 1 2"])
        lines.append(l)
    while rng.random() < .15:
        lines.append(rng.choice(["", "  ", ci + " end"]) if rows else "")
    return "\n".join(lines) + ("\n" if rng.random() < .7 else ""), recs


def spell(rng, t):
    """a number in another spelling"""
    r = rng.random()
    if r < .5:
        return t
    if r < .6 and not t.startswith("-"):
        return "+" + t
    if r < .7 and "." in t:
        return t + "00"
    if r < .78 and "." not in t:
        return t + "."
    if r < .84 and t.startswith("0."):
        return t[1:]
    if r < .92 and "." not in t:
        return t + rng.choice(["e0", "E+0", "e-00"])
    return t + "e2"


def token(rng, t, wrong):
    if wrong:
        return rng.choice({"bool": ["maybe", "2", "tru", "", "truee"], "string": [""], "int": ["x", "1.5", "2147483648", "1e3", "", "0x1", "1,2", "--1", "12a"],
                           "long": ["x", "9223372036854775808", "1.0", "-9223372036854775809", "", "5L"]}.get(t) or
                          (["x", "1.5.2", "1,2", "", "e5", "1x", "-"] if t in ("float", "double") else
                           ["1,x", "x", "1,2,y"] if t in VEC else ["1,2", "<2>1", "<2,2>1,2,3", "<2", "", "<2>1,2,3", "<x>1"]))
    if t == "bool":
        return rng.choice(["true", "t", "yes", "y", "1", "false", "f", "no", "n", "0", "TRUE", "True", "T", "YES", "Yes", "Y", "FALSE", "False", "F", "NO", "No", "N"])
    if t == "string":
        return string(rng, ["#", "%", "//", "!!"])
    if t in ("int", "long"):
        v = value(rng, t, False)
        return "+" + v if rng.random() < .1 and v[0] != "-" else "00" + v if rng.random() < .1 and v[0] != "-" else v
    if t in ("float", "double"):
        return spell(rng, value(rng, t, False))
    if t in VEC:
        s = ",".join(token(rng, el(t), False) for _ in range(rng.randint(1, 4)))
        return rng.choice([s, s, s, s + ",", "," + s, s.replace(",", ",,", 1)])
    sh = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    n = 1
    for k in sh:
        n *= k
    return "<" + ",".join(map(str, sh)) + ">" + ",".join(token(rng, el(t), False) for _ in range(n))


def open_case(rng):
    ci = rng.choice(INDICATORS)
    n = rng.randint(1, 4) if rng.random() < .97 else rng.randint(5, 24)
    names = rng.sample((MANY[1:] if n > 4 else []) + ["a", "b", "c", "a b", "x", "Y", "col2", "col1", "q\"r", "-", "n_1", "z.z"], n)
    types = [rng.choice(TYPES) for _ in range(n)]
    head = []
    mode = rng.choice(["none", "names", "cols", "both", "some", "both", "text"])
    colh = [dict(k="col", name=m, type=rng.choice([t, t, t, ""]), unit=rng.choice(clean("#%!", UNITS[:8])), desc=rng.choice(clean("#%!", DESCS[:10]))) for m, t in zip(names, types)]
    if mode in ("cols", "both", "some"):
        if mode != "cols" and rng.random() < .5:
            rng.shuffle(colh)
        if mode == "some":
            colh = colh[:rng.randint(0, n)]
        if rng.random() < .05:
            colh.append(dict(colh[0]) if colh else dict(k="col", name="dup", type="int"))
        head += colh
    names_line = mode in ("names", "both", "some")
    text = lambda: dict(k="text", words=[rng.choice(["some", "text", "is", "here", "a", "b", "1"]) for _ in range(rng.randint(0, 5))])
    for _ in range(rng.choice([0, 0, 1, 2])):
        head.insert(rng.randint(0, len(head)), rng.choice([dict(k="blank"), text()]))
    if names_line:
        head.append(dict(k="names", words=list(names)))
    while rng.random() < .15:
        head.append(rng.choice([dict(k="blank"), dict(k="text", words=[])]))
    k = rng.choice([0, 1, 2, 3, 3, 5, 8] * 6 + [40])
    fixt = []
    if rng.random() < .35:
        fixt = list(types)
        if rng.random() < .1:
            fixt = fixt[:-1] if rng.random() < .5 else fixt + ["int"]
    fixn = []
    if rng.random() < .25:
        fixn = rng.sample(["p", "q", "r", "s", "t u", "v"] + ["f%d" % i for i in range(n if n > 4 else 0)], n + (rng.choice([-1, 1]) if rng.random() < .1 else 0))
        if rng.random() < .06 and fixn:
            fixn[-1] = rng.choice([fixn[0], "", "a\nb"]) if len(fixn) > 1 else ""
    # the types the reader will use
    last = [h for h in head if h["k"] in ("names", "col") or h.get("words")]
    if fixt and len(fixt) == n:
        use = fixt
    else:
        det = {h["name"]: h["type"] for h in colh} if mode in ("cols", "both", "some") else {}
        use = [det.get(m, "") or "string" for m in names]
    rows = [[token(rng, t, rng.random() < .02) for t in use] for _ in range(k)]
    if rows and rng.random() < .06:
        r = rng.choice(rows)
        if len(r) > 1 and rng.random() < .5:
            r.pop()
        else:
            r.append("1")
    rows = [[list(t) for t in r] for r in rows]
    t, recs = render(rng, head, rows, ci or "#")
    e = dict(op="open", head=recs, rows=rows, fixn=fixn, fixt=fixt, t=t, ci=ci, via=rng.randint(0, 2), order=rng.randint(0, 1))
    return [dict(op="new"), e] + ops(rng, rng.randint(2, 10), True)


def mc_tab(ctx, n, emit=False):
    cfg = "SPECIFICATION Spec\nINVARIANT Order Bounds Honest CastSound PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Emit = %s\n" % (n, "TRUE" if emit else "FALSE")
    return ctx.gen("MCTab", cfg, workers=8) if emit else ctx.mc("MCTab", cfg)


def p18(ctx):
    exe = ctx.build("table", "d_table.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    cases = []
    for g in mc_tab(ctx, ctx.pick(4, 5), True):
        t, recs = render(rng, g["head"], g["rows"], "#")
        e = dict(op="open", head=recs, rows=g["rows"], fixn=g["fixn"], fixt=g["fixt"], t=t, ci="", via=rng.randint(0, 2), order=0)
        cases.append([dict(op="new"), e] + g["ops"])
    ctx.conform(exe, cases, "TrTab", "every sequence of reader operations")
    cases = [open_case(rng) for _ in range(ctx.pick(8000, 100000))]
    ctx.conform(exe, cases, "TrTab", "random texts")
    cases = [write_case(rng, True) for _ in range(ctx.pick(2000, 20000))]
    ctx.conform(exe, cases, "TrTab", "readers of written tables")
    ctx.assumptions += ["seekable streams", "cells do not contain the comment indicator", "nothing is judged after a failed read", "numbers of at most six significant digits"]


# ------------------------------------------------------------------------ P19
STR = ["5", "-3", "+7", "0", "-0", "007", "2.5", "-0.25", "1e3", "1E-2", "12x", "x", "", "1,2", "1,2,3", "1,,2", ",", "1,x", "2147483647", "2147483648", "-2147483648", "-2147483649",
       "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1e400", "-1e400", "1e50", "3.", ".5", "1.5.2", "5 5", "1 ", "--1", "1e", "e1",
       "true", "1.25,2.5", "1.5,2", "1e3,7", "2147483648,1", "<2>1,2", "12abc,3", "0.1", "123456", "1-2", "3,2.5x", "0,0,0"]
TARGETS = ["bool", "int", "long", "float", "double", "string", "[bool]", "[int]", "[long]", "[float]", "[double]", "[int+]", "[double+]"]


def cast_cell(rng, t):
    """a cell whose numbers are exact in every wider type"""
    v = lambda u: (rng.choice("01") if u == "bool" else rng.choice(["0", "1", "-1", "77", "-1000", "16777215", "-16777215", str(rng.randint(-9999, 9999))]) if u in ("int", "long")
                   else canon(rng.randint(-4000, 4000) * 25, -2))
    if t == "string":
        return dict(t=t, sh=[], x=[string(rng)])
    if t in SCALAR:
        return dict(t=t, sh=[], x=[v(t)])
    if t in VEC:
        return dict(t=t, sh=[], x=[v(el(t)) for _ in range(rng.randint(0, 4))])
    c = cell(rng, t)
    c["x"] = [v(el(t)) for _ in c["x"]]
    return c


def p19(ctx):
    exe = ctx.build("table", "d_table.cpp", SRC, repo_flags=QUOTED)
    rng = ctx.rng
    mc_tab(ctx, 2)
    cases = []
    ev = lambda c, u: cases.append([dict(op="cast", cell=c, chars=list(c["x"][0]) if c["t"] == "string" else [], to=u)])
    for s in STR:
        for u in TARGETS:
            if max(sum(c.isdigit() for c in p) for p in s.split(",")) > {"float": 6, "double": 15}.get(el(u), 99):
                continue
            ev(dict(t="string", sh=[], x=[s]), u)
    for t in TYPES:
        for u in TARGETS:
            for _ in range(ctx.pick(25, 300)):
                ev(cast_cell(rng, t), u)
    al = "0123456789+-.eE,x "
    for _ in range(ctx.pick(20000, 200000)):
        s = "".join(rng.choice(al) for _ in range(rng.randint(1, 6)))
        if rng.random() < .5:
            s = spell(rng, value(rng, "double", False)) + rng.choice(["", "", "x", ",1", " ", ".", "-"])
        if s[0] == " " or ", " in s or "0x" in s:                # white space in front of a number is not judged
            continue
        if any(sum(c.isdigit() for c in p) > 6 or "e" in p.lower() and len(p.lower().split("e")[1].strip("+-")) > 1 for p in s.split(",")):
            continue
        ev(dict(t="string", sh=[], x=[s]), rng.choice(["int", "long", "float", "double", "[int]", "[long]", "[float]", "[double]"]))
    for _ in range(ctx.pick(500, 5000)):
        n = rng.choice([2**31, 2**63, 10**rng.randint(1, 22)]) + rng.randint(-3, 3)
        s = rng.choice(["", "-", "+"]) + rng.choice(["", "0", "000"]) + str(n)
        ev(dict(t="string", sh=[], x=[s]), rng.choice(["int", "long", "[int]", "[long]"]))
    ctx.conform(exe, cases, "TrTab", "conversions of cells")
    ctx.assumptions += ["numbers that are exact in the target type, or decimal texts short enough for it", "no white space in front of numbers, no hexadecimal numbers, no infinities"]


CHECKS = dict(P16=p16, P17=p17, P18=p18, P19=p19)
