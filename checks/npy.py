"""P09: NPY files and memory mapped arrays."""
SIZES = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8]
ATTRS = ["x", "y", "flux", "flux[0]", "shape", "descr", "fortran_order", "a b", "(p)", "id,2", "{k}", "e: '0"[:3], "SED"]


def vals(r, t, n):
    lo = 0 if 5 <= t <= 8 else -100
    return [r.randint(lo, 120) for _ in range(n)]


def shape(r):
    return [r.choice([0, 1, 1, 2, 2, 3, 4]) if r.random() < .15 else r.choice([1, 2, 3, 4, 9, 12]) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def full(sh, at):
    return sh + ([len(at)] if at else [])


def case(r):
    ev = [dict(op="new")]
    arrs, files = [], {}                # what the generator must know to stay within the rules
    types = r.sample(range(1, 11), 2)
    attrs = lambda: r.sample(ATTRS, r.randint(1, 4)) if r.random() < .3 else ["a%d" % i for i in range(r.randint(5, 90))] if r.random() < .05 else []
    views = lambda f: [a for a in arrs if a["k"] in ("rw", "ro", "priv") and a["f"] == f]
    while len(ev) < 6 or r.random() < .93:
        k = r.random()
        live = [i for i, a in enumerate(arrs) if a["k"] != "dead"]
        f = r.randint(1, 3)
        if not live or k < .12:
            t, sh, at = r.choice(types), shape(r), attrs()
            n = prod(full(sh, at))
            if live and r.random() < .5:
                a = arrs[r.choice(live)]
                t, at = a["t"], a["at"]
                sh = list(a["sh"])
                if at:
                    sh = sh[:-1]
                if sh:
                    sh[0] = r.choice([1, 2, 5])
                n = prod(full(sh, at))
            if n > 300:
                continue
            ev.append(dict(op="arr", t=t, sh=sh, at=at, d=vals(r, t, n)))
            if not sh and not at:
                ev.pop()
                continue
            arrs.append(dict(k="mem", t=t, at=at, sh=full(sh, at), f=0))
        elif k < .22:
            if views(f):
                continue
            i = r.choice(live)
            ev.append(dict(op="wr", a=i + 1, f=f, how=r.randint(0, 1)))
            files[f] = dict(t=arrs[i]["t"], sh=list(arrs[i]["sh"]), at=arrs[i]["at"], bad=0)
            ev.append(dict(op="hdr", f=f))
        elif k < .34:
            t = files[f]["t"] if f in files and r.random() < .85 else r.choice(types)
            ev.append(dict(op="rd", f=f, t=t, how=r.randint(0, 1)))
            if f in files and files[f]["t"] == t and not files[f]["bad"]:
                arrs.append(dict(files[f], k="mem", f=0, sh=list(files[f]["sh"])))
        elif k < .42:
            if views(f):
                continue
            t, sh, at = r.choice(types), shape(r), attrs()
            n = prod(full(sh, at))
            if n > 300:
                continue
            ev.append(dict(op="mk", f=f, t=t, sh=sh, at=at, max=r.choice([0, 0, 64, 200, 4096, 128 + n * SIZES[t - 1] + 16])))
            files[f] = dict(t=t, sh=full(sh, at), at=at, bad=0)
            arrs.append(dict(k="rw", t=t, at=at, sh=full(sh, at), f=f))
            ev.append(dict(op="hdr", f=f))
        elif k < .54:
            if f not in files and r.random() < .8:
                continue
            t = files[f]["t"] if f in files and r.random() < .85 else r.choice(types)
            mode = r.choice(["rw", "ro", "priv"])
            vs = views(f)
            if vs and (mode == "priv" or any(v["k"] == "priv" for v in vs)):
                continue
            if f in files and files[f]["bad"] == 4 and files[f].get("cut", 0) > 600:
                continue
            ev.append(dict(op="mm", f=f, t=t, mode=mode, max=r.choice([0, 0, 0, 64, 4096])))
            if f in files and files[f]["t"] == t and not files[f]["bad"]:
                arrs.append(dict(files[f], k=mode, f=f, sh=list(files[f]["sh"])))
        elif k < .66:
            i = r.choice(live)
            n = prod(arrs[i]["sh"])
            if arrs[i]["k"] != "ro" and n:
                ev.append(dict(op="set", a=i + 1, i=r.randint(1, n), v=vals(r, arrs[i]["t"], 1)[0]))
        elif k < .78:
            i, j = r.choice(live), r.choice(live)
            a, b = arrs[i], arrs[j]
            if i == j or a["k"] not in ("rw", "priv") or a["t"] != b["t"] or len(views(a["f"])) != 1 or prod(a["sh"]) + prod(b["sh"]) > 400 or b["k"] != "mem":
                continue
            # what the outcome was is only known afterwards: the view is looked at and closed
            ev.append(dict(op="cat", a=i + 1, b=j + 1))
            ev.append(dict(op="all", a=i + 1))
            ev.append(dict(op="cp", a=i + 1))
            ev.append(dict(op="cl", a=i + 1))
            ev.append(dict(op="hdr", f=a["f"]))
            ev.append(dict(op="rd", f=a["f"], t=a["t"], how=0))
            a["k"] = "dead"
            del files[a["f"]]
            arrs += [dict(k="dead", t=0, f=0)] * 2
            if r.random() < .5:
                ev.append(dict(op="all", a=len(arrs)))
            break
        elif k < .86:
            ev.append(dict(op="all", a=r.choice(live) + 1))
        elif k < .9:
            i = r.choice(live)
            ev.append(dict(op="cp", a=i + 1))
            arrs.append(dict(arrs[i], k="mem", f=0))
        elif k < .95:
            i = r.choice(live)
            ev.append(dict(op="cl", a=i + 1))
            arrs[i]["k"] = "dead"
        else:
            if views(f):
                continue
            t, at = r.choice(types), attrs()
            sh = shape(r) if r.random() < .85 or not at else []
            n = prod(full(sh, at))
            if n > 300:
                continue
            bad = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 4, 5])
            if bad == 1 and SIZES[t - 1] == 1 or bad == 5 and len(at) < 2 or bad == 4 and n == 0:
                bad = 0
            cut = r.choice([1, 2, r.randint(1, max(1, n * SIZES[t - 1])), 64, 130]) if bad == 4 else 0
            ver = r.choice([1, 1, 2, 3])
            # the header may be padded with as many spaces as its length can tell
            pad = 0 if r.random() < .8 else r.choice([100, 255, 300, 32700, 33000, 50000, 65000] + ([66000, 140000] if ver > 1 else []))
            ev.append(dict(op="raw", f=f, t=t, sh=sh, at=at, d=vals(r, t, n), ver=ver, pad=pad, bad=bad, cut=cut))
            files[f] = dict(t=t, sh=full(sh, at), at=at, bad=bad)
    return ev


def p09(ctx):
    exe = ctx.build("npy", "d_npy.cpp", [], libs=["-lboost_filesystem", "-lboost_iostreams", "-lboost_regex", "-lboost_system", "-lpthread"])
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nINVARIANT Sizes LastWrite PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Types = {%s}\n MaxA = %d\n Emit = TRUE\n"
    hs = ctx.gen("MCNpy", cfg % (3, "1, 10", 2), workers=8) + ctx.gen("MCNpy", cfg % (ctx.pick(4, 5), "4", 2), workers=8)
    cases = []
    if len(hs) > ctx.pick(60000, 500000):
        hs = r.sample(hs, ctx.pick(60000, 500000))
    for h in hs:
        # at the end: what every file is, and what is left of the arrays
        ev = [dict(op="new")] + h
        n, dead = 0, set()
        ok = True
        for e in h:
            if e["op"] in ("rd", "mm", "cat"):
                ok = ok and e["op"] != "cat"
        for f in (1, 2):
            ev.append(dict(op="rd", f=f, t=h[0].get("t", 4), how=1))
        cases.append(ev)
    ctx.conform(exe, cases, "TrNpy", "files and views of the specification")
    ctx.conform(exe, [case(r) for _ in range(ctx.pick(15000, 150000))], "TrNpy", "random files and views")
    ctx.conform(exe, [[dict(op="new"), dict(op="big", sh=s, v=7)] for s in ([65536, 65537], [2, 1 << 30], [3 << 20, 1024])], "TrNpy", "more elements than 32 bits count")
    ctx.assumptions += ["values are integers that every type holds; arrays of at most 400 elements, and three sparse files with more than 2^31",
                        "a file is not rewritten or created anew while it is mapped, and is private to one process",
                        "a resize may be refused when the number of digits of the shape changes, or on a file that another program wrote"]


CHECKS = dict(P09=p09)
