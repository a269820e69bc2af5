"""P33: the helpers of the kernel."""


def number(rng):
    k = rng.random()
    if k < .5:
        return str(rng.randint(-999, 999))
    if k < .7:
        return rng.choice(["2147483647", "-2147483648", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "00012", "+7", "-0", "-", "+", "0", "99999999999999999999999"])
    if k < .9:
        return rng.choice(["1.5", "-0.25", ".5", "7.", "12.0", "-.75", "1.2.3", ".", "00.50", "+1.5"])
    return rng.choice(["x", "1x", "x1", "abc", "1 2", "--1", "#"])


def tovec(rng):
    seps = rng.choice([", ", ", ", ", ", ",", ";:", "|", " ", "x", "\t,", ",;", ";:|", ", \t", "[](),", "xyz"])
    ty = rng.choice(["int", "long", "double", "string"])
    n = rng.choice([1, 1, 2, 3, 5])
    good = rng.random() < .7
    out = rng.choice(["", "", " ", "\t", " \n", "\r"])
    for i in range(n):
        if i:
            out += "".join(rng.choice(seps) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if ty == "string" and rng.random() < .6:
            out += rng.choice(["a", "b c", "Z", "q1", "two,three", "k;l", "a:b"])
        elif good:
            out += str(rng.randint(-9999, 9999)) if ty != "double" else rng.choice(["%d" % rng.randint(-999, 999), "%g" % (rng.randint(-9999, 9999) / 16)])
        else:
            x = number(rng)
            out += x if len(x) < 13 or ty != "double" else "1.5"
    out += rng.choice(["", "", " ", "\t", "\n"])
    if rng.random() < .08:
        out = rng.choice(["", " ", out + rng.choice(seps), rng.choice(seps) + out])
    return dict(op="tovec", ty=ty, t=list(out), seps=list(seps))


def tail(rng):
    n = rng.randint(1, 4)
    mv = rng.randint(0, 1)
    x = [str(rng.randint(-99, 99)) for _ in range(n)]
    return dict(op="tail", x=x, mv=mv)


def holders(rng):
    ev, objs, hs = [dict(op="new", x=0)], [], []
    for _ in range(rng.randint(4, 25)):
        k = rng.random()
        on = [i for i, o in enumerate(objs) if o]
        hv = [i for i, h in enumerate(hs) if h[0] and objs[h[1]]]
        if k < .12 or not on:
            ev.append(dict(op="obj", x=rng.randint(-99, 99), kind=rng.choice(["base", "derived"])))
            objs.append(True)
        elif k < .3:
            ev.append(dict(op="inst", x=rng.randint(-99, 99), kind=rng.choice(["base", "derived"])))
            objs.append(True)
            hs.append([True, len(objs) - 1, True])
        elif k < .45:
            o = rng.choice(on)
            ev.append(dict(op="hold", o=o + 1))
            hs.append([True, o, False])
        elif k < .6:
            ev.append(dict(op=rng.choice(["oget", "oset"]), o=rng.choice(on) + 1, x=rng.randint(-99, 99)))
        elif hv:
            h = rng.choice(hv)
            op = rng.choice(["get", "get", "set", "drop"])
            ev.append(dict(op=op, h=h + 1, x=rng.randint(-99, 99)))
            if op == "drop":
                hs[h][0] = False
                if hs[h][2]:
                    objs[hs[h][1]] = False
    return ev + [dict(op="new", x=0)]


def p33(ctx):
    exe = ctx.build("kern", "d_kern.cpp", [])
    cfg = "SPECIFICATION Spec\nINVARIANT Lists Lives PrintH\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Emit = TRUE\n MaxT = %d\n MaxH = %d\n" % ctx.pick((4, 5), (5, 6))
    cases = ctx.gen("MCKern", cfg, workers=8)
    for c in cases:
        for e in c:
            e.pop("obs", None)
        if c[0]["op"] == "new":
            c.append(dict(op="new", x=0))
    ctx.conform(exe, cases, "TrKern", "every short text and every history of holders of the specification")
    rng = ctx.rng
    ctx.conform(exe, [[tovec(rng)] for _ in range(ctx.pick(12000, 120000))] + [[tail(rng)] for _ in range(400)], "TrKern", "texts and tuples")
    ctx.conform(exe, [holders(rng) for _ in range(ctx.pick(2500, 25000))], "TrKern", "objects and holders")
    ctx.assumptions += ["numbers without exponents, at most 12 significant digits"]


CHECKS = {"P33": p33}
