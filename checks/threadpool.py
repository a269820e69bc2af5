"""P01, P02: ThreadPool under a controlled scheduler."""
SRC = ["AlexandriaKernel/src/lib/"]


def sched(rng, expect):
    mode = 1 if rng.random() < .4 else 0
    return dict(seed=rng.randrange(1, 2 ** 31), mode=mode, p=rng.choice([1, .7, .4, .15]), pmem=rng.choice([0, .02, .1, .5]),
                depth=rng.randint(1, 5), expect=rng.choice([50, 150, expect]))


def scenario(rng, failing):
    n = rng.choice([1, 1, 2, 2, 2, 3, 4, 0])
    nt = [0]

    def task(nest=True):
        nt[0] += 1
        k = rng.choice([0, 0, 2])
        if failing and rng.random() < .3:
            k |= 1
        if rng.random() < .15 and n:
            k |= 8
        op = ["submit", nt[0], k]
        if nest and rng.random() < .12 and allow_nest:
            op[2] |= 4
            op.append(task(False))
        return op

    def queries(k):
        return [rng.choice([["queued"], ["running"], ["active"], ["check", rng.randint(0, 1)], ["nap"]]) for _ in range(k)]

    prog = []
    allow_nest = False
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        allow_nest = False
        if r < .35:
            prog += [task() for _ in range(rng.randint(1, 5))] + queries(rng.randint(0, 2))
            prog.append(["block"])
        elif r < .55:
            ths = []
            for _ in range(rng.randint(2, 3)):
                p = []
                for _ in range(rng.randint(1, 3)):
                    p.append(task())
                    p += queries(rng.randint(0, 1))
                ths.append(p)
            prog.append(["par"] + ths)
            prog.append(["block"] if rng.random() < .7 else ["nap"])
        elif r < .7:
            prog += [task() for _ in range(rng.randint(1, 4))]
            prog.append(["par", [["block"]] + queries(1), [["block"]]] + ([queries(2)] if rng.random() < .5 else []))
        elif r < .85 and not failing:
            allow_nest = True
            prog += [task() for _ in range(rng.randint(1, 4))]
            prog.append(["waitall"])
            prog += queries(rng.randint(0, 2))
        else:
            prog += [task() for _ in range(rng.randint(1, 5))] + queries(rng.randint(0, 3))
    if rng.random() < .3:
        prog += [task() for _ in range(rng.randint(1, 3))]     # left to the destructor
    return dict(n=n, prog=prog, **sched(rng, 60 * nt[0]))


MCCFG = """SPECIFICATION Spec
INVARIANT Inv
PROPERTY BlockReturns TasksRun DtorReturns
CHECK_DEADLOCK TRUE
CONSTANTS
  N = %d
  Tasks = {%s}
  Failing = {%s}
  WithDtor = %s
"""
IMPLCFG = """SPECIFICATION Spec
INVARIANT Inv
PROPERTY %s
CHECK_DEADLOCK FALSE
CONSTANTS
  N = %d
  NT = %d
  Failing = {%s}
  WithDtor = %s
"""


def models(ctx):
    big = ctx.thorough
    for n, t, f, d in [(2, 3, "", "FALSE"), (2, 3, "2", "FALSE"), (2, 3, "1, 2", "TRUE"), (1, 3, "", "TRUE")] + \
            ([(3, 4, "2", "TRUE"), (2, 4, "1, 3", "FALSE")] if big else []):
        ts = ", ".join(str(i + 1) for i in range(t))
        ctx.mc("MCThreadPool", MCCFG % (n, ts, f, d))
    for n, t, f, d in [(2, 2, "", "FALSE"), (2, 2, "1", "FALSE"), (2, 3, "1, 2", "TRUE")] + \
            ([(3, 3, "2", "TRUE"), (2, 4, "3", "TRUE"), (3, 3, "", "FALSE")] if big else []):
        ctx.mc("ThreadPoolImpl", IMPLCFG % ("BlockReturns DtorReturns", n, t, f, d), timeout=850, heap="16g")


def run(ctx, plan):
    models(ctx)
    # shared accesses of the library are scheduling points: compiled with -fsanitize=thread against our own runtime
    exe = ctx.build("tp", ["d_threadpool.cpp", "vsched.cpp"], SRC, san=False, repo_flags=["-fsanitize=thread"],
                    flags=["-D_GLIBCXX_ASSERTIONS"], link=["-rdynamic", "-ldl"], repo_first=True)
    asan = ctx.build("tpa", ["d_threadpool.cpp", "vsched.cpp"], SRC, link=["-rdynamic", "-ldl"])
    rng = ctx.rng
    for label, failing, k in plan:
        sc = [scenario(rng, failing) for _ in range(k)]
        ctx.conform_sched(exe, sc, "TrThreadPool", label)
        sc = [scenario(rng, failing) for _ in range(k // 4)]
        ctx.conform_sched(asan, sc, "TrThreadPool", label + " (ASan)")
    ctx.assumptions += ["schedules are sampled (random walk and PCT), not enumerated", "tasks are not submitted while a block() is in progress, as documented",
                        "memory accesses are sequentially consistent in the controlled runs"]


def p01(ctx):
    run(ctx, [("tasks that succeed", False, ctx.pick(3000, 40000)), ("with failing tasks", True, ctx.pick(1200, 15000))])


def p02(ctx):
    run(ctx, [("with failing tasks", True, ctx.pick(3000, 40000)), ("tasks that succeed", False, ctx.pick(1200, 15000))])


CHECKS = dict(P01=p01, P02=p02)
