"""Common machinery of the checks: build drivers from /repo, run TLC, replay
behaviours of the specification into the real code, validate recorded traces."""
import threading, atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
COMPONENTS = ["AlexandriaKernel", "Configuration", "FilePool", "GridContainer", "Histogram", "KdTree",
              "MathUtils", "NdArray", "PhysicsUtils", "SOM", "SourceCatalog", "Table", "XYDataset"]
BASE_FLAGS = ["-std=gnu++14", "-pthread", "-w", "-g1", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lboost_filesystem", "-lboost_iostreams", "-lboost_program_options", "-lboost_regex",
        "-lboost_serialization", "-lboost_system", "-lboost_thread", "-lpthread"]


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, pid, level="model_checking"):
        assert re.match(r"[A-Z][0-9]{2,3}$", pid)
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = self.traces = self.events = 0
        self.spec_behaviours = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.known_hits = []
        self.n = 0
        self.lock = threading.Lock()
        self.findings = {}
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                self.findings[m.group(2)] = m.group(3).strip()
        self.thorough = self.tier == "thorough"
        self.specdir = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.specdir)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%6.1fs] %s" % (time.time() - self.t0, " ".join(str(x) for x in a)), flush=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d_%s" % (self.n, name))

    # ---------------------------------------------------------------- build
    def build(self, name, driver, repo_srcs=(), flags=(), san=True, link=(), repo_flags=(), libs=None, repo_first=False):
        """Compile harness sources and /repo sources (current working tree) into an executable."""
        bdir = os.path.join(self.dir, "build_" + name)
        os.makedirs(bdir, exist_ok=True)
        base = BASE_FLAGS + (ASAN if san else ["-O1"]) + ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")]
        base += ["-I" + os.path.join(REPO, c) for c in COMPONENTS]
        base += list(flags)
        srcs = [(os.path.join(VERIF, "harness", d), []) for d in ([driver] if isinstance(driver, str) else driver)]
        # "dir/" stands for all the sources there, "dir/!a,b" for all but a.cpp and b.cpp
        for p in repo_srcs:
            p, _, skip = p.partition("!")
            if not p.endswith("/"):
                srcs.append((os.path.join(REPO, p), list(repo_flags)))
                continue
            for root, _, fs in sorted(os.walk(os.path.join(REPO, p))):
                srcs += [(os.path.join(root, f), list(repo_flags)) for f in sorted(fs) if f.endswith(".cpp") and f[:-4] not in skip.split(",")]

        def one(iv):
            i, (s, extra) = iv
            o = os.path.join(bdir, "%d_%s.o" % (i, os.path.basename(s)))
            ex = list(extra)
            if s.startswith(REPO + "/"):
                ex += ["-I" + os.path.dirname(s)]
            r = subprocess.run(["g++"] + base + ex + ["-c", s, "-o", o], capture_output=True, text=True)
            return s, o, r
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        for s, o, r in res:
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-4000:]))
        if repo_first:
            res.sort(key=lambda x: not x[0].startswith(REPO + "/"))
        exe = os.path.join(bdir, name)
        r = subprocess.run(["g++"] + base + [o for _, o, _ in res] + ["-o", exe] + list(link) + (LIBS if libs is None else libs),
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        self.log("built", name)
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, args=(), workers=1, env=None, timeout=800, heap="2g"):
        d = self.path("tlc_" + module)
        os.makedirs(d)
        for f in os.listdir(self.specdir):
            os.symlink(os.path.join(self.specdir, f), os.path.join(d, f))
        cfg = os.path.join(d, "run_%s.cfg" % module)
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfg, *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = r.stdout
        brief = "\n".join(l for l in out.splitlines() if not l.startswith('"GEN'))
        m = re.findall(r"(\d+) states generated(?:[^\n]*?), (\d+) distinct states found", out)
        if not m:
            m = [(a, a) for a in re.findall(r"(\d+) states checked", out)] or re.findall(r"number of states generated: (\d+)()", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1] or m[-1][0])) if m else (0, 0)
        ok = r.returncode == 0 and "Error:" not in out
        shutil.rmtree(os.path.join(d, "meta"), True)
        return dict(ok=ok, out=out, brief=brief, rc=r.returncode, generated=gen, distinct=dist)

    def mc(self, module, cfg_text, args=(), workers=None, timeout=800, heap="4g", expect_error=None):
        """Model check the specification itself.  A failure here is an error of the
        specification (the model does not read the code), never a VIOLATION."""
        r = self.tlc(module, cfg_text, args, workers or NCPU, timeout=timeout, heap=heap)
        if not r["ok"]:
            raise CheckError("TLC found an error in specification %s:\n%s" % (module, r["brief"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.log("model checked %s: %d states, %d distinct" % (module, r["generated"], r["distinct"]))
        return r

    def gen(self, module, cfg_text, args=(), workers=1, timeout=800, heap="4g", limit=None):
        """Behaviours of the specification, printed by TLC as JSON lines tagged GEN."""
        r = self.tlc(module, cfg_text, args, workers, timeout=timeout, heap=heap)
        if not r["ok"] and "-simulate" not in args:
            raise CheckError("TLC generator %s failed:\n%s" % (module, r["brief"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        res, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('"GEN'):
                t = json.loads(line)[3:]
                if t not in seen:
                    seen.add(t)
                    res.append(json.loads(t))
        if not res:
            raise CheckError("generator %s printed nothing:\n%s" % (module, r["brief"][-3000:]))
        if limit and len(res) > limit:
            self.rng.shuffle(res)
            res = res[:limit]
        self.spec_behaviours += len(res)
        self.log("%s: %d behaviours from the specification (%d states)" % (module, len(res), r["distinct"]))
        return res

    # ------------------------------------------------------- driver + traces
    def run_driver(self, exe, events, env=None, timeout=300, args=()):
        """Run events through the driver; returns (trace lines, failure or None)."""
        inp, outp, cur = self.path("in.ndjson"), self.path("out.ndjson"), self.path("cur")
        with open(inp, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        e2 = dict(os.environ)
        e2["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0"
        e2["LC_ALL"] = "C.UTF-8"
        sd = self.path("scratch")
        os.makedirs(sd)
        e2["VD_SCRATCH"] = sd
        e2["TMPDIR"] = sd
        e2.update(env or {})
        fail = None
        try:
            r = subprocess.run([exe, inp, outp, cur, *args], capture_output=True, env=e2, timeout=timeout, cwd=sd)
            err = r.stderr.decode("latin-1")
            if r.returncode == 70:
                raise CheckError("driver error: " + err[-2000:])
            if r.returncode != 0:
                fail = ("crash", err)
        except subprocess.TimeoutExpired as t:
            fail = ("hang", "no answer within %d s" % timeout)
        at = None
        if fail:
            try:
                at = int(open(cur).read().strip() or 0)
            except OSError:
                at = 0
            except ValueError:
                at = 0
        shutil.rmtree(sd, True)
        lines = []
        if not fail:
            lines = [l for l in open(outp) if l.strip()]
            if len(lines) != len(events):
                raise CheckError("driver wrote %d lines for %d events" % (len(lines), len(events)))
        for f in (inp, outp, cur):
            if os.path.exists(f):
                os.unlink(f)
        return lines, (fail + (at,) if fail else None)

    def validate(self, tracespec, lines, timeout=600, consts="", heap="2g"):
        """Returns None when TLC accepts the recorded trace, else (index, expected text)."""
        tf = self.path("trace.ndjson")
        with open(tf, "w") as f:
            f.writelines(lines)
        cfg = "SPECIFICATION TSpec\nPOSTCONDITION TPost\nCHECK_DEADLOCK FALSE\n" + consts
        r = self.tlc(tracespec, cfg, env={"TRACE": tf}, timeout=timeout, heap=heap)
        os.unlink(tf)
        m = re.search(r'<<"ACC", (\d+), (\d+)>>', r["out"])
        if not m and "error occurred when TLC was evaluating" in r["out"]:
            # the specification has no meaning for what the code did here (a value of the wrong shape or size)
            n = re.search(r"(\d+) distinct states found", r["out"])
            why = re.search(r"(?s)Error: (.{0,600})", r["out"])
            return max(0, int(n.group(1)) - 1), "the specification cannot take this step: " + (why.group(1) if why else "")
        if not m or not r["ok"]:
            raise CheckError("trace validation with %s failed to run:\n%s" % (tracespec, r["brief"][-3000:]))
        got, want = int(m.group(1)), int(m.group(2))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        if want != len(lines):
            raise CheckError("trace spec read %d of %d lines" % (want, len(lines)))
        for kid in sorted(set(re.findall(r'<<"KNOWN", "([^"]+)"', r["out"]))):
            if kid not in self.findings:
                return 0, "deviation %s is not a listed finding of %s" % (kid, self.pid)
            t = "%s %s" % (kid, self.findings[kid])
            if t not in self.known_hits:
                self.known_hits.append(t)
        if got >= want:
            return None
        exp = re.findall(r'<<"EXPECTED".*?>>\s*$', r["out"], re.S | re.M)
        return got, (exp[-1][:1500] if exp else "")

    def conform(self, exe, cases, tracespec, label="", shard=45000, env=None, timeout=300, known=None, fresh=None):
        """cases: list of event lists.  Runs each through the real code and has TLC judge every step.
        known(case, event, info) -> text for a listed finding.  Raises Violation otherwise."""
        cases = [c for c in cases if c]
        if not cases:
            raise CheckError("no cases for " + label)
        total = sum(len(c) for c in cases)
        per = max(1, min(shard, -(-total // NCPU)))
        shards, cur, n = [], [], 0
        for c in cases:
            if cur and n + len(c) > per:
                shards.append(cur)
                cur, n = [], 0
            cur.append(c)
            n += len(c)
        shards.append(cur)

        def locate(group, at):
            for i, c in enumerate(group):
                if at < len(c):
                    return i, at
                at -= len(c)
            return len(group) - 1, len(group[-1]) - 1

        def one(group, isolated=False):
            ev = [e for c in group for e in c]
            lines, fail = self.run_driver(exe, ev, env=env, timeout=timeout)
            if fail:
                i, k = locate(group, fail[2])
                return dict(kind=fail[0], case=i, at=k, text=fail[1], obs=None)
            rej = self.validate(tracespec, lines)
            if rej:
                i, k = locate(group, rej[0])
                return dict(kind="rejected", case=i, at=k, text=rej[1], obs=lines[rej[0]].strip())
            if not isolated:
                for l in lines:
                    m = re.search(r'"obs":\{"k":"([^"]*)"', l)
                    o = m.group(1) if m else "?"
                    with self.lock:
                        d = self.notes.setdefault("outcomes", {}).setdefault(label, {})
                        d[o] = d.get(o, 0) + 1
            return None

        def work(group):
            found, group = [], list(group)
            while group:
                p = one(group)
                if p is None:
                    break
                case = group[p["case"]]
                p["events"] = case[:p["at"] + 1]
                # a rejection counts only if an isolated re-run repeats it
                q = one([p["events"]], True) or one([case], True)
                if q is None:
                    q2 = one(group)
                    if q2 is None:
                        raise CheckError("rejection did not repeat (%s): %s" % (label, json.dumps(case[:p["at"] + 1])[:2000]))
                    p["note"] = "only with the preceding cases of the shard"
                    p["prefix"] = [e for c in group[:p["case"]] for e in c][-200:]
                else:
                    p["text"] = q["text"] or p["text"]
                    p["obs"] = q["obs"] or p["obs"]
                found.append(p)
                k = known and known(case, case[p["at"]], p)
                if not k:
                    break
                p["known"] = k
                group = [c for j, c in enumerate(group) if j != p["case"]]
                if len(found) > 40:
                    break
            return found

        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(work, shards))
        bad = [p for f in res for p in f]
        for p in bad:
            if p.get("known"):
                if p["known"] not in self.known_hits:
                    self.known_hits.append(p["known"])
        new = [p for p in bad if not p.get("known")]
        if new:
            p = min(new, key=lambda q: len(q["events"]))
            self.violate("%s: %s" % (label, p["kind"]), p)
        self.traces += len(cases)
        self.events += total
        self.log("%s: %d traces / %d events of the real code accepted by %s" % (label, len(cases), total, tracespec))
        if len(self.samples) < 6:
            self.samples.append({"label": label, "case": cases[len(cases) // 2][:12]})

    def conform_sched(self, exe, scenarios, tracespec, label="", inv="INVARIANT TInv\n", shard=6000, env=None, timeout=600):
        """scenarios: dicts for a driver under the controlled scheduler; each run yields an event log that TLC must accept."""
        def runs(group):
            inp, outp = self.path("in.ndjson"), self.path("out.ndjson")
            with open(inp, "w") as f:
                for s in group:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            e2 = dict(os.environ)
            e2["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0:exitcode=99"
            sd = self.path("scratch")
            os.makedirs(sd)
            e2["VD_SCRATCH"] = e2["TMPDIR"] = sd
            e2.update(env or {})
            try:
                r = subprocess.run([exe, inp, outp, "-"], capture_output=True, env=e2, timeout=timeout, cwd=sd)
            except subprocess.TimeoutExpired:
                raise CheckError("scheduler driver timed out")
            if r.returncode:
                raise CheckError("scheduler driver failed (%d): %s" % (r.returncode, r.stderr.decode("latin-1")[-2000:]))
            shutil.rmtree(sd, True)
            logs = []
            for line in open(outp):
                if line.startswith("#"):
                    logs.append([])
                elif line.strip():
                    logs[-1].append(line)
            short = len(logs) < len(group) and logs and (not logs[-1] or json.loads(logs[-1][-1])["op"] != "fin")
            if len(logs) != len(group) and not short:
                raise CheckError("driver answered %d of %d scenarios" % (len(logs), len(group)))
            return logs, r.stderr.decode("latin-1")[-6000:]

        def judge(logs):
            lines = [l for g in logs for l in g]
            rej = self.validate(tracespec, lines, consts=inv)
            if rej is None:
                return None
            at = rej[0]
            for i, g in enumerate(logs):
                if at < len(g):
                    return i, at
                at -= len(g)
            return len(logs) - 1, len(logs[-1])

        def work(group):
            logs, _ = runs(group)
            bad = [i for i, g in enumerate(logs) if not g or json.loads(g[-1])["op"] != "fin"]
            k = (bad[0], len(logs[bad[0]]) - 1) if bad else judge(logs)
            if k is None:
                return sum(len(g) for g in logs), None, len(set("".join(g) for g in logs))
            i, at = k
            sc = group[i]
            hit = None
            for _ in range(3):                      # a rejection counts only if a re-run repeats it
                lg, err = runs([sc])
                if not lg[0] or json.loads(lg[0][-1])["op"] != "fin":
                    hit = len(lg[0]) - 1
                else:
                    j = judge(lg)
                    hit = j[1] if j else None
                if hit is not None:
                    break
            if hit is None:
                raise CheckError("rejection did not repeat (%s): %s" % (label, json.dumps(sc)))
            return 0, dict(kind="rejected history", scenario=sc, history=[json.loads(x) for x in lg[0]], first_impossible_event=hit, stderr=err[:4000]), 0

        total = len(scenarios)
        per = max(1, min(shard, -(-total // NCPU)))
        groups = [scenarios[i:i + per] for i in range(0, total, per)]
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(work, groups))
        for n, bad, _ in res:
            if bad:
                self.violate("%s: the history is not one the specification allows" % label, bad)
        self.traces += total
        self.events += sum(r[0] for r in res)
        self.notes["distinct_histories"] = self.notes.get("distinct_histories", 0) + sum(r[2] for r in res)
        self.log("%s: %d histories (%d distinct per shard), %d events accepted by %s" %
                 (label, total, sum(r[2] for r in res), sum(r[0] for r in res), tracespec))
        if len(self.samples) < 6:
            self.samples.append({"label": label, "scenario": scenarios[len(scenarios) // 2]})

    def violate(self, what, detail):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.pid, "what": what, "seed": self.seed, "detail": detail}, indent=1, default=str)
        f = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(f, "w").write(body)
        raise Violation(what, f)

    # ------------------------------------------------------------- evidence
    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, behaviours_generated_from_spec=self.spec_behaviours,
                   samples=self.samples or ["none"])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)


def main(pid, fn):
    ctx = Ctx(pid)
    try:
        fn(ctx)
    except Violation as v:
        ctx.evidence(1)
        print("what:", v.what)
        try:
            print(re.sub(r'\s+', ' ', open(v.replay).read())[:3500])
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        return 1
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        return 2
    for k in ctx.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ctx.evidence(0)
    print("OK property=%s %d states, %d traces, %d events, %.1f s" %
          (pid, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0), flush=True)
    return 0
