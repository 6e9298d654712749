"""Common machinery of the checks: build the harness from /repo's working tree, run TLC, run the
harness, validate the recorded traces with TLC, write the evidence and print the verdict."""
import itertools, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # /repo in every registered command
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not do its work: error exit, never a verdict."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="wpkv_%s_" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cover = {}
        self.mismatches = []      # (trace module, event, expected, scenario events)
        self.assume = []
        self.bins = {}
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(self.work, "spec"))
        self.tlcn = itertools.count(1)

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.work], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, race=False, sched=False):
        key = ("race" if race else "plain") + ("_sched" if sched else "")
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(self.work, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            gomod = open(os.path.join(REPO, "go.mod")).read()
            # same requirements as the code under test, plus the code under test itself
            req = re.sub(r"(?m)^module .*$", "module wpkverif", gomod)
            req += "\nrequire github.com/schwarzlichtbezirk/wpk v0.0.0\nreplace github.com/schwarzlichtbezirk/wpk => %s\n" % REPO
            open(os.path.join(src, "go.mod"), "w").write(req)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
        out = os.path.join(self.work, "harness_" + key)
        cmd = ["go", "build", "-o", out]
        if race:
            cmd.insert(2, "-race")
        if sched:   # a hook before each statement of the code under test
            ins = os.path.join(self.work, "instr")
            if not os.path.isdir(ins):
                os.makedirs(ins)
                r = subprocess.run(["go", "run", ".", REPO, ins], cwd=os.path.join(VERIF, "instr"), env=goenv(),
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    raise CheckError("instrumentation failed:\n" + r.stdout + r.stderr)
            cmd += ["-overlay", os.path.join(ins, "overlay.json"), "-tags", "sched"]
        r = subprocess.run(cmd + ["."], cwd=src, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("harness build failed:\n" + r.stdout + r.stderr)
        self.bins[key] = out
        return out

    def build_cmd(self, name):
        """Builds one of the command line tools of /repo."""
        out = os.path.join(self.work, "tool_" + name)
        if not os.path.exists(out):
            r = subprocess.run(["go", "build", "-o", out, "./cmd/" + name], cwd=REPO, env=goenv(),
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("tool build failed:\n" + r.stdout + r.stderr)
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=600, args=()):
        d = os.path.join(self.work, "spec")
        name = "run%d" % next(self.tlcn)
        cfgp = os.path.join(d, name + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(self.work, "meta_" + name), "-noGenerateSpecTE",
               "-config", cfgp, *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        return r.returncode, r.stdout, r.stderr

    def model(self, module, consts=None, invariants=(), properties=(), constraints=(), emit=True, view=None,
              init="Init", next_="Next", spec=None, workers=1, timeout=600, heap="4g", expect_violation=None):
        """Exhaustive exploration of a design model. Returns the generated tests (lists of operations)."""
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + next_]
        if consts:
            cfg.append("CONSTANTS")
            cfg += ["  %s = %s" % kv for kv in consts.items()]
        cfg += ["INVARIANT " + i for i in invariants]
        cfg += ["PROPERTY " + i for i in properties]
        cfg += ["CONSTRAINT " + i for i in constraints]
        if view:
            cfg.append("VIEW " + view)
        if emit:
            cfg.append("ACTION_CONSTRAINT Emit")
        cfg.append("CHECK_DEADLOCK FALSE")
        rc, out, err = self.tlc(module, "\n".join(cfg) + "\n", workers=workers, timeout=timeout, heap=heap)
        tests = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                tests.append(json.loads(tlastr(line)[4:]))
        if expect_violation:
            if ("Invariant %s is violated" % expect_violation) not in out and \
               ("property %s is violated" % expect_violation) not in out and \
               ("Temporal properties were violated" not in out):
                raise CheckError("%s: the broken design was expected to violate %s\n%s" % (module, expect_violation, out[-2000:]))
            return tests
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            raise CheckError("TLC on design model %s failed (rc %d):\n%s\n%s" % (
                module, rc, "\n".join(x for x in out.splitlines() if not x.startswith('"GEN'))[-4000:], err[-1000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        c = self.cover.setdefault("models", {})
        k = module + "(" + ",".join("%s=%s" % kv for kv in (consts or {}).items()) + ")"
        c[k] = dict(distinct_states=dist, transitions=gen, tests=len(tests))
        self.log("model %s: %d distinct states, %d transitions, %d tests" % (module, dist, gen, len(tests)))
        return tests

    def simulate(self, module, consts, num, depth, constraints=(), timeout=300):
        """Random long behaviours of a design model (the model prints them through Emit when Sim = TRUE)."""
        cfg = ["INIT Init", "NEXT Next", "CONSTANTS"] + ["  %s = %s" % kv for kv in consts.items()]
        cfg += ["CONSTRAINT " + i for i in constraints] + ["ACTION_CONSTRAINT Emit", "CHECK_DEADLOCK FALSE"]
        rc, out, err = self.tlc(module, "\n".join(cfg) + "\n", timeout=timeout,
                                args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        tests, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"GEN ') and line not in seen:
                seen.add(line)
                tests.append(json.loads(tlastr(line)[4:]))
        if not tests or "Error:" in out:
            raise CheckError("TLC simulation of %s failed (rc %d):\n%s\n%s" % (module, rc, out[-3000:], err[-500:]))
        c = self.cover.setdefault("simulated", {})
        c[module + "(" + ",".join("%s=%s" % kv for kv in consts.items()) + ")"] = dict(behaviours=num, tests=len(tests))
        self.log("simulated %s: %d tests" % (module, len(tests)))
        return tests

    def sample(self, tests, n):
        """A seeded choice of n tests (all when there are fewer)."""
        if len(tests) <= n:
            return tests
        self.cover.setdefault("sampled", []).append("%d of %d generated tests" % (n, len(tests)))
        return random.Random(self.seed).sample(tests, n)

    # -------------------------------------------------------------- harness
    def harness(self, area, tests=None, race=False, args=(), timeout=600, env=None, tag="", sched=False):
        """Runs the real code on the tests; returns the path of the recorded trace."""
        b = self.build(race, sched)
        n = "%s%s_%d" % (area, tag, len(os.listdir(self.work)))
        inp = os.path.join(self.work, n + ".in")
        out = os.path.join(self.work, n + ".ndjson")
        scratch = os.path.join(self.work, n + ".d")
        os.makedirs(scratch)
        with open(inp, "w") as f:
            for t in tests or []:
                f.write(json.dumps(t) + "\n")
        e = goenv()
        e.update(env or {})
        e["TMPDIR"] = scratch
        cmd = [b, area, "-in", inp, "-out", out, "-scratch", scratch, "-seed", str(self.seed), "-tier", self.tier, *args]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=scratch, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out" % area)
        if r.returncode != 0:
            # A crash of the Go runtime inside the code under test is an observation, everything else an error.
            if crashed(r.stderr) and os.path.exists(out):
                drop_partial_line(out)
                with open(out, "a") as f:
                    f.write(json.dumps(dict(op="fatal", detail=crash_head(r.stderr))) + "\n")
                self.log("the code under test brought the process down:", crash_head(r.stderr))
            else:
                raise CheckError("harness %s failed (rc %d):\n%s\n%s" % (area, r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
        return out

    def preempt(self, area, tests):
        """Runs the instrumented code in some processes, as one scenario at a time fits in each."""
        self.build()
        try:
            self.build(sched=True)
        except CheckError as e:   # the code as it is written now can not be rewritten, the other runs remain
            self.log("no stops before statements:", str(e)[:300])
            self.cover.setdefault("left_out", []).append("stops before each statement: " + str(e)[:200])
            return None
        parts = [tests[i::NCPU] for i in range(NCPU) if tests[i::NCPU]]
        with ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(lambda a: self.harness(area, a[1], sched=True, tag="_s%d" % a[0]), enumerate(parts)))
        for o in outs[1:]:
            with open(outs[0], "a") as f:
                f.write(open(o).read())
            os.remove(o)
        return outs[0]

    # ----------------------------------------------------------- validation
    def validate(self, module, trace, consts=None, chunks=NCPU, timeout=800, heap="3g", sample=1):
        """Validates the scenarios of a trace against a trace specification."""
        if trace is None:
            return 0
        scen = []
        with open(trace) as f:
            for line in f:
                ev = line.strip()
                if not ev:
                    continue
                if ev.startswith('{"op":"reset"') or ev.startswith('{"op": "reset"') or not scen:
                    scen.append([])
                scen[-1].append(ev)
        if not scen:
            raise CheckError("empty trace from the harness (%s)" % module)
        nev = sum(len(s) for s in scen)
        fatal = [s for s in scen if '"op": "fatal"' in s[-1] or '"op":"fatal"' in s[-1]]
        for s in fatal:
            self.mismatches.append((module, json.loads(s[-1]), "no outcome of the specification", s))
            s.pop()
        scen = [s for s in scen if s]
        self.traces += len(scen)
        self.events += nev
        if scen and len(self.samples) < 6:
            for i in range(sample):
                s = scen[(len(scen) * (2 * i + 1)) // (2 * sample)]
                self.samples.append([json.loads(x) for x in s[:6]])
        # balance chunks by bytes
        n = max(1, min(chunks, len(scen)))
        tot = sum(sum(len(x) for x in s) for s in scen)
        parts, cur, size = [], [], 0
        for s in scen:
            cur.append(s)
            size += sum(len(x) for x in s)
            if size >= tot / n and len(parts) < n - 1:
                parts.append(cur)
                cur, size = [], 0
        if cur:
            parts.append(cur)
        base = "INIT Init\nNEXT Next\nVIEW View\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
        if consts:
            base += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
        files = []
        for i, p in enumerate(parts):
            fn = "%s.%d" % (trace, i)
            with open(fn, "w") as f:
                for s in p:
                    f.write("\n".join(s) + "\n")
            files.append(fn)
        def one(i):
            return self.tlc(module, base, env=dict(TRACE=files[i]), timeout=timeout, heap=heap)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(len(files))))
        bad = 0
        for i, (rc, out, err) in enumerate(res):
            lines = [x for s in parts[i] for x in s]
            for x in out.splitlines():
                if x.startswith('"MISMATCH '):
                    m = re.match(r'MISMATCH (\d+) (.*)$', tlastr(x), re.S)
                    ln = int(m.group(1))
                    k = ln - 1
                    st = k
                    while st > 0 and '"reset"' not in lines[st][:16]:
                        st -= 1
                    exp = m.group(2)
                    self.mismatches.append((module, json.loads(lines[k]), exp, lines[st:k + 1]))
                    bad += 1
            if rc != 0 or "Model checking completed. No error has been found." not in out:
                raise CheckError("TLC could not evaluate the trace (%s, chunk %d, rc %d):\n%s\n%s" % (
                    module, i, rc, out[-3500:], err[-500:]))
        for f in files:
            os.unlink(f)
        self.opstats(module, scen)
        self.log("%s: %d scenarios, %d events validated, %d mismatches" % (module, len(scen), nev, bad + len(fatal)))
        return bad + len(fatal)

    def opstats(self, module, scen):
        """How often each operation was executed, and how often it went without an error."""
        st = self.cover.setdefault("operations", {}).setdefault(module, {})
        for s in scen:
            for x in s:
                o = '"op":' in x and json.loads(x)
                if not o or o["op"] == "reset":
                    continue
                r = o.get("r")
                c = st.setdefault(o["op"], [0, 0])
                c[0] += 1
                if isinstance(r, dict) and not r.get("err") and not r.get("crash"):
                    c[1] += 1

    # -------------------------------------------------------------- verdict
    def finish(self):
        known = load_known(self.pid)
        viol, seen = [], {}
        for m in self.mismatches:
            k = None
            for f in known:
                if matches(f["match"], m[1]):
                    k = f
                    break
            if k:
                seen[k["what"]] = seen.get(k["what"], 0) + 1
            else:
                viol.append(m)
        for f in known:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.pid, f["what"], seen.get(f["what"], 0)))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples[:6])
        cov.update(self.cover)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if viol:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s_%s_%d.txt" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f:
                f.write("property %s, tier %s, seed %d: %d mismatch(es)\n" % (self.pid, self.tier, self.seed, len(viol)))
                for mod, e, exp, sc in viol[:20]:
                    f.write("\n--- scenario rejected by %s (last event does not conform)\n" % mod)
                    for x in sc[-60:]:
                        f.write(x[:4000] + "\n")
                    f.write("specification expects: %s\n" % exp[:6000])
            mod, e, exp, sc = viol[0]
            self.log("first mismatch (%s): %s" % (mod, json.dumps(e)[:1500]))
            self.log("expected: %s" % exp[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        self.log("ok: %d states, %d transitions, %d scenarios, %d events" % (self.states, self.transitions, self.traces, self.events))
        return 0


def tlastr(line):
    """The value of a string printed by TLC (a single line, quotes and backslashes escaped)."""
    return json.loads(line.strip())


def crashed(stderr):
    return bool(re.search(r"(?m)^(fatal error: |panic: |SIGBUS|SIGSEGV|unexpected fault address|WARNING: DATA RACE)", stderr)) \
        and "HARNESS-BUG" not in stderr


def crash_head(stderr):
    for l in stderr.splitlines():
        if re.match(r"(fatal error: |panic: |SIGBUS|SIGSEGV|unexpected fault|WARNING: DATA RACE)", l):
            return l[:200]
    return stderr[:200]


def drop_partial_line(path):
    data = open(path, "rb").read()
    if data and not data.endswith(b"\n"):
        data = data[:data.rfind(b"\n") + 1]
        open(path, "wb").write(data)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("known", []) if f["property"] == pid]


def matches(pat, ev):
    for k, v in pat.items():
        if k not in ev:
            return False
        if isinstance(v, dict) and isinstance(ev[k], dict):
            if not matches(v, ev[k]):
                return False
        elif ev[k] != v:
            return False
    return True
