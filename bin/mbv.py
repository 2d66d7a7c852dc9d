"""Shared machinery of the checks: build drivers from /repo's working tree,
run them, validate what they recorded with TLC, write evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOMOD = os.path.join(VERIF, "go")
SPEC = os.path.join(VERIF, "spec")
NCPU = max(2, os.cpu_count() or 2)
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (no verdict)."""


def goenv():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env)
        for kv in out.stdout.split(b"\0"):
            if b"=" in kv:
                k, v = kv.decode(errors="replace").split("=", 1)
                env[k] = v
    except OSError:
        pass
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOSUMDB"] = "off"
    env.pop("GOMAXPROCS", None)
    env["GOTOOLCHAIN"] = "local"
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, ".work"))
        shutil.copytree(SPEC, os.path.join(self.work, "spec"))
        self.env = goenv()
        self.t0 = time.time()
        self.violations = []      # (short text, replay path)
        self.known = []
        self.cov = {}             # accumulated coverage numbers
        self.samples = []
        self.notes = []
        self.native = set()       # drivers that could not be instrumented
        self.bins = {}
        self.n = 0

    def log(self, *a):
        print("[%5.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def add(self, key, v):
        self.cov[key] = self.cov.get(key, 0) + v

    def path(self, *p):
        return os.path.join(self.work, *p)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def run(self, cmd, timeout=600, **kw):
        try:
            return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=self.env, **kw)
        except subprocess.TimeoutExpired as e:
            r = subprocess.CompletedProcess(cmd, 124, "", "timeout after %ss" % timeout)
            return r

    def modfile(self):
        """A private go.mod/go.sum so that builds never touch committed files."""
        p = self.path("go.mod")
        if not os.path.exists(p):
            s = open(os.path.join(GOMOD, "go.mod")).read()
            if REPO != "/repo":
                s = s.replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
            shutil.copy(os.path.join(GOMOD, "go.sum"), self.path("go.sum"))
        return p

    def build(self, driver, race=False, plain=False):
        """Build driver; controlled (instrumented) unless race/plain."""
        key = (driver, race, plain)
        if key in self.bins:
            return self.bins[key]
        out = self.path("%s%s%s" % (driver, "-race" if race else "", "-plain" if plain else ""))
        mf = "-modfile=" + self.modfile()
        cmd = ["go", "build", mf, "-o", out]
        if race:
            cmd.append("-race")
        if not race and not plain:
            ins = self.path("instr")
            if not os.path.exists(ins):
                r = self.run(["go", "build", mf, "-o", ins, "./cmd/instr"], cwd=GOMOD)
                if r.returncode:
                    raise CheckError("building the instrumenter: " + r.stderr)
            od = self.path("ov-" + driver)
            os.makedirs(od, exist_ok=True)
            env = dict(self.env)
            env["GOFLAGS"] = "-mod=mod " + mf
            r = subprocess.run([ins, "-mod", GOMOD, "-out", od, "./drivers/" + driver], capture_output=True, text=True, env=env, cwd=GOMOD)
            ok = r.returncode == 0
            if ok:
                r = self.run(cmd + ["-overlay", os.path.join(od, "overlay.json"), "./drivers/" + driver], cwd=GOMOD)
                ok = r.returncode == 0
            if not ok:
                self.log("instrumentation of %s failed, native schedules only: %s" % (driver, r.stderr[-2000:]))
                self.notes.append("instrumentation failed, native schedules used: " + r.stderr[-300:])
                self.native.add(driver)
                self.bins[key] = self.build(driver, plain=True)
                return self.bins[key]
        else:
            r = self.run(cmd + ["./drivers/" + driver], cwd=GOMOD)
            if r.returncode:
                raise CheckError("building driver %s: %s" % (driver, r.stderr[-4000:]))
        self.bins[key] = out
        return out

    # ------------------------------------------------------------ exploring
    def explore(self, driver, fams, maxhist=0, timeout=300):
        """fams: list of dicts (family, sched, bound, shards). Returns files."""
        b = self.build(driver)
        native = driver in self.native
        jobs = []
        for f in fams:
            shards = f.get("shards", NCPU)
            nat = native or f.get("native")
            exe = self.build(driver, plain=True) if nat else b
            for s in range(shards):
                out = self.path("%s-%s%s-%d.json" % (driver, f["family"], "-nat" if f.get("native") else "", s))
                cmd = [exe, "-family", f["family"], "-seed", str(self.seed), "-shard", str(s), "-shards", str(shards),
                       "-sched", str(f.get("sched", 100)), "-bound", str(f.get("bound", 2)), "-tier", self.tier,
                       "-maxhist", str(f.get("maxhist", maxhist)), "-out", out]
                if f.get("native"):
                    cmd += ["-mode", "nat"]
                elif native:
                    cmd += ["-mode", "nat", "-sched", str(max(3, f.get("sched", 100) // 10))]
                jobs.append((f, cmd, out))
        files = []

        def one(j):
            f, cmd, out = j
            return j, self.run(cmd, timeout=timeout)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (f, cmd, out), r in ex.map(one, jobs):
                if r.returncode != 0:
                    self.crashed(driver, f, cmd, r, native or f.get("native"))
                    continue
                st = json.loads(r.stdout.strip().splitlines()[-1])
                self.add("executions", st["executions"])
                self.add("scheduling_steps", st["steps"])
                self.add("scenarios", st["scenarios"])
                self.add("distinct_histories", st["distinct"])
                self.add("dfs_exhausted_scenarios", st["dfs_exhausted"])
                for k, v in st["status"].items():
                    self.add("end_" + k, v)
                files.append((f["family"], out))
        return files

    def crashed(self, driver, f, cmd, r, native):
        err = r.stderr
        if native and ("panic:" in err or "fatal error:" in err) and REPO in err:
            p = self.save_replay({"driver": driver, "family": f["family"], "cmd": cmd, "crash": err[:8000]})
            self.violation("driver %s crashed: %s" % (driver, err.strip().splitlines()[0]), p)
            return
        if not native and r.returncode in (2, 124) and driver not in self.native:
            # a construct the scheduler does not understand (real blocking,
            # fatal runtime error): use native schedules instead
            raise Uncontrolled(driver, err[-1500:])
        raise CheckError("driver %s failed (%d): %s" % (driver, r.returncode, err[-3000:]))

    def explore_safe(self, driver, fams, **kw):
        try:
            return self.explore(driver, fams, **kw)
        except Uncontrolled as e:
            self.log("controlled run of %s not possible (%s); native schedules" % (driver, e))
            self.notes.append("controlled run not possible, native schedules used")
            self.native.add(driver)
            self.bins[(driver, False, False)] = self.build(driver, plain=True)
            return self.explore(driver, fams, **kw)

    # ------------------------------------------------------------ race runs
    def race(self, driver, fams, timeout=300):
        b = self.build(driver, race=True)
        env = dict(self.env)
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        jobs = []
        for f in fams:
            shards = f.get("shards", 4)
            for s in range(shards):
                jobs.append((f, [b, "-mode", "race", "-family", f["family"], "-seed", str(self.seed), "-shard", str(s),
                                 "-shards", str(shards), "-sched", str(f.get("sched", 10)), "-tier", "quick", "-limit", str(f.get("limit", 20)) + "s"]))

        def one(j):
            try:
                return j, subprocess.run(j[1], capture_output=True, text=True, timeout=timeout, env=env)
            except subprocess.TimeoutExpired:
                return j, None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (f, cmd), r in ex.map(one, jobs):
                if r is None:
                    self.log("race run timed out", cmd)
                    self.add("race_timeouts", 1)
                    continue
                if r.returncode == 0:
                    self.add("race_executions", json.loads(r.stdout.strip().splitlines()[-1])["executions"])
                    continue
                if r.returncode == 66 and "DATA RACE" in r.stderr and self.in_repo(r.stderr):
                    p = self.save_replay({"driver": driver, "family": f["family"], "cmd": cmd, "race": r.stderr[:12000]})
                    self.violation("data race in %s/%s" % (driver, f["family"]), p)
                    continue
                if r.returncode == 2 and self.in_repo(r.stderr):
                    p = self.save_replay({"driver": driver, "family": f["family"], "cmd": cmd, "crash": r.stderr[:12000]})
                    self.violation("crash in %s/%s: %s" % (driver, f["family"], r.stderr.strip().splitlines()[0]), p)
                    continue
                if r.returncode == 66 and "DATA RACE" in r.stderr:
                    # in data of the driver, which the code under test orders (a lock) or should not affect
                    if f.get("guards"):
                        p = self.save_replay({"driver": driver, "family": f["family"], "cmd": cmd, "race": r.stderr[:12000]})
                        self.violation("data guarded by the code under test raced in %s/%s" % (driver, f["family"]), p)
                    else:
                        self.log("race outside of the code under test ignored", r.stderr[:1500])
                        self.add("foreign_races", 1)
                    continue
                raise CheckError("race run of %s failed (%d): %s" % (driver, r.returncode, r.stderr[-3000:]))

    def in_repo(self, text):
        return REPO + "/" in text or "go-pkg" in text

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=2, timeout=600, heap="3g", extra=(), partial=False):
        self.n += 1
        md = self.path("md%d" % self.n)
        e = dict(self.env)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-Xmx" + heap, "-Xss16m", "-cp", TLAJARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.specdir())
        except subprocess.TimeoutExpired as x:
            if partial:
                o = x.stdout or b""
                return subprocess.CompletedProcess(cmd, None, o if isinstance(o, str) else o.decode(errors="replace"), "")
            raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r

    def specdir(self):
        return self.path("spec")

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0]), int(m[-1][1])

    def generate(self, module, **consts):
        """What the specification emits (PrintT(<<"GEN", json>>)), in TLC's breadth-first order."""
        name = self.configure(module, consts)
        r = self.tlc(module, name, workers=1, timeout=800)
        if "Model checking completed. No error has been found" not in r.stdout:
            raise CheckError("generator %s %s: %s" % (module, consts, r.stdout[-3000:]))
        return [json.loads(json.loads(m)) for m in re.findall(r'(?m)^<<"GEN", (".*")>>$', r.stdout)]

    def shapes(self):
        """The programs in go/h/shapes.json: TLC derives them from the design of the map."""
        d = {str(n): [x["prog"] for x in self.generate("MapGen", Keys="{%s}" % ", ".join(map(str, range(1, n + 1))))] for n in (2, 3)}
        return "{\n" + ",\n".join('"%s": [\n%s\n]' % (k, ",\n".join(json.dumps(p) for p in ps)) for k, ps in d.items()) + "\n}\n"

    def check_shapes(self):
        with open(os.path.join(VERIF, "go/h/shapes.json")) as fh:
            old = fh.read()
        if self.shapes() != old:
            raise CheckError("go/h/shapes.json is not what TLC derives from spec/MapGen.tla (run tools/genshapes.py)")
        self.add("generated_programs_rederived", old.count("[[") + old.count("[],"))

    def configure(self, module, consts):
        cfg = open(os.path.join(self.specdir(), module + ".cfg")).read()
        for k, v in consts.items():
            cfg, n = re.subn(r"(?m)^(\s*%s = ).*$" % k, lambda m: m.group(1) + str(v), cfg)
            if n != 1:
                raise CheckError("design model %s: no constant %s" % (module, k))
        self.n += 1
        name = "%s_%d" % (module, self.n)
        open(os.path.join(self.specdir(), name + ".cfg"), "w").write(cfg)
        return name

    def design(self, module, workers=NCPU, timeout=800, broken=False, **consts):
        """Model-check a design-level specification (no verdict on the code); consts replace constants of its
        configuration.  broken: the variant is deliberately wrong, and TLC has to find that out."""
        name = self.configure(module, consts)
        r = self.tlc(module, name, workers=workers, timeout=timeout, heap="8g")
        ok = "Model checking completed. No error has been found" in r.stdout
        if broken:
            if not re.search(r"is violated|was violated|Deadlock reached", r.stdout):
                raise CheckError("design model %s %s: the broken variant passes: %s" % (module, consts, r.stdout[-2000:]))
            self.add("design_broken_variants_refuted", 1)
            return
        if not ok:
            raise CheckError("design model %s %s: %s" % (module, consts, r.stdout[-3000:]))
        g, d = self.counts(r.stdout)
        self.add("design_states", d)
        self.add("design_transitions", g)
        self.log("design model %s %s: %d states" % (module, consts or "", d))

    def validate(self, module, files, tag="", known=None, chunk=1500, timeout=int(os.environ.get("MBV_T", "200")), workers=2):
        """Validate histories (ndjson files of (family, path)) with TLC."""
        lines = []
        for fam, p in files:
            with open(p) as fh:
                for ln in fh:
                    lines.append((fam, ln))
        if not lines:
            return
        n = len(lines)
        procs = max(1, NCPU // workers)
        k = max(1, min(procs if n <= procs * chunk else (n + chunk - 1) // chunk, n // 50 + 1))
        chunks = [lines[i::k] for i in range(k)]

        until = time.time() + 420

        def batch(name, part, timeout=timeout):
            """Indices of the histories of part that are accepted (or that TLC cannot decide in time)."""
            p = self.path("val-%s-%s-%s.json" % (module, tag, name))
            with open(p, "w") as fh:
                fh.writelines(l for _, l in part)
            r = self.tlc(module, env={"TRACE": p}, workers=workers, timeout=timeout, partial=True)
            if r.returncode is None:
                acc = {int(x) - 1 for x in re.findall(r'<<"ACC", (\d+)>>', r.stdout)}
                rest = [i for i in range(len(part)) if i not in acc]
                if len(part) == 1 or time.time() > until:
                    self.log("%s: %d histories undecided in time" % (module, len(rest)))
                    self.add("undecided", len(rest))
                    return acc | set(rest)
                q = max(1, (len(rest) + 3) // 4)
                for j in range(0, len(rest), q):
                    sub = rest[j:j + q]
                    acc |= {sub[x] for x in batch("%s.%d" % (name, j), [part[i] for i in sub], max(30, timeout // 3))}
                return acc
            g, d = self.counts(r.stdout)
            self.add("states", d)
            self.add("transitions", g)
            if "Model checking completed. No error has been found" in r.stdout:
                return {int(x) - 1 for x in re.findall(r'<<"ACC", (\d+)>>', r.stdout)}
            if "Starting..." not in r.stdout or "Parsing or semantic analysis failed" in r.stdout or "OutOfMemory" in r.stdout or not re.search(r"^Error: ", r.stdout, re.M):
                raise CheckError("TLC on %s: %s\n%s" % (module, r.stdout[-3000:], r.stderr[-500:]))
            # some history holds events the specification gives no meaning to: not a behaviour of it
            if len(part) == 1:
                self.log("evaluation error: " + " ".join(re.findall(r"^Error: .*(?:\n.*){0,3}", r.stdout, re.M))[:600])
                return set()
            h = len(part) // 2
            return batch(name + "a", part[:h], timeout) | {x + h for x in batch(name + "b", part[h:], timeout)}
        rejected = []
        und = self.cov.get("undecided", 0)
        with cf.ThreadPoolExecutor(procs) as ex:
            for i, acc in enumerate(ex.map(lambda i: batch(str(i), chunks[i]), range(k))):
                self.add("traces_validated_against_impl", len(chunks[i]))
                for j, (fam, ln) in enumerate(chunks[i]):
                    if j not in acc:
                        rejected.append((fam, ln))
        und = self.cov.get("undecided", 0) - und
        if und:
            self.add("traces_validated_against_impl", -und)
        self.log("%s: %d histories, %d rejected" % (module, n, len(rejected)))
        if len(self.samples) < 2:
            try:
                d = json.loads(lines[len(lines) // 2][1])
                d.pop("c", None)
                s = json.dumps(d)
                self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])
            except ValueError:
                pass
        if not rejected:
            if self.cov.get("undecided", 0) > max(20, n // 20):
                raise CheckError("%s: too many histories undecided" % module)
            return
        rejected.sort(key=lambda x: len(x[1]))
        fresh = []
        for fam, ln in rejected:
            d = json.loads(ln)
            kf = known(d) if known else None
            if kf:
                self.known.append(kf)
            else:
                fresh.append((fam, d, ln))
        for fam, d, ln in fresh[:3]:
            at = self.diagnose(module, ln)
            drv = files[0][1].split("/")[-1].split("-")[0]
            p = self.save_replay({"module": module, "family": fam, "seed": self.seed, "scenario": d.get("s"), "program": d.get("n"),
                                  "strategy": d.get("strat"), "choices": d.get("c"), "rejected_at_event": at, "driver": drv,
                                  "rerun": "%s -mode replay -family %s -seed %d -scen %s -tier %s -choices <choices>" % (drv, fam, self.seed, d.get("s"), self.tier),
                                  "history": d.get("h", d)})
            ev = d.get("h")
            bad = ev[at - 1] if ev and at and at <= len(ev) else None
            self.violation("%s: history of [%s] is not a behaviour of the specification; first unexplained event %s: %s" % (module, d.get("n"), at, json.dumps(bad)), p)
        self.add("rejected", len(fresh))

    def diagnose(self, module, line):
        p = self.path("diag.json")
        open(p, "w").write(line)
        cfg = os.path.join(self.specdir(), "Diag_%s.cfg" % module)
        base = open(os.path.join(self.specdir(), module + ".cfg")).read()
        open(cfg, "w").write(base + "\nCONSTRAINT Reach\n")
        try:
            r = self.tlc(module, cfg="Diag_" + module, env={"TRACE": p, "DIAG": "1"}, workers=1, timeout=120)
            at = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.stdout)]
            return max(at) if at else None
        except CheckError:
            return None

    # ------------------------------------------------------------- verdicts
    def save_replay(self, obj):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        s = json.dumps(obj, indent=1)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
        open(p, "w").write(s + "\n")
        return os.path.relpath(p, VERIF)

    def violation(self, text, path):
        self.violations.append((text, path))

    def evidence(self, level, rule, assumptions):
        c = dict(self.cov)
        cov = {"rule": rule, "samples": self.samples or ["none"]}
        cov.update(c)
        if level == "model_checking":
            cov.setdefault("states", 0)
            cov.setdefault("transitions", 0)
            cov["states"] += c.get("design_states", 0)
            cov["transitions"] += c.get("design_transitions", 0)
            cov.setdefault("traces_validated_against_impl", 0)
        cov["evaluations"] = c.get("executions", 0) + c.get("calls", 0) + c.get("race_executions", 0)
        cov["distinct_nontrivial"] = c.get("distinct_histories", 0) + c.get("distinct_calls", 0)
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, self.prop + ".json"), "w").write(json.dumps(ev, indent=1, ensure_ascii=False) + "\n")


class Uncontrolled(Exception):
    def __init__(self, driver, msg):
        super().__init__(driver + ": " + msg)
        self.driver = driver
