"""Driver library: builds the harness from /repo, runs TLC and the harness, reaches a verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not reach a verdict."""


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.decode("utf-8", "replace").split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    except OSError:
        pass
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.env = go_env()
        self.violations = []      # (msg, case dict)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cover = {}
        self.notes = []
        self.stages = []
        self.lock = threading.Lock()
        self.bins = {}

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def build(self, mode="plain"):
        """Builds the harness against the current tree. Modes: plain, race (race detector), sched (locks and
        pools of the code under test replaced by those of harness/vsync)."""
        with self.lock:
            if mode in self.bins:
                return self.bins[mode]
        src = self.path("harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = os.path.join(src, "go.mod")
            s = open(mod).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(s)
        out = self.path("vh-" + mode)
        cmd = ["go", "test", "-c", "-o", out, "./" + mode] if mode == "kit" else ["go", "build", "-o", out] + (["-race"] if mode == "race" else ["-overlay", self.overlay()] if mode == "sched" else []) + ["."]
        t = time.time()
        p = subprocess.run(cmd, cwd=src, env=self.env, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("the harness does not build against the current tree:\n" + p.stdout + p.stderr)
        self.log("built harness (%s) in %.1fs" % (mode, time.time() - t))
        with self.lock:
            self.bins[mode] = out
        return out

    def overlay(self):
        """Package sync is vh/vsync in every package of the code under test."""
        rep = {}
        for d, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if not x.startswith((".", "_")) and x != "testdata"]
            for f in files:
                if f.endswith(".go") and not f.endswith("_test.go"):
                    p = os.path.join(d, f)
                    s = open(p, encoding="utf-8", errors="surrogateescape").read()
                    n = re.sub(r'^((?:import)?[ \t]*)(\w+[ \t]+)?"sync"', lambda m: m.group(1) + (m.group(2) or "sync ") + '"vh/vsync"', s, flags=re.M)
                    if n != s:
                        q = self.path("overlay-%d.go" % len(rep))
                        open(q, "w", encoding="utf-8", errors="surrogateescape").write(n)
                        rep[p] = q
        out = self.path("overlay.json")
        json.dump(dict(Replace=rep), open(out, "w"))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=800, args=(), name=None):
        """Runs TLC; returns its output lines. Any error of the specification is an error of the check."""
        name = name or module
        d = tempfile.mkdtemp(prefix="tlc-%s-" % name, dir=self.dir)
        cfgfile = os.path.join(d, name + ".cfg")
        open(cfgfile, "w").write(cfg)
        e = dict(self.env)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", cfgfile] + list(args) + [module + ".tla"]
        t = time.time()
        outf = os.path.join(d, "out.txt")
        with open(outf, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC on %s timed out after %ds" % (name, timeout))
        lines = open(outf, encoding="utf-8", errors="replace").read().split("\n")
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        if p.returncode != 0 or not any("No error has been found" in l or "Finished in" in l for l in lines):
            raise CheckError("TLC on %s failed (exit %d):\n%s" % (name, p.returncode, "\n".join(l[:600] for l in lines[-60:])))
        gen = dis = 0
        for l in lines:
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", l)
            if m:
                gen, dis = int(m.group(1)), int(m.group(2))
            m = re.match(r"^The number of states generated: (\d+)", l)   # simulation
            if m:
                gen = dis = int(m.group(1))
        with self.lock:
            self.states += dis
            self.transitions += gen
            self.stages.append(dict(stage="tlc " + name, states=dis, generated=gen, wall_s=round(time.time() - t, 1)))
        self.log("TLC %s: %d distinct states, %d generated, %.1fs" % (name, dis, gen, time.time() - t))
        return lines

    # ---------------------------------------------------------------- harness
    def harness(self, area, mode="plain", infile=None, budget=0, n=0, timeout=None, crash=True, extra=(), hang=40, out=None, seed=None, workers=None):
        """Runs one driver of the harness. Returns its result; records violations."""
        exe = self.build(mode)
        out = out or self.path("out-" + area)
        os.makedirs(out, exist_ok=True)
        res = self._run(exe, area, infile, budget, n, timeout, extra, hang, out, seed, workers)
        if res["status"] != "ok":
            return self._crashed(exe, area, infile, budget, n, timeout, extra, hang, out, seed, workers, res, crash)
        r = json.load(open(os.path.join(out, "result.json")))
        for v in r.get("violations") or []:
            if self.prop in v["props"]:
                self.violation(v["msg"], dict(area=v["area"], case=v["case"], props=v["props"]))
        r["out"] = out
        with self.lock:
            self.stages.append(dict(stage="harness " + area, stats=r["stats"], wall_s=round(r["wall"], 1)))
            for s in r.get("samples") or []:
                if len(self.samples) < 6:
                    self.samples.append(s)
        self.log("harness %s: %s %s" % (area, json.dumps(r["stats"]), json.dumps(r["counts"]) if r["counts"] else ""))
        return r

    def _run(self, exe, area, infile, budget, n, timeout, extra, hang, out, seed, workers):
        cmd = [exe, area, "-out", out, "-tier", self.tier, "-seed", str(self.seed if seed is None else seed),
               "-budget", str(budget), "-n", str(n), "-hang", str(hang)]
        if infile:
            cmd += ["-in", infile]
        if workers:
            cmd += ["-workers", str(workers)]
        cmd += list(extra)
        e = dict(self.env)
        e["GORACE"] = "exitcode=66 halt_on_error=1"
        e["GOTRACEBACK"] = "single"
        e["VERIF_DIR"] = VERIF
        e["VERIF_REPO"] = REPO
        try:
            p = subprocess.run(["bash", "-c", 'ulimit -c 0; exec "$@"', "--"] + cmd, env=e, cwd=out, capture_output=True, text=True, errors="replace",
                               timeout=timeout or budget + 240)
        except subprocess.TimeoutExpired:
            return dict(status="timeout", err="no answer within the time limit")
        if p.returncode == 0:
            return dict(status="ok")
        err = p.stderr
        if p.returncode == 3:
            raise CheckError("harness %s: %s" % (area, err[-3000:]))
        st = "hang" if p.returncode == 44 else "race" if p.returncode == 66 else "crash"
        return dict(status=st, err=err[:6000], code=p.returncode)

    def _crashed(self, exe, area, infile, budget, n, timeout, extra, hang, out, seed, workers, res, crash):
        self.log("harness %s ended with %s: %s" % (area, res["status"], res["err"][:1500]))
        if crash == "final" and res["status"] != "hang" and res["status"] != "timeout":
            # what runs side by side need not fail again
            self.violation("the process %s: %s" % (dict(race="has a data race").get(res["status"], "crashed"), res["err"]), dict(area=area, seed=self.seed))
            return None
        if not crash:
            raise CheckError("harness %s: %s\n%s" % (area, res["status"], res["err"]))
        if res["status"] == "race":
            self.violation("data race:\n" + res["err"], dict(area=area, seed=self.seed, infile=None))
            return None
        # single out the case that was running
        for a, data, full in self._journal(out):
            if not full:
                continue
            f = self.path("suspect")
            open(f, "wb").write(data)
            o = self.path("suspect-out")
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            if infile and os.path.isfile(infile):
                shutil.copy(infile, os.path.join(o, os.path.basename(infile)))
            r2 = self._run(exe, a + "-raw", f, 0, 0, 60, (), 20, o, seed, 1)
            if r2["status"] != "ok":
                self.violation("the process %s: %s" % (r2["status"], r2["err"]), dict(area=a + "-raw", raw=list(data)))
                return None
            r = json.load(open(os.path.join(o, "result.json")))
            for v in r.get("violations") or []:
                if self.prop in v["props"]:
                    self.violation(v["msg"], dict(area=v["area"], case=v["case"], props=v["props"]))
                    return None
        o = self.path("again-" + area)
        os.makedirs(o, exist_ok=True)
        r2 = self._run(exe, area, infile, budget, n, timeout, extra, hang, o, seed, workers)
        if r2["status"] != "ok":
            self.violation("the process %s twice: %s" % (r2["status"], r2["err"]), dict(area=area, seed=self.seed))
            return None
        raise CheckError("harness %s ended with %s once, but not again:\n%s" % (area, res["status"], res["err"]))

    def _journal(self, out):
        slot = 1 << 18
        try:
            d = open(os.path.join(out, "journal"), "rb").read()
        except OSError:
            return
        for i in range(0, len(d), slot):
            h = d[i:i + 64]
            if h[:1] == b"\0" or b"\n" not in h:
                continue
            try:
                a, n, total = h.split(b"\n")[0].decode().split()
            except ValueError:
                continue
            yield a, d[i + 64:i + 64 + int(n)], n == total

    # ---------------------------------------------------------------- judging logs
    def chunks(self, trace, size=48 << 20):
        """Splits a log so that TLC can hold each part."""
        if os.path.getsize(trace) <= size:
            return [trace]
        out, f, k = [], None, 0
        for l in open(trace, "rb"):
            if f is None or f.tell() > size:
                out.append("%s.%d" % (trace, len(out)))
                f = open(out[-1], "wb")
            f.write(l)
        f.close()
        return out

    def judge(self, module, trace, props=None, consts="", env=None, timeout=800, heap="6g", area=None, extra_cfg=""):
        """TLC judges a log of independent records; props(record, message) gives the properties a mismatch breaks."""
        n = sum(1 for _ in open(trace, "rb"))
        if n == 0:
            raise CheckError("empty log " + trace)
        cfg = "CONSTANT Verdict <- Check\n%s\nSPECIFICATION JSpec\nINVARIANT Judged\nPOSTCONDITION AllJudged\nCHECK_DEADLOCK FALSE\n" % consts
        for t in self.chunks(trace):
            e = dict(TRACE=t)
            e.update(env or {})
            self.mismatches(self.tlc(module, cfg, env=e, timeout=timeout, heap=heap), t, props, area or module)
        with self.lock:
            self.traces += n
        return n

    def tests(self, lines, out):
        """Extracts the tests a specification printed; returns how many."""
        n = 0
        with open(out, "a", encoding="utf-8") as f:
            for l in lines:
                if l.startswith('"TEST '):
                    f.write(json.loads(l)[5:] + "\n")
                    n += 1
        return n

    def mismatches(self, lines, trace, props, area):
        bad = {}
        for l in lines:
            if "MISMATCH" in l:
                m = re.search(r'MISMATCH (\d+) (.*)$', l)
                if m and int(m.group(1)) not in bad:
                    bad[int(m.group(1))] = m.group(2).rstrip('"')
        if not bad:
            return
        recs = {}
        with open(trace, "rb") as f:
            for k, l in enumerate(f, 1):
                if k in bad:
                    recs[k] = l
        hit = 0
        for k in sorted(bad):
            rec = json.loads(recs[k])
            ps = props(rec, bad[k]) if callable(props) else (props or [self.prop])
            if self.prop in ps:
                hit += 1
                if hit <= 3:
                    self.violation("the specification does not allow this record: " + bad[k], dict(area=area, case=rec, props=list(ps)))
        self.log("%d records not allowed by the specification, %d about %s" % (len(bad), hit, self.prop))

    def violation(self, msg, case):
        with self.lock:
            self.violations.append((msg, case))


# -------------------------------------------------------------------- known findings
def known_findings():
    """Open findings: list of dicts with property and a regular expression over the reported text."""
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"^open: property=(\S+) match=/(.*)/ (.*)$", l.rstrip("\n"))
            if m:
                out.append(dict(property=m.group(1), rx=re.compile(m.group(2), re.S), what=m.group(3)))
    return out


def verdict(R, level, assumptions):
    open_findings = [k for k in known_findings() if k["property"] == R.prop]
    unlisted = []
    for msg, case in R.violations:
        text = msg + "\n" + json.dumps(case, sort_keys=True)
        if not any(k["rx"].search(text) for k in open_findings):
            unlisted.append((msg, case))
    for k in open_findings:
        print("KNOWN-FINDING: property=%s %s" % (R.prop, k["what"]))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = dict(states=R.states, transitions=R.transitions, traces_validated_against_impl=R.traces,
               samples=R.samples or ["none"], stages=R.stages)
    cov.update(R.cover)
    doc = dict(property=R.prop, tier=R.tier, seed=R.seed, level=level, coverage=cov, assumptions=assumptions,
               wall_s=round(time.time() - R.t0, 1), violations=len(unlisted))
    json.dump(doc, open(os.path.join(ev, R.prop + ".json"), "w"), indent=1)
    if not unlisted:
        print("OK property=%s wall=%.1fs" % (R.prop, time.time() - R.t0))
        return 0
    rd = os.path.join(ev, "replay")
    os.makedirs(rd, exist_ok=True)
    for k, (msg, case) in enumerate(unlisted[:5]):
        f = os.path.join(rd, "%s-%d.json" % (R.prop, k))
        json.dump(dict(dict(property=R.prop, message=msg, seed=R.seed, tier=R.tier), **case), open(f, "w"), indent=1)
        print("--- " + msg[:1500])
        print("    case: " + json.dumps(case.get("case", case))[:600])
        print("VIOLATION property=%s replay=%s" % (R.prop, f))
    return 1
