"""Shared machinery: TLC runner, safe driver process, evidence, findings, verdicts."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CASE_TIMEOUT = 10

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


class MachineryError(Exception):
    pass


class EvaluationError(MachineryError):
    """TLC could not evaluate a trace specification on what was observed"""


class DriverError(MachineryError):
    """the code under test raised where the driver relies on it"""


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.ok = False
        self.out = ""
        self.lines = []      # printed tuples (raw text)
        self.violated = None
        self.wall = 0.0
        self.actions = {}


def run_tlc(module, cfg=None, env=None, workers=4, timeout=800, heap="3g", simulate=None,
            depth=None, seed=1, extra=(), coverage=False, constants=None):
    """Runs TLC on spec/<module>.tla.  Raises MachineryError when TLC itself fails
    (parse error, evaluation error, timeout)."""
    t0 = time.time()
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    cfgfile = os.path.join(SPEC, (cfg or module) + ".cfg")
    if constants:
        txt = open(cfgfile).read()
        for k, v in constants.items():
            txt, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), txt)
            if n != 1:
                raise MachineryError("no constant %s in %s" % (k, cfgfile))
        cfgfile = os.path.join(meta, "run.cfg")
        with open(cfgfile, "w") as f:
            f.write(txt)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-XX:ActiveProcessorCount=%d" % max(2, workers),
           "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-config", cfgfile]
    if simulate:
        cmd += ["-simulate", simulate, "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "100"]
    cmd += ["-workers", str(workers)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timeout on %s after %ss: %s" % (module, timeout, (ex.stdout or b"")[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.out = out
    r.wall = time.time() - t0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m and not r.generated:
        r.generated = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r"Invariant (\w+) is violated|property (\w+) is violated|Temporal properties were violated|Deadlock reached|Assumption .* is false", out)
    if m:
        r.violated = m.group(1) or m.group(2) or m.group(0)
    r.ok = rc == 0
    for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M):
        r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3))
    if not r.ok and not r.violated:
        raise EvaluationError("TLC failed on %s (rc=%s):\n%s" % (module, rc, out[max(0, out.find("Error:")):][:3000] + "\n...\n" + out[-3000:]))
    return r


def model_check(module, cfg=None, **kw):
    """Exhaustive check of a model; a violated invariant there is an error of the specification."""
    r = run_tlc(module, cfg, **kw)
    if r.violated:
        raise MachineryError("specification %s/%s violates %s:\n%s" % (module, cfg or module, r.violated, r.out[-8000:]))
    return r


VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def judge(module, cases, cfg=None, workers=6, timeout=800, heap="6g", env=None, keep=None):
    """Writes the cases as ndjson, lets TLC step the trace specification through every one of them.
    Returns (result, {case index (1-based): [failing clauses]}).  Every case must get a verdict."""
    fd, path = tempfile.mkstemp(prefix="vf_cases_", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for c in cases:
            f.write(json.dumps(c, ensure_ascii=True) + "\n")
    try:
        e = {"CASES": path}
        if env:
            e.update(env)
        r = run_tlc(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
    finally:
        if keep:
            shutil.copy(path, keep)
        os.unlink(path)
    if r.violated:
        raise MachineryError("trace specification %s stuck: %s\n%s" % (module, r.violated, r.out[-5000:]))
    verdicts = {}
    for m in VERDICT.finditer(r.out):
        cl = re.findall(r'"([^"]*)"', m.group(2))
        verdicts[int(m.group(1))] = cl
    if len(verdicts) != len(cases):
        missing = [i for i in range(1, len(cases) + 1) if i not in verdicts][:5]
        raise MachineryError("%s judged %d of %d cases (missing %s)\n%s" % (module, len(verdicts), len(cases), missing, r.out[-3000:]))
    return r, verdicts


# ---------------------------------------------------------------- driving the real code
class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def guarded(fn, *a, **kw):
    """Runs fn; returns ('ok', value) or ('exc', 'Type: message')."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return "ok", fn(*a, **kw)
    except CaseTimeout:
        return "exc", "Timeout"
    except MachineryError:
        raise
    except BaseException as ex:          # total verdicts: whatever the code raises is an outcome
        if isinstance(ex, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(ex.__traceback__)
        where = ""
        for fr in reversed(tb):
            if "pyembroidery" in fr.filename:
                where = " @%s:%s" % (os.path.basename(fr.filename), fr.name)
                break
        return "exc", "%s: %s%s" % (type(ex).__name__, str(ex)[:200], where)
    finally:
        signal.alarm(0)


def in_child(fn, timeout=300):
    """Runs fn() in a forked child with limited memory and in a scratch working directory
    as the place for any file; returns its JSON-able result."""
    scratch = tempfile.mkdtemp(prefix="vf_drv_")
    res = os.path.join(scratch, "result.json")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            os.chdir(scratch)
            sys.path.insert(0, REPO)
            val = fn()
            with open(res, "w") as f:
                json.dump(val, f)
            code = 0
        except BaseException:
            try:
                ex = sys.exc_info()[1]
                with open(res + ".err", "w") as f:
                    f.write(traceback.format_exc())
                if isinstance(ex, Exception) and not isinstance(ex, (MachineryError, MemoryError, ImportError, OSError)):
                    code = 7
            except BaseException:
                pass
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            shutil.rmtree(scratch, ignore_errors=True)
            raise MachineryError("driver child timed out")
        time.sleep(0.02)
    try:
        if os.path.exists(res) and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            with open(res) as f:
                return json.load(f)
        err = ""
        if os.path.exists(res + ".err"):
            with open(res + ".err") as f:
                err = f.read()
        raise (DriverError if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7 else MachineryError)("driver child failed: status %s\n%s" % (st, err))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- findings
def load_findings():
    """known: lines of KNOWN_FINDINGS.txt -> list of dicts (property, case, clause, text)."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+case=(\S+)\s+clause=(\S+)\s+(.*)", line)
            if m:
                out.append(dict(property=m.group(1), case=m.group(2), clause=m.group(3), text=m.group(4).strip()))
    return out


# ---------------------------------------------------------------- a check run
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.suites = []
        self.samples = []
        self.violations = []     # (suite, case, clauses)
        self.known = []
        self.assumptions = []
        self.findings = [f for f in load_findings() if f["property"] == prop]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def model(self, module, cfg=None, idle_ok=(), deeper=None, **kw):
        """Exhaustive run of a model.  `deeper`: constants for the thorough tier, where action
        coverage is collected as well and an action never taken is an error (unless idle_ok)."""
        kw.setdefault("workers", 8)
        if self.thorough:
            kw.setdefault("coverage", True)
            if deeper:
                kw["constants"] = dict(kw.get("constants") or {}, **deeper)
        r = model_check(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        idle = sorted(a for a, n in r.actions.items() if n == 0 and a not in idle_ok)
        self.models.append(dict(module=module, cfg=cfg or module, distinct=r.distinct, generated=r.generated,
                                depth=r.depth, wall_s=round(r.wall, 1), actions=r.actions))
        if idle:
            raise MachineryError("model %s/%s: actions never taken: %s" % (module, cfg or module, idle))
        return r

    def suite(self, name, module, cases, clauses=None, workers=6, timeout=800, env=None, cfg=None, chunk=4000):
        """Judges cases (dicts; key 'name' optional, key 'inp' what reproduces it).
        `clauses`: prefix filter - only these failing clauses belong to this property."""
        if not cases:
            raise MachineryError("suite %s generated no case" % name)
        nfail = 0
        for k in range(0, len(cases), chunk):
            part = cases[k:k + chunk]
            send = [{kk: v for kk, v in c.items() if kk not in ("inp", "name", "note")} for c in part]
            how = dict(workers=workers, timeout=timeout, env=env, cfg=cfg)
            try:
                r, verdicts = judge(module, send, **how)
            except EvaluationError:
                i = self.unreadable(module, send, how)
                self.violations.append((name, part[i], ["unreadable"]))
                nfail += 1
                break
            self.states += r.distinct
            self.transitions += r.generated
            for i, cl in sorted(verdicts.items()):
                if clauses is not None:
                    cl = [x for x in cl if any(x.startswith(p) for p in clauses)]
                c = part[i - 1]
                left = []
                for x in cl:
                    f = [f for f in self.findings if f["case"] == c.get("name") and f["clause"] == x]
                    if f:
                        if f[0] not in self.known:
                            self.known.append(f[0])
                    else:
                        left.append(x)
                if left:
                    nfail += 1
                    self.violations.append((name, c, left))
        self.traces += len(cases)
        self.suites.append(dict(suite=name, trace_spec=module, cases=len(cases), failing=nfail))
        s = min(cases, key=lambda c: abs(len(json.dumps(c)) - 600))
        self.samples.append(dict(suite=name, case=s if len(json.dumps(s)) < 200000 else dict(inp=s.get("inp"))))
        return nfail

    def unreadable(self, module, send, how):
        """index of a case on which the trace specification cannot be evaluated: what was observed is
        nothing it has a meaning for (a record of three fields where there are four, say)"""
        lo, hi = 0, len(send)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            try:
                judge(module, send[lo:mid], **how)
                lo = mid
            except EvaluationError:
                hi = mid
        try:
            judge(module, send[lo:hi], **how)
        except EvaluationError:
            return lo
        raise MachineryError("TLC failed on %s, but on no single case" % module)

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        for old in glob.glob(os.path.join(ev, "replay", self.prop + "-*.json")):
            os.unlink(old)
        replays = []
        for i, (suite, c, cl) in enumerate(sorted(self.violations, key=lambda v: len(json.dumps(v[1])))[:10]):
            path = os.path.join(ev, "replay", "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, suite=suite, clauses=cl, case=c, tier=self.tier, seed=self.seed), f, indent=1)
            replays.append((path, suite, cl))
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                   coverage=dict(states=self.states, transitions=self.transitions,
                                 traces_validated_against_impl=self.traces,
                                 samples=[s for s in self.samples][:6],
                                 models=self.models, suites=self.suites),
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        if self.known:
            doc["coverage"]["known_findings"] = [f["text"] for f in self.known]
        tmp = os.path.join(ev, "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(ev, self.prop + ".json"))
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["text"]))
        for s in self.suites:
            print("suite %-22s cases=%d failing=%d" % (s["suite"], s["cases"], s["failing"]))
        for m in self.models:
            print("model %-22s distinct=%d generated=%d" % (m["cfg"], m["distinct"], m["generated"]))
        if replays:
            for path, suite, cl in replays:
                print("  %s: failing clauses %s" % (suite, ", ".join(cl)))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%d violating cases" % len(self.violations))
            return 1
        print("OK property=%s tier=%s seed=%s states=%d traces=%d wall=%.1fs" % (
            self.prop, self.tier, self.seed, self.states, self.traces, time.time() - self.t0))
        return 0
