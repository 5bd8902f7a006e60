"""Shared machinery of the checks: scratch directories, running the tools, running TLC over batches of
recorded cases, evidence and verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vbuild

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)

class CheckError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d/%s" % (prop, self.seed, self.tier))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.replay_dir = os.path.join(VERIF, "build", "replay", prop)
        self.known = load_known(prop)
        self.known_hit = set()

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def build(self, *names, variant="std"):
        return vbuild.build(list(names), variant)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def add_tlc(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.generated

    def violation(self, what, files=(), key=None, data=None):
        """record a violation; `files` are copied beside the replay record"""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]))
            return
        n = len(self.violations)
        d = os.path.join(self.replay_dir, "%d-%s" % (self.seed, "t" if self.tier == "thorough" else "q"))
        if n == 0 and os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "violation%d.txt" % n)
        with open(p, "w") as f:
            f.write("property %s\n%s\n" % (self.prop, what))
            if data is not None:
                f.write(json.dumps(data, indent=1, default=str) + "\n")
            for s in files:
                if s and os.path.exists(s):
                    dst = os.path.join(d, "%d-%s" % (n, os.path.basename(s)))
                    shutil.copy(s, dst)
                    f.write("file: %s\n" % dst)
        self.violations.append(p)
        if n < 5:
            print("violation: %s" % (what if len(what) < 900 else what[:300] + "\n   ...\n" + what[-600:]))

    def finish(self):
        self.write_evidence()
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]))
            sys.stdout.flush()
            return 1
        print("%s held: %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 0

    def write_evidence(self):
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
             "coverage": self.cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1, default=str)

def load_known(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out

def run(cmd, cwd=None, timeout=60, env=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdin=stdin if stdin else subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired as ex:
        return "timeout", (ex.stdout or b"").decode("latin1")

class TLCResult:
    states = 0
    generated = 0
    ok = False
    violated = None
    trace = ""
    out = ""
    values = None

def tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), heap="3g", cwd_files=(), deadlock=False, jopts=()):
    """run TLC; cfg is the text of the configuration"""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in cwd_files:
            p = os.path.join(d, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, "w") as f:
                f.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d] + list(jopts) + ["-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", module + ".cfg", "-noGenerateSpecTE"]
        if not deadlock:
            cmd += ["-deadlock"]
        cmd += list(extra) + [module + ".tla"]
        rc, out = run(cmd, cwd=d, timeout=timeout, env=env)
        r = TLCResult()
        r.out = out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r.generated, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Error: (?:Temporal properties were violated)", out) \
            or re.search(r"Action property (\S+) is violated", out) or re.search(r"property (\S+) (?:is|was) violated", out)
        if m:
            r.violated = m.group(1) if m.groups() else "temporal"
        elif "Deadlock reached" in out:
            r.violated = "Deadlock"
        elif "Postcondition" in out and "violated" in out or "evaluated to FALSE" in out and "POSTCONDITION" in out:
            r.violated = "Postcondition"
        elif rc == 0 and "Model checking completed. No error has been found" in out or rc == 0 and "-simulate" in extra:
            r.ok = True
        else:
            i = out.find("Error:")
            raise CheckError("TLC failed (%s) on %s\n%s\n...\n%s" % (rc, module, out[i:i + 2000] if i >= 0 else "", out[-6000:]))
        if r.violated:
            i = out.find("Error:")
            r.trace = out[i:]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tlc_values(out, name):
    """values of a variable in a printed counterexample"""
    return re.findall(r"^(?:/\\ )?%s = (.*)" % re.escape(name), out, re.M)

def tlc_cases(check, module, invariants, cases, consts="", timeout=700, spec="Spec", casevar="ci", heap="3g", procs=None, props=(),
              weight=None, maxviol=3):
    """Validate the recorded cases (JSON values) against `module`; every case is one behaviour of the spec.
    Returns the list of (case index, invariant, trace text) that were rejected."""
    if not cases:
        return []
    k = min(procs or NPROC, len(cases))
    w = weight or (lambda c: 1)
    order = sorted(range(len(cases)), key=lambda i: -w(cases[i]))
    parts = [[] for _ in range(k)]
    load = [0.0] * k
    for i in order:
        j = load.index(min(load))
        parts[j].append(i)
        load[j] += w(cases[i])
    cfg = "SPECIFICATION %s\n" % spec + consts + "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % i for i in props)
    bad = []
    def one(part):
        part = list(part)
        res = []
        while part:
            fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="cases-")
            with os.fdopen(fd, "w") as f:
                for i in part:
                    f.write(json.dumps(cases[i]) + "\n")
            try:
                r = tlc(module, cfg, env={"VERIF_CASES": path}, timeout=timeout, heap=heap)
            finally:
                os.unlink(path)
            if r.ok:
                return res, r
            v = tlc_values(r.trace, casevar)
            if not v:
                raise CheckError("TLC gave no case for the violation of %s\n%s" % (r.violated, r.out[-4000:]))
            ci = int(v[-1])
            res.append((part[ci - 1], r.violated, r.trace[-300000:]))
            if len(res) >= maxviol:
                return res, r
            part = part[:ci - 1] + part[ci:]
        return res, None
    with ThreadPoolExecutor(k) as ex:
        for res, r in ex.map(one, parts):
            bad += res
            if r:
                check.add_tlc(r)
    check.count("traces_validated_against_impl", len(cases) - len({b[0] for b in bad}))
    return bad

def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(fn, items))

def main(fn, prop, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except (CheckError, vbuild.BuildError) as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 2
    except Exception:
        import traceback
        print("CHECK-ERROR property=%s\n%s" % (prop, traceback.format_exc()))
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 2
    sys.exit(rc)
