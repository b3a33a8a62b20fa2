"""Common machinery of the checks: scratch space, building the tool from /repo's working tree,
running TLC to obtain the cases and behaviours of the specification, reporting and evidence.

Exit codes: 0 the property held, 1 a violation was found, 3 no answer (a problem of the machinery)."""

import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
JOBS = 8


class NoAnswer(Exception):
    """The machinery couldn't decide."""


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", CGO_ENABLED="0",
    )
    return e


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed)
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.violations = []
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.notes = {}
        self.known = load_known(prop)
        self.known_hit = set()
        self.cli = None
        self.assumptions = []
        self._n = 0

    # -- scratch ---------------------------------------------------------------------------
    def dir(self, name=None):
        self._n += 1
        path = os.path.join(self.scratch, name or "d%06d" % self._n)
        os.makedirs(path)
        return path

    def log(self, *args):
        print("[%6.1fs]" % (time.time() - self.start), *args, flush=True)

    # -- the tool --------------------------------------------------------------------------
    def build_cli(self):
        if self.cli:
            return self.cli
        out = os.path.join(self.scratch, "metamodel")
        r = subprocess.run(["go", "build", "-o", out, "./cmd/metamodel"], cwd=REPO, env=env(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise NoAnswer("the tool doesn't build:\n" + r.stderr[-3000:])
        self.cli = out
        return out

    def run_cli(self, *args, cwd=None, timeout=60):
        """Returns (status, stdout, stderr); status is 'ok', 'fail', 'crash' or 'hang'."""
        try:
            r = subprocess.run([self.cli] + list(args), cwd=cwd, env=env(), timeout=timeout,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return "hang", "", ""
        out = r.stdout.decode("utf-8", "replace")
        err = r.stderr.decode("utf-8", "replace")
        if r.returncode == 0:
            status = "ok"
        elif r.returncode < 0 or "goroutine " in err and ("panic:" in err or "fatal error:" in err):
            status = "crash"
        else:
            status = "fail"
        return status, out, err

    # -- TLC -------------------------------------------------------------------------------
    def tlc(self, module, consts=None, invariants=(), init="Init", next="Next", spec=None,
            constraint=None, simulate=None, depth=None, seed=None, workers=1, heap="4g",
            timeout=800, extra_cfg="", postcondition=None, view=None, properties=(), env_extra=None,
            deadlock=False):
        """Runs TLC on a module of the specification and returns the list of JSON values that
        the specification emitted. Any problem found by TLC itself is a problem of the
        specification, never a violation."""
        work = self.dir()
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        cfg = ""
        if spec:
            cfg += "SPECIFICATION %s\n" % spec
        else:
            cfg += "INIT %s\nNEXT %s\n" % (init, next)
        # Values of constants can be arbitrary expressions, defined in a wrapper module:
        wrapper = "---- MODULE MC ----\nEXTENDS %s\n" % module
        for k, v in (consts or {}).items():
            wrapper += "const_%s == %s\n" % (k, v)
            cfg += "CONSTANT %s <- const_%s\n" % (k, k)
        wrapper += "====\n"
        with open(os.path.join(work, "MC.tla"), "w") as f:
            f.write(wrapper)
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        for p in properties:
            cfg += "PROPERTY %s\n" % p
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        if view:
            cfg += "VIEW %s\n" % view
        if postcondition:
            cfg += "POSTCONDITION %s\n" % postcondition
        cfg += extra_cfg
        with open(os.path.join(work, "M.cfg"), "w") as f:
            f.write(cfg)
        out = os.path.join(work, "out.ndjson")
        e = env()
        e["VERIF_OUT"] = out
        e.update(env_extra or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-config", "M.cfg", "-metadir", os.path.join(work, "meta"), "-workers", str(workers),
               "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed if seed is None else seed)]
            cmd += ["-depth", str(depth or 100)]
        elif seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append("MC.tla")
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("TLC didn't finish in %d s on %s" % (timeout, module))
        if r.returncode != 0:
            raise NoAnswer("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, (r.stdout + r.stderr)[-6000:]))
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states", r.stdout):
            pass
        if m:
            gen, dis = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", r.stdout)
            gen = int(m.group(1)) if m else 0
            dis = gen
        self.states += dis
        self.distinct += gen
        cases = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line:
                        try:
                            value = json.loads(line)
                            cases.append(json.loads(value) if isinstance(value, str) else value)
                        except ValueError:
                            raise NoAnswer("TLC didn't write a complete case of %s" % module)
        self.log("TLC %s: %d states, %d distinct, %d cases, %.1f s" % (module, gen, dis, len(cases), time.time() - t))
        shutil.rmtree(work, True)
        return cases

    # -- running cases -----------------------------------------------------------------------
    def map(self, fn, items, jobs=JOBS):
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(fn, items))

    # -- verdicts ----------------------------------------------------------------------------
    def violation(self, key, what, detail=None):
        """Reports a violation. The key identifies the failing case for the known findings."""
        for k in self.known:
            if k["match"] == key:
                self.known_hit.add(k["match"])
                return
        self.violations.append(dict(key=key, what=what, detail=detail))

    def finish(self, level="model_checking", bounds="", extra=None):
        os.makedirs(EVIDENCE, exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        replay = None
        if self.violations:
            rdir = os.path.join(EVIDENCE, "replay")
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, "%s-%s.json" % (self.prop, self.tier))
            with open(replay, "w") as f:
                json.dump(self.violations[:200], f, indent=1, default=str)
        cov = dict(states=self.states, transitions=self.distinct,
                   traces_validated_against_impl=self.traces, samples=self.samples[:5] or ["none"],
                   bounds=bounds)
        cov.update(self.notes)
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.start, 1), violations=len(self.violations),
                  assumptions=self.assumptions or ["the rendering of abstract cases as model text and Go calls in /verif/harness is faithful"])
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            for v in self.violations[:10]:
                print("  %s: %s" % (v["key"], str(v["what"])[:1500]))
            if len(self.violations) > 10:
                print("  ... and %d more" % (len(self.violations) - 10))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        self.log("property %s held on everything explored: %d states, %d cases replayed" % (
            self.prop, self.states, self.traces))
        return 0


def load_known(prop):
    """The known findings file has one line per finding: either
    `known: property=<id> match=<key> <text>` or `fixed: property=<id> <commit> <text>`."""
    result = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                result.append(dict(match=m.group(2), text=m.group(3)))
    return result


def write_files(base, files):
    for name, text in files.items():
        path = os.path.join(base, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def check_models(ctx, cases, label):
    """Checks a list of (files, accepted) with the tool: exit status zero if and only if the model
    has to be accepted, and never a crash. Repeated models are checked once."""
    seen = {}
    for files, ok in cases:
        key = json.dumps(files, sort_keys=True)
        if key in seen and seen[key][1] != ok:
            raise NoAnswer("the specification gives two verdicts for the same model: %s" % key)
        seen[key] = (files, ok)
    base = ctx.dir()

    def one(item):
        n, (files, ok) = item
        d = os.path.join(base, "c%d" % n)
        write_files(d, files)
        status, out, err = ctx.run_cli("check", "--model=" + d)
        shutil.rmtree(d, True)
        want = "ok" if ok else "fail"
        if status != want:
            ctx.violation(label, "expected %s, got %s" % (want, status), dict(files=files, stderr=err[-2000:]))
        elif not ok and not err.strip():
            ctx.violation(label, "rejected without an error message", dict(files=files))
        return ok

    oks = ctx.map(one, list(enumerate(seen.values())))
    shutil.rmtree(base, True)
    ctx.traces += len(oks)
    ctx.evaluations += len(oks)
    ctx.notes["accepted"] = ctx.notes.get("accepted", 0) + sum(oks)
    ctx.notes["rejected"] = ctx.notes.get("rejected", 0) + len(oks) - sum(oks)
    for files, ok in list(seen.values())[-2:]:
        ctx.samples.append(dict(files=files, expected=ok))


SHAPE = (KeyError, IndexError, TypeError, AttributeError, ValueError, FileNotFoundError)


def main(run):
    """Runs `run(ctx)` for the property and tier given in the command line."""
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    ctx = Ctx(prop, tier)
    try:
        code = run(ctx)
    except Exception as e:
        if isinstance(e, NoAnswer):
            print("NO ANSWER: %s" % e)
        else:
            traceback.print_exc()
        if isinstance(e, SHAPE) and not isinstance(e, NoAnswer):
            # What the tool or the generated code gave isn't even something that can be compared:
            ctx.violation("shape", "the result doesn't have the expected form: %s: %s" % (type(e).__name__, e), traceback.format_exc())
        # What was already found doesn't depend on the rest:
        code = ctx.finish() if ctx.violations else 3
    shutil.rmtree(ctx.scratch, True)
    sys.exit(code)
