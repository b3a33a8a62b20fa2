"""Generation of Go code for a model with the tool built from /repo, and execution of scripts of calls
on the generated code with the driver in godriver/."""
from vlib import *
import threading

BASE = "github.com/openshift-online/ocm-api-metamodel/tests/go/generated"
DRIVER = os.path.join(VERIF, "harness", "godriver")


class GeneratedCodeBroken(Exception):
    """The Go generator failed, or what it generated doesn't compile."""


class GoWork:
    """The directory where the generator runs looks like the repository, because the code that it
    generates depends on the Go modules of the place where it is used."""

    def __init__(self, ctx, name=None):
        self.ctx = ctx
        self.dir = ctx.dir(name)
        self.go = os.path.join(self.dir, "tests", "go")
        os.makedirs(self.go)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), self.dir)
            shutil.copy(os.path.join(REPO, "tests", "go", f), self.go)
        self.model = os.path.join(self.dir, "model")
        self.generated = os.path.join(self.go, "generated")
        self.driver = None

    def write(self, files):
        write_files(self.model, files)

    def generate(self, timeout=300):
        status, out, err = self.ctx.run_cli(
            "generate", "go", "--model=" + self.model, "--base=" + BASE, "--output=tests/go/generated",
            cwd=self.dir, timeout=timeout)
        if status != "ok":
            raise GeneratedCodeBroken("the Go generator failed (%s): %s" % (status, (out + err)[-3000:]))

    def go_run(self, *args, timeout=600):
        return subprocess.run(["go"] + list(args), cwd=self.go, env=env(), capture_output=True, text=True, timeout=timeout)

    def vet(self):
        """Compiles all the packages. Returns the errors, or the empty string."""
        r = self.go_run("build", "-gcflags=-e", "./...")
        if r.returncode == 0:
            return ""
        text = r.stdout + r.stderr
        if "generated/" not in text:
            raise NoAnswer("can't compile: " + text[-3000:])
        return text

    def build_driver(self):
        ctx = self.ctx
        if not getattr(ctx, "reggen", None):
            d = ctx.dir()
            shutil.copy(os.path.join(DRIVER, "reggen.go.txt"), os.path.join(d, "main.go"))
            with open(os.path.join(d, "go.mod"), "w") as f:
                f.write("module reggen\n\ngo 1.18\n")
            r = subprocess.run(["go", "build", "-o", "reggen", "."], cwd=d, env=env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise NoAnswer("can't build the registry generator: " + r.stderr)
            ctx.reggen = os.path.join(d, "reggen")
        pkg = os.path.join(self.go, "verifdriver")
        os.makedirs(pkg, exist_ok=True)
        shutil.copy(os.path.join(DRIVER, "driver.go.txt"), os.path.join(pkg, "driver_test.go"))
        r = subprocess.run([ctx.reggen, self.generated, BASE, os.path.join(pkg, "registry_test.go")],
                           env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise GeneratedCodeBroken("the generated code can't be parsed: " + r.stderr[-3000:])
        out = os.path.join(self.dir, "driver")
        r = self.go_run("test", "-vet=off", "-c", "-o", out, "./verifdriver")
        if r.returncode != 0:
            text = r.stdout + r.stderr
            if re.search(r"^(\./)?(\.\./)?generated/", text, re.M):
                raise GeneratedCodeBroken("the generated code doesn't compile: " + text[-3000:])
            raise NoAnswer("can't build the driver: " + text[-3000:])
        self.driver = out

    def run(self, scripts, jobs=JOBS, timeout=300):
        """Runs the scripts, each a list of operations or a dict, and returns the results. A script
        that makes the process crash or hang has the result [{'crash': text}]."""
        items = []
        for i, s in enumerate(scripts):
            d = dict(s) if isinstance(s, dict) else dict(ops=s)
            d["id"] = i
            items.append(d)
        results = [None] * len(items)
        chunks = [items[i::jobs] for i in range(jobs)]

        def one(chunk):
            crashes = 0
            while chunk:
                d = self.ctx.dir()
                path = os.path.join(d, "scripts")
                with open(path, "w") as f:
                    for s in chunk:
                        f.write(json.dumps(s) + "\n")
                e = env()
                e["VERIF_SCRIPTS"] = path
                e["VERIF_RESULTS"] = os.path.join(d, "results")
                text = "the process didn't finish"
                try:
                    r = subprocess.run([self.driver, "-test.run=TestDriver", "-test.timeout=0"], cwd=d, env=e,
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                    text = r.stdout.decode("utf-8", "replace")[-3000:]
                    failed = r.returncode != 0
                except subprocess.TimeoutExpired:
                    failed = True
                done = 0
                if os.path.exists(e["VERIF_RESULTS"]):
                    for line in open(e["VERIF_RESULTS"]):
                        if line.endswith("\n"):
                            v = json.loads(line)
                            results[v["id"]] = v["results"]
                            done += 1
                shutil.rmtree(d, True)
                if done == len(chunk):
                    break
                if not failed:
                    raise NoAnswer("the driver didn't run all the scripts")
                crashes += 1
                results[chunk[done]["id"]] = [dict(crash=text)]
                chunk = chunk[done + 1:]
                if crashes >= 3:
                    for s in chunk:
                        results[s["id"]] = [dict(crash="not executed")]
                    break

        self.ctx.map(one, [c for c in chunks if c])
        for i, r in enumerate(results):
            for k, x in enumerate(r):
                if isinstance(x, dict) and x.keys() & {"panic", "crash", "missing"} and "type" not in x:
                    # What follows may use what this didn't return:
                    break
                if isinstance(x, dict) and "bad" in x:
                    raise NoAnswer("problem in script: %s: %s" % (x["bad"], json.dumps(items[i]["ops"][k])[:500]))
        return results


# Shortcuts to write scripts:
def call(fn, *args, a=None, spread=False):
    return dict(do="call", fn=fn, args=list(args), **({"as": a if isinstance(a, list) else [a]} if a else {}), **({"spread": True} if spread else {}))


def method(on, name, *args, a=None, spread=False):
    return dict(do="method", on=on, name=name, args=list(args), **({"as": a if isinstance(a, list) else [a]} if a else {}), **({"spread": True} if spread else {}))


def lit(v):
    return dict(lit=v)


def ref(h):
    return dict(ref=h)


NIL = dict(nil=True)
