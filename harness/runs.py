"""M04 and G03: the result doesn't depend on the layout of the files, or on the environment."""
from modelgen import *
import hashlib, itertools

INV = ["SameContent", "SameVerdict", "Emission"]
WRONG = {
    "undefined": "class Zebra {\n  Stripe Nothing\n}\n",
    "signature": "resource Zebra {\n  method Get {\n    in Body Integer\n  }\n}\n",
    "target": "resource Zebra {\n  locator Stripe {\n    target Nothing\n  }\n}\n",
}
GENERATORS = ["go", "openapi", "docs"]


def tree(base):
    """Content of all the files of a directory."""
    result = {}
    for b, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as g:
                result[os.path.relpath(p, base)] = g.read()
    return result


def difference(a, b):
    if a == b:
        return None
    if set(a) != set(b):
        return "files are different: %s" % sorted(set(a) ^ set(b))[:5]
    for f in sorted(a):
        if a[f] != b[f]:
            x, y = a[f].decode("utf-8", "replace").split("\n"), b[f].decode("utf-8", "replace").split("\n")
            for i in range(max(len(x), len(y))):
                if x[i:i + 1] != y[i:i + 1]:
                    return "line %d of %s is %s in one case and %s in the other" % (i + 1, f, x[i:i + 1], y[i:i + 1])
    return "different"


class Env:
    """One of the environments where the tool can run."""

    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        e = env()
        if k % 2:
            e.update(LANG="es_ES.UTF-8", LC_ALL="C", TZ="Asia/Tokyo", USER="other", HOSTNAME="other", GOMAXPROCS="1")
        if k % 3 == 1:
            e.update(GOMAXPROCS="7", TZ="America/New_York", GOGC="10", TMPDIR=ctx.scratch)
        self.env = e

    def run(self, gen, model):
        """Runs a generator and returns what it writes."""
        d = self.ctx.dir()
        work = d if self.k % 2 else os.path.join(d, "some", "deep", "place")
        os.makedirs(work, exist_ok=True)
        shutil.copy(os.path.join(REPO, "go.mod"), d)
        out = ["out", os.path.join(d, "result%d" % self.k), "./a/out%d" % self.k][self.k % 3]
        args = [self.ctx.cli, "generate", gen, "--output=" + out]
        for m in model if isinstance(model, list) else [model]:
            args.append("--model=" + (os.path.relpath(m, work) if self.k % 2 else m))
        if gen == "go":
            args.append("--base=example.com/base/pkg")
        if self.k == 3:
            # The directory exists, but it is empty:
            os.makedirs(os.path.join(work, out), exist_ok=True)
        r = subprocess.run(args, cwd=work, env=self.env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
        result = tree(os.path.join(work, out))
        shutil.rmtree(d, True)
        return r.returncode, result, r.stderr[-1000:]


def declaration(r, v, d):
    if d["k"] == "type":
        t = v["types"][d["i"] - 1]
        if d["c"]:
            return "class %s {\n}\n" % camel(t["n"])
        return r.type(v, t)
    if d["k"] == "resource":
        x = v["resources"][d["i"] - 1]
        if d["c"]:
            return "resource %s {\n}\n" % camel(x["n"])
        return r.resource(v, x)
    if d["k"] == "error":
        x = v["errors"][d["i"] - 1]
        if d["c"]:
            return "error %s {\n  code 9\n}\n" % camel(x["n"])
        return r.error(x)
    return WRONG[d["k"]]


def layout(case, run, docs, rng, members):
    """Files of the model with the given layout. The text of the declarations doesn't depend on it."""
    files = {}
    for v, fs in zip(case["model"], run["place"]):
        names = rng.sample(["a", "b", "main", "types", "zz", "m1", "A_file", "x.y"], len(fs))
        if rng.random() < 0.5:
            # Files of different directories have the same names:
            names = [names[run["inputs"][:k].count(i)] for k, i in enumerate(run["inputs"][:len(fs)])]
        for n, ds, i in zip(names, fs, run["inputs"]):
            if not ds and rng.random() < 0.5:
                continue
            r = Renderer(random.Random(1), shuffle=False, doc=docs)
            if members:
                r = Renderer(rng, doc=docs)
            gap = rng.choice(["\n", "\n\n\n", "\n// Lonely comment.\n\n"])
            head = rng.choice(["", "/*\nCopyright.\n*/\n\n", "// Header.\n\n"])
            if run["stray"]:
                files["in%d/%s/%s/sub/old.model" % (i, v["svc"], v["ver"])] = "class Old {\n  Name Nothing\n}\n"
                files["in%d/%s/README.md" % (i, v["svc"])] = "Nothing.\n"
                files["in%d/notes.txt" % i] = "class\n"
            files["in%d/%s/%s/%s.model" % (i, v["svc"], v["ver"], n)] = head + gap.join(declaration(r, v, d) for d in ds)
    return files


def doc_by_path(seed):
    """Documentation that depends only on the path of the element."""
    texts = [""] * len(TEXTS) + TEXTS + ["A | b."]

    def doc(*path):
        h = hashlib.sha256((str(seed) + "/".join(path)).encode()).digest()
        return texts[h[0] % len(texts)]
    return doc


def check_layouts(ctx, case, n):
    rng = random.Random(ctx.seed * 7919 + n)
    docs = doc_by_path(n)
    members = n % 2 == 1
    e = Env(ctx, 0)
    first = None
    for i, run in enumerate(case["runs"]):
        files = layout(case, run, docs, rng, members)
        d = ctx.dir()
        write_files(d, files)
        inputs = [os.path.join(d, "in%d" % (k + 1)) for k in range(max(run["inputs"]))]
        for x in inputs:
            os.makedirs(x, exist_ok=True)
        status, out, err = ctx.run_cli("check", *["--model=" + x for x in inputs])
        if status != ("ok" if run["ok"] else "fail"):
            ctx.violation("verdict", "the result for layout %d should be %s, but is %s: %s" % (i + 1, run["ok"], status, err[-500:]),
                          dict(files=files, defect=case["defect"]))
            return
        if not run["ok"]:
            continue
        results = []
        for g in GENERATORS:
            code, t, err = e.run(g, inputs)
            if code != 0:
                ctx.violation("generator", "the %s generator fails with layout %d: %s" % (g, i + 1, err), dict(files=files))
                return
            results.append(t)
        if first is None:
            first = results, files
            continue
        for g, a, b in zip(GENERATORS, first[0], results):
            p = difference(a, b)
            if p:
                ctx.violation("output", "the output of the %s generator is different: %s" % (g, p), dict(one=first[1], other=files))
                return


def check_runs(ctx, model, n, envs, what):
    """Runs the generators on the same files in different environments."""
    first = {}
    for i, k in enumerate(envs):
        for g in GENERATORS:
            code, t, err = Env(ctx, k).run(g, model)
            if code != 0:
                ctx.violation("generator", "the %s generator fails: %s" % (g, err), what)
                return
            if not t:
                ctx.violation("generator", "the %s generator doesn't write anything" % g, what)
                return
            if g not in first:
                first[g] = t
            else:
                p = difference(first[g], t)
                if p:
                    ctx.violation("output", "the output of the %s generator is different in run %d: %s" % (g, i + 1, p), what)
                    return


# -- the model of the tests ------------------------------------------------------------------------
def split(text):
    """Splits the text of a model file in declarations, with their comments."""
    text = re.sub(r"\A\s*/\*.*?\*/", "", text, flags=re.S)
    result, current, depth = [], "", 0
    for line in text.split("\n"):
        if not current.strip() and not line.strip():
            current = ""
            continue
        if depth == 0 and not line.strip():
            # Comment that isn't followed by a declaration:
            current = ""
            continue
        current += line + "\n"
        code = line.split("//")[0]
        depth += code.count("{") - code.count("}")
        if depth == 0 and "}" in code:
            result.append(current)
            current = ""
    return result


def check_own(ctx, n):
    """The model of the tests, with other layouts."""
    rng = random.Random(ctx.seed * 31 + n)
    src = os.path.join(REPO, "tests", "model")
    d = ctx.dir()
    for b, _, fs in os.walk(src):
        ds = []
        for f in sorted(fs):
            if f.endswith(".model"):
                ds += split(open(os.path.join(b, f)).read())
        if not ds:
            continue
        rng.shuffle(ds)
        k = rng.randint(1, 5)
        files = {}
        for x in ds:
            f = "f%d.model" % rng.randrange(k)
            files[f] = files.get(f, "") + x + "\n"
        write_files(os.path.join(d, os.path.relpath(b, src)), files)
    for g in GENERATORS:
        code, a, err = Env(ctx, 0).run(g, src)
        if code != 0:
            ctx.violation("generator", "the %s generator fails with the model of the tests: %s" % (g, err))
            return
        code, b, err = Env(ctx, 0).run(g, d)
        p = difference(a, b) if code == 0 else "it fails: " + err
        if p:
            ctx.violation("output", "the output of the %s generator for the model of the tests is different with another layout: %s" % (g, p),
                          dict(files={k: v.decode() for k, v in tree(d).items()}))
            return


LISTED = ["class Foo {\n  Name String\n}\n", "class Bar {\n  Foos []Foo\n}\n", "class FooList {\n  Size Integer\n}\n", "resource Root {\n}\n"]


def check_known(ctx):
    """A class with the name of the list of another class: the verdict depends on the order."""
    verdicts = {}
    for p in itertools.permutations(range(4)):
        d = ctx.dir()
        write_files(d, {"shop/v1/a.model": "\n".join(LISTED[i] for i in p)})
        verdicts[p] = ctx.run_cli("check", "--model=" + d)[0]
    if not set(verdicts.values()) <= {"ok", "fail"}:
        ctx.violation("verdict", "the results are %s" % verdicts, LISTED)
    elif len(set(verdicts.values())) > 1:
        ctx.violation("FooList", "the verdict depends on the order: %s" % verdicts, LISTED)


def run(ctx):
    ctx.build_cli()
    if ctx.prop == "M04":
        check_known(ctx)
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    k = 6 if t else 1
    args = [dict(types=6, attrs=12, resources=4, methods=7, annotations=5, errors=2, versions=2),
            dict(types=5, attrs=10, resources=5, methods=6, annotations=3, errors=3)]
    runs = []
    for i in range(2 * k):
        for a in args:
            runs.append((plan(rng, **a), rng.randrange(1 << 30)))
    defects = {"none"} if ctx.prop == "G03" else {"none", "none2", "root", "again", "undefined", "signature", "target"}
    cases = []
    for good in ([True] if ctx.prop == "G03" else [True, False]):
        ds = ["none"] if good else sorted(defects - {"none", "none2"})

        def one(r):
            c = constants(r[0])
            c.update(Layouts="4" if good else "6", Files="4", Dirs="3", Defects=tla_set(q(x) for x in ds), Environments="6")
            return ctx.tlc("Runs", c, INV, simulate=(6 if good else 15) * (2 if t else 1), depth=2000, seed=r[1], heap="2g")
        for cs in ctx.map(one, runs, jobs=4):
            cases += cs
    ctx.log("%d models" % len(cases))
    if ctx.prop == "M04":
        ctx.map(lambda x: check_layouts(ctx, x[1], x[0]), list(enumerate(cases)))
        ctx.map(lambda i: check_own(ctx, i), range(24 if t else 4))
    else:
        def one(x):
            i, c = x
            d = ctx.dir()
            files = Renderer(random.Random(ctx.seed + i), doc=doc_by_path(i)).files(c["model"])
            write_files(d, files)
            check_runs(ctx, d, i, [r["env"] for r in c["runs"]] + [0], dict(files=files))
        ctx.map(one, list(enumerate(cases)))
        check_runs(ctx, os.path.join(REPO, "tests", "model"), 0, range(8 if t else 3), "the model of the tests")
    ctx.traces += len(cases)
    ctx.notes["runs"] = sum(len(c["runs"]) for c in cases)
    ctx.notes["rejected"] = sum(not c["ok"] for c in cases)
    ctx.samples += cases[-1:]
    return ctx.finish(bounds="models with up to 2 versions, 6 types and 6 resources per version, 4 or 6 layouts of each in up to 4 files and 3 directories, 6 environments")


if __name__ == "__main__":
    main(run)
