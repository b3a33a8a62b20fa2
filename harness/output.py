"""G04: success means that every file was written."""
from modelgen import *
from runs import tree

INV = ["SuccessMeansComplete", "ResultFollowsFaults", "NothingWithoutOptions", "Emission"]
GENERATORS = ["go", "openapi", "docs"]
BEFORE = ["absent", "empty", "shorter", "longer", "other", "altered", "same"]
FAULTS = ["full", "directory", "parent", "dangling"]

SMALL = {"zoo/v1/a.model": """
// Documentation.
class Cluster {
  Name String
}

enum Color {
  Red
}

error Lost {
  code 4
}

resource Root {
  locator Clusters {
    target Clusters
  }
}

resource Clusters {
  method List {
    out Items []Cluster
  }
}
"""}


class Fake:
    """Directories with formatters that aren't good."""

    def __init__(self, ctx):
        self.dirs = {}
        self.dirs["missing"] = ctx.dir()
        d = self.dirs["fails"] = ctx.dir()
        with open(d + "/goimports", "w") as f:
            f.write("#!/bin/sh\nexit 2\n")
        os.chmod(d + "/goimports", 0o755)

    def env(self, formatter):
        e = env()
        if formatter in self.dirs:
            e["PATH"] = self.dirs[formatter]
        return e


OPTIONS = dict(model="model", output="out", base="example.com/base/pkg")


def options(gen):
    """Mandatory options of a generator, or of the 'check' command."""
    return {"go": ["model", "output", "base"], "check": ["model"]}.get(gen, ["model", "output"])


def generate(ctx, d, gen, e, given=None, style=0, paths=("model",)):
    """Runs the generator in directory d, where the model is. Returns the status and the errors."""
    args = [ctx.cli] + ([gen] if gen == "check" else ["generate", gen])
    for o in options(gen):
        if o == "model":
            args += ["--model=" + x for x in paths]
        elif given is None or o in given:
            args += ["--%s=%s" % (o, OPTIONS[o])]
        elif style:
            args += ["--%s=" % o]
    try:
        r = subprocess.run(args, cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return "hang", ""
    err = r.stderr.decode("utf-8", "replace")
    if r.returncode < 0 or "goroutine " in err and ("panic:" in err or "fatal error:" in err):
        return "crash", err
    return "ok" if r.returncode == 0 else "fail", err


def prepare(ctx, files):
    d = ctx.dir()
    write_files(d + "/model", files)
    shutil.copy(os.path.join(REPO, "go.mod"), d)
    return d


def put(path, before, content, others, rng):
    """Puts in the file what was there before."""
    if before == "absent":
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    other = others[rng.choice(sorted(others))]
    data = dict(empty=b"", shorter=content[:len(content) // 2], longer=content + b"// Rest.\n" + content, other=other, same=content,
                altered=re.sub(rb"[a-z]", lambda m: b"z" if m.group(0) != b"z" else b"y", content))[before]
    with open(path, "wb") as f:
        f.write(data)


def spoil(path, fault):
    """Makes a file impossible to write."""
    parent = os.path.dirname(path)
    if fault == "parent":
        os.makedirs(os.path.dirname(parent), exist_ok=True)
        with open(parent, "w") as f:
            f.write("This isn't a directory.\n")
        return
    os.makedirs(parent, exist_ok=True)
    if fault == "full":
        os.symlink("/dev/full", path)
    elif fault == "dangling":
        os.symlink(os.path.join(parent, "nothing", "here"), path)
    else:
        os.makedirs(path)


def check(ctx, files, gen, clean, slots, case, fake, seed):
    rng = random.Random(seed)
    d = prepare(ctx, files)
    out = os.path.join(d, "out")
    parents = []
    for f, x in zip(slots, case["fault"]):
        p = os.path.join(out, f)
        if x != "no" and not any(p.startswith(q + "/") for q in parents) and not os.path.lexists(p):
            if x == "parent":
                if os.path.lexists(os.path.dirname(p)):
                    continue
                parents.append(os.path.dirname(p))
            spoil(p, x)
    for f, x in zip(slots, case["before"]):
        p = os.path.join(out, f)
        if not any(p.startswith(q + "/") for q in parents):
            put(p, x, clean[f], clean, rng)
    status, err = generate(ctx, d, gen, fake.env(case["formatter"]))
    what = None
    if status != case["result"]:
        what = "the result of the %s generator should be %s, but it is %s" % (gen, case["result"], status)
    elif status == "fail" and not err.strip():
        what = "the %s generator fails without a message" % gen
    elif status == "ok":
        have = tree(out)
        wrong = [f for f in clean if have.get(f) != clean[f]]
        if wrong:
            what = "the %s generator is successful, but files aren't the right ones: %s" % (gen, wrong[:3])
    shutil.rmtree(d, True)
    if what:
        ctx.violation("output", what, dict(files=files, slots=slots, case=case, stderr=err[-1000:]))


def check_options(ctx, files, gen, case, style):
    """Without a mandatory option the command fails, with a message, and doesn't touch anything."""
    d = prepare(ctx, files)
    for i, f in enumerate(("out/mine.txt", "mine.txt")):
        os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
        with open(os.path.join(d, f), "w") as g:
            g.write("Mine.\n")
    paths = []
    for k, x in enumerate(case["paths"]):
        paths.append({"good": "model", "absent": "absent", "file": "file"}[x] + str(k))
        if x == "good":
            write_files(os.path.join(d, paths[-1]), files if k == 0 else {f.replace("zoo", "zoo%d" % k): t for f, t in files.items()})
        elif x == "file":
            with open(os.path.join(d, paths[-1]), "w") as g:
                g.write("class A {\n}\n")
    before = tree(d)
    status, err = generate(ctx, d, gen, env(), case["given"], style, paths)
    after = tree(d)
    what = None
    if status != case["result"]:
        what = "with options %s the result of '%s' should be %s, but it is %s" % (case["given"] + case["paths"], gen, case["result"], status)
    elif status == "fail" and not err.strip():
        what = "with options %s '%s' fails without a message" % (case["given"] + case["paths"], gen)
    elif status == "fail" and before != after:
        what = "with options %s '%s' changes files" % (case["given"] + case["paths"], gen)
    shutil.rmtree(d, True)
    if what:
        ctx.violation("options", what, dict(files=files, gen=gen, case=case, stderr=err[-1000:]))


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    base = dict(Slots="1", Before=tla_set(map(q, BEFORE)), Faults=tla_set(map(q, FAULTS)), MaxFaults="1", Formatters='{"none"}', Options="{}", Paths="{}")
    one = ctx.tlc("Output", base, INV)
    two = ctx.tlc("Output", dict(base, Slots="2", MaxFaults="2"), INV)
    three = ctx.tlc("Output", dict(base, Slots="3", MaxFaults="1", Formatters='{"good", "missing", "fails"}'), INV)
    plain = ctx.tlc("Output", dict(base, Slots="3", MaxFaults="2"), INV)
    opts = {g: ctx.tlc("Output", dict(base, Before='{"absent"}', Faults="{}", Options=tla_set(map(q, options(g))), Paths='{"good", "absent", "file"}'), INV) for g in GENERATORS + ["check"]}
    models = ctx.tlc("Api", constants(plan(rng, types=5, attrs=8, resources=3, methods=5, errors=1, versions=2)), ["Emission"], simulate=2 if not t else 6,
                     depth=400, seed=rng.randrange(1 << 30), heap="2g")
    fake = Fake(ctx)
    work = []
    small = [SMALL, {f: re.sub(r"error \w+ \{.*?\}\n\n", "", text, flags=re.S) for f, text in SMALL.items()}]
    # Also without errors, because then a file is almost empty:
    for n, m in enumerate(small + models):
        files = m if n < len(small) else Renderer(random.Random(n)).files(m["model"])
        for gen in GENERATORS:
            d = prepare(ctx, files)
            status, err = generate(ctx, d, gen, env())
            if status != "ok":
                ctx.violation("output", "the %s generator fails: %s" % (gen, err[-1000:]), files)
                continue
            clean = tree(d + "/out")
            shutil.rmtree(d, True)
            names = sorted(clean)
            # Each file with each fault:
            for c in one:
                chosen = names if n < len(small) and c["fault"] != ["no"] else rng.sample(names, min(len(names), 2))
                work += [(files, gen, clean, [f], c) for f in chosen]
            # Everything was there before:
            work += [(files, gen, clean, names, dict(before=[x] * len(names), fault=["no"] * len(names), formatter="none", result="ok")) for x in BEFORE[1:]]
            for cs, k in ((two, 2), (three if gen == "go" else plain, 3)):
                for c in rng.sample(cs, min(len(cs), 200 if t else 12)):
                    if len(names) >= k:
                        work.append((files, gen, clean, rng.sample(names, k), c))
    ctx.log("%d runs" % len(work))
    ctx.map(lambda x: check(ctx, *x[1], fake, "%d-%d" % (ctx.seed, x[0])), list(enumerate(work)))
    lines = [(files, g, c, style) for files in small[:1] for g in opts for c in opts[g] for style in (0, 1)]
    ctx.map(lambda x: check_options(ctx, *x), lines)
    ctx.traces += len(work) + len(lines)
    ctx.notes["command lines"] = len(lines)
    ctx.notes["successful"] = sum(x[4]["result"] == "ok" for x in work)
    ctx.notes["failed"] = len(work) - ctx.notes["successful"]
    ctx.samples += [dict(gen=x[1], slots=x[3][:3], case=x[4]) for x in work[:2]]
    return ctx.finish(bounds="all the combinations of faults and previous contents for up to three files; each file of a small model with each fault")


if __name__ == "__main__":
    main(run)
