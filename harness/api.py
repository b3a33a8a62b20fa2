"""H03, H04, H05 and H06: OpenAPI specifications and tree of paths."""
from modelgen import *
from gowork import *

INV = ["WalkFindsOperations", "OperationsAreDistinct", "WalkFindsUrls", "PrefixClosed", "SchemasAreClosed", "FieldsAreDistinct", "Emission"]


def models(ctx, groups):
    """Models generated by TLC. Each group is the number of models and the arguments of the plan."""
    cases = []
    rng = random.Random(ctx.seed)
    runs = []
    for n, reps, args in groups:
        for _ in range(reps):
            runs.append((n, plan(rng, **args), rng.randrange(1 << 30)))

    def one(r):
        return ctx.tlc("Api", constants(r[1]), INV, simulate=r[0], depth=len(r[1]) + 400, seed=r[2], heap="2g")

    for cs in ctx.map(one, runs, jobs=4):
        cases += cs
    return cases


def exhaustive(ctx):
    """All the models that can be made with a few steps."""
    cases = []
    for p, kw in [
        (["class", "resource", "resource", "locator"], dict(kinds=["Get", "Action", "Delete"])),
        (["class", "resource", "method", "method"], dict(kinds=["Get", "Action", "Delete", "Update"])),
        (["class", "enum", "attr"], {}),
    ]:
        cases += ctx.tlc("Api", constants(p, random=False, names=["cluster", "aws_region", "type"], services=[("zoo", "v1")], **kw), INV)
    return cases


# -- comparison with the OpenAPI specification -------------------------------------------------
class Repeated(Exception):
    pass


def strict(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Repeated("key '%s' is repeated" % k)
        d[k] = v
    return d


def abstract(s):
    """Schema as the specification describes it."""
    if not isinstance(s, dict):
        return dict(k="strange", value=s)
    s = {k: v for k, v in s.items() if k != "description"}
    if set(s) == {"$ref"} and s["$ref"].startswith("#/components/schemas/"):
        return dict(k="ref", to=s["$ref"].split("/")[-1])
    if set(s) == {"type", "items"} and s["type"] == "array":
        return dict(k="array", of=abstract(s["items"]))
    if set(s) == {"type", "additionalProperties"} and s["type"] == "object":
        return dict(k="map", of=abstract(s["additionalProperties"]))
    if set(s) == {"type", "properties"} and s["type"] == "object":
        return dict(k="object", props={n: abstract(x) for n, x in s["properties"].items()})
    if set(s) <= {"type", "format"} and "type" in s:
        return dict(k="scalar", type=s["type"], format=s.get("format", ""))
    return dict(k="strange", value=s)


def expected(s):
    if s["k"] == "object":
        return dict(k="object", props={p["n"]: expected(p["s"]) for p in s["props"]})
    if s["k"] in ("array", "map"):
        return dict(k=s["k"], of=expected(s["of"]))
    return s


def content(x):
    if x is None or "content" not in x:
        return dict(k="none")
    return abstract(x["content"]["application/json"]["schema"])


def compare_operations(spec, ops):
    want = {}
    for o in ops:
        want[o["verb"], o["path"]] = o
    have = {}
    for path, item in spec["paths"].items():
        for verb, op in item.items():
            have[verb.upper(), path] = op
    if set(want) != set(have):
        return "operations should be %s, but are %s; missing %s, unexpected %s" % (
            len(want), len(have), sorted(set(want) - set(have)), sorted(set(have) - set(want)))
    for key, o in want.items():
        op = have[key]
        params = op.get("parameters", [])
        ids = [p["name"] for p in params if p["in"] == "path"]
        if ids != o["ids"]:
            return "path parameters of %s should be %s, but are %s" % (key, o["ids"], ids)
        for p in params:
            if p["in"] == "path" and (p.get("required") is not True or abstract(p["schema"]) != dict(k="scalar", type="string", format="")):
                return "path parameter of %s is %s" % (key, p)
            if p["in"] not in ("path", "query"):
                return "parameter of %s is %s" % (key, p)
        names = [p["name"] for p in params if p["in"] == "query"]
        query = {p["name"]: abstract(p["schema"]) for p in params if p["in"] == "query"}
        wanted = {p["n"]: expected(p["s"]) for p in o["query"]}
        if query != wanted or len(names) != len(query):
            return "query parameters of %s should be %s, but are %s" % (key, wanted, query)
        if any(p.get("required") for p in params if p["in"] == "query"):
            return "query parameters of %s are required" % (key,)
        body = content(op.get("requestBody"))
        if body != expected(o["body"]):
            return "body of %s should be %s, but is %s" % (key, expected(o["body"]), body)
        responses = op["responses"]
        if set(responses) != {o["status"], "default"}:
            return "statuses of %s should be %s and default, but are %s" % (key, o["status"], sorted(responses))
        result = content(responses[o["status"]])
        if result != expected(o["result"]):
            return "result of %s should be %s, but is %s" % (key, expected(o["result"]), result)
        if content(responses["default"]) != dict(k="ref", to="Error"):
            return "default result of %s is %s" % (key, responses["default"])
    return None


STRING = dict(k="scalar", type="string", format="")


def compare_schemas(spec, schemas):
    have = spec["components"]["schemas"]
    want = {s["n"]: s for s in schemas}
    if set(have) != set(want) | {"Error", "Metadata"}:
        return "schemas should be %s, but are %s" % (sorted(set(want) | {"Error", "Metadata"}), sorted(have))
    for n, s in want.items():
        h = have[n]
        if s["kind"] == "enum":
            if h.get("type") != "string" or sorted(h.get("enum", [])) != sorted(s["values"]):
                return "schema of %s should have values %s, but is %s" % (n, s["values"], h)
            if set(h) - {"type", "enum", "description"}:
                return "schema of %s is %s" % (n, h)
            continue
        props = {k: abstract(x) for k, x in h.get("properties", {}).items()}
        wanted = {p["n"]: expected(p["s"]) for p in s["props"]}
        if s["kind"] == "class":
            wanted.update(kind=STRING, id=STRING, href=STRING)
        if props != wanted:
            return "properties of %s should be %s, but are %s" % (n, wanted, props)
        if set(h) - {"type", "properties", "description"} or h.get("type", "object") != "object":
            return "schema of %s is %s" % (n, h)
    # Everything that is referenced exists:
    missing = []

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("$ref"), str) and x["$ref"].split("/")[-1] not in have:
                missing.append(x["$ref"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(spec)
    return "references to %s can't be resolved" % missing if missing else None


def doc_for(rng):
    """Documentation for some elements, because descriptions shouldn't change anything else."""
    return lambda *path: rng.choice(TEXTS) if rng.random() < 0.3 else ""


def check_openapi(ctx, case, seed, which):
    rng = random.Random(seed)
    files = Renderer(rng, doc=doc_for(rng)).files(case.get("rendered", case["model"]))
    d = ctx.dir()
    write_files(d + "/model", files)
    status, out, err = ctx.run_cli("generate", "openapi", "--model=" + d + "/model", "--output=" + d + "/out")
    problem = None
    if status != "ok":
        problem = "the generator failed: %s" % err[-500:]
    else:
        written = sorted(os.path.relpath(os.path.join(b, f), d + "/out") for b, _, fs in os.walk(d + "/out") for f in fs)
        wanted = sorted("%s/%s/openapi.json" % (v["svc"], v["ver"]) for v in case["model"])
        if written != wanted:
            problem = "files should be %s, but are %s" % (wanted, written)
        else:
            for v, ops, schemas in zip(case["model"], case["ops"], case["schemas"]):
                try:
                    with open("%s/out/%s/%s/openapi.json" % (d, v["svc"], v["ver"])) as f:
                        spec = json.load(f, object_pairs_hook=strict)
                    problem = which != "H04" and compare_operations(spec, ops) or which != "H03" and compare_schemas(spec, schemas)
                except (ValueError, Repeated, KeyError, TypeError, AttributeError) as e:
                    problem = "the specification isn't valid: %s: %s" % (type(e).__name__, e)
                if problem:
                    break
    shutil.rmtree(d, True)
    if problem:
        ctx.violation("openapi", problem, dict(files=files, case=case))


def generated_files(ctx, w, pattern, main):
    """Compiles the files of the generated code with the given name, with a program, and returns what it prints."""
    d = ctx.dir()
    with open(d + "/go.mod", "w") as f:
        f.write("module x\n\ngo 1.18\n")
    found = []
    for b, _, fs in os.walk(w.generated):
        if pattern in fs:
            rel = os.path.relpath(b, w.generated)
            os.makedirs(os.path.join(d, rel), exist_ok=True)
            shutil.copy(os.path.join(b, pattern), os.path.join(d, rel))
            found.append(rel)
    write_files(d, main(d, found))
    r = subprocess.run(["go", "run", "."], cwd=d, env=env(), capture_output=True, text=True)
    shutil.rmtree(d, True)
    if r.returncode != 0:
        raise GeneratedCodeBroken(r.stderr[-3000:])
    return r.stdout


def check_tree(ctx, cases, seed):
    rng = random.Random(seed)
    w = GoWork(ctx)
    want = {("api",)}
    for i, c in enumerate(cases):
        w.write(Renderer(rng).files(c.get("rendered", c["model"]), rename=lambda s: "x%d_%s" % (i, s)))
        for u in c["urls"]:
            want.add(tuple([u[0], "x%d_%s" % (i, u[1])] + u[2:]))
            want.add((u[0], "x%d_%s" % (i, u[1])))
    try:
        w.generate()
        # The variable isn't public, so the name is taken from the code:
        names = set()
        for f in os.listdir(w.generated + "/metrics"):
            with open(os.path.join(w.generated, "metrics", f)) as g:
                names |= set(re.findall(r"^\s*(?:var|const)?\s*(\w+)\s*(?:string)?\s*=\s*`", g.read(), re.M))
        if len(names) != 1:
            raise GeneratedCodeBroken("can't find the tree of paths, candidates are %s" % sorted(names))
        out = generated_files(ctx, w, "path_tree_data.go", lambda d, found: {
            "metrics/export.go": "package metrics\n\nfunc Tree() string { return %s }\n" % names.pop(),
            "main.go": "package main\n\nimport (\n\"fmt\"\n\"x/metrics\"\n)\n\nfunc main() { fmt.Print(metrics.Tree()) }\n"})
    except GeneratedCodeBroken as e:
        ctx.violation("tree", str(e), dict(cases=cases))
        return
    have = set()

    def walk(prefix, t):
        if prefix:
            have.add(prefix)
        for k, x in (t or {}).items():
            walk(prefix + (k,), x)
    try:
        walk((), json.loads(out, object_pairs_hook=strict))
    except (ValueError, Repeated, AttributeError) as e:
        ctx.violation("tree", "the tree isn't valid: %s" % e, dict(text=out))
        return
    if have != want:
        missing, extra = sorted(want - have), sorted(have - want)
        which = (missing + extra)[0]
        i = int(re.match(r"x(\d+)_", which[1]).group(1)) if len(which) > 1 and which[1].startswith("x") else 0
        ctx.violation("tree", "missing paths %s, unexpected paths %s" % (missing[:5], extra[:5]), dict(files=Renderer(random.Random(seed)).files(cases[i]["model"])))


def check_embedded(ctx, cases, seed):
    rng = random.Random(seed)
    w = GoWork(ctx)
    for i, c in enumerate(cases):
        w.write(Renderer(rng, doc=doc_for(rng)).files(c["model"], rename=lambda s: "x%d_%s" % (i, s)))
    if not cases:
        shutil.copytree(os.path.join(REPO, "tests", "model"), w.model)
        # Specifications of all the sizes modulo the sizes of the chunks in which they may be embedded:
        for i in range(256 if ctx.thorough else 80):
            w.write({"sizes/v%d/a.model" % (i + 1): "// %s.\nclass Cluster {\n}\n\nresource Root {\n}\n" % ("x" * (i + 1))})
    d = ctx.dir()

    def main(base, found):
        imports = "".join("p%d \"x/%s\"\n" % (k, f) for k, f in enumerate(found))
        body = "".join("os.WriteFile(%s, p%d.OpenAPI, 0644)\n" % (json.dumps(os.path.join(d, f.replace("/", "_"))), k) for k, f in enumerate(found))
        return {"main.go": "package main\n\nimport (\n\"os\"\n%s)\n\nfunc main() {\n%s}\n" % (imports, body)}
    try:
        w.generate()
        generated_files(ctx, w, "openapi.go", main)
    except GeneratedCodeBroken as e:
        ctx.violation("embedded", str(e), dict(cases=cases))
        return
    status, out, err = ctx.run_cli("generate", "openapi", "--model=" + w.model, "--output=" + w.dir + "/openapi")
    if status != "ok":
        ctx.violation("embedded", "the OpenAPI generator failed: " + err[-500:], dict(cases=cases))
        return
    n = 0
    for svc in sorted(os.listdir(w.model)):
        for ver in sorted(os.listdir(os.path.join(w.model, svc))):
            with open("%s/openapi/%s/%s/openapi.json" % (w.dir, svc, ver), "rb") as f:
                standalone = f.read()
            try:
                with open(os.path.join(d, "%s_%s" % (svc.replace("_", ""), ver.replace("_", ""))), "rb") as f:
                    embedded = f.read()
            except FileNotFoundError:
                embedded = None
            n += 1
            if embedded != standalone:
                ctx.violation("embedded", "the specification of %s/%s embedded in the Go code is different" % (svc, ver),
                              dict(files={f: open(os.path.join(w.model, svc, ver, f)).read() for f in os.listdir(os.path.join(w.model, svc, ver))}))
    ctx.notes["documents"] = ctx.notes.get("documents", 0) + n
    shutil.rmtree(w.dir, True)


LINKED = {
    "shop/v1/a.model": "resource Root {\n}\n\nclass Cluster {\n  link Pool Pool\n}\n\nclass Pool {\n  Size Integer\n}\n",
    "zoo/v1/a.model": "resource Root {\n}\n\n@ref(path = \"/shop/v1/cluster\")\nclass Cluster {\n}\n",
}


def check_known(ctx):
    """Models with links to types of the referenced version, which aren't part of the specification."""
    d = ctx.dir()
    write_files(d + "/model", LINKED)
    status, out, err = ctx.run_cli("generate", "openapi", "--model=" + d + "/model", "--output=" + d + "/out")
    if status != "ok":
        ctx.violation("openapi", "the generator failed: %s" % err[-500:], LINKED)
        return
    with open(d + "/out/zoo/v1/openapi.json") as f:
        schemas = json.load(f)["components"]["schemas"]
    if set(schemas) - {"Pool"} != {"Cluster", "Error", "Metadata"}:
        ctx.violation("openapi", "schemas are %s" % sorted(schemas), LINKED)
    elif "Pool" not in schemas:
        ctx.violation("zoo/v1:Pool", "the reference to 'Pool' can't be resolved", LINKED)
    # Types that have the names of the fixed schemas:
    for name in ("Error", "Metadata"):
        files = {"shop/v1/a.model": "resource Root {\n}\n\nclass %s {\n  Size Integer\n}\n" % name}
        d = ctx.dir()
        write_files(d + "/model", files)
        status, out, err = ctx.run_cli("generate", "openapi", "--model=" + d + "/model", "--output=" + d + "/out")
        if status != "ok":
            ctx.violation("openapi", "the generator failed: %s" % err[-500:], files)
            continue
        with open(d + "/out/shop/v1/openapi.json") as f:
            text = f.read()
        if len(re.findall(r'"%s": *\{' % name, text)) != 1:
            ctx.violation("schema-" + name, "there are two schemas called '%s'" % name, files)


def run(ctx):
    ctx.build_cli()
    if ctx.prop == "H04":
        check_known(ctx)
    t = ctx.thorough
    big = dict(types=7, attrs=16, resources=6, methods=10, annotations=8, errors=1, versions=2)
    mid = dict(types=4, attrs=8, resources=5, methods=7, annotations=4)
    tree = dict(types=2, attrs=1, resources=9, methods=6, annotations=4)
    k = 8 if t else 1
    if ctx.prop in ("H03", "H04"):
        cases = models(ctx, [(25, 4 * k, big), (40, 4 * k, mid), (30, 2 * k, tree)])
        ex = exhaustive(ctx)
        ctx.rng.shuffle(ex)
        cases += ex if t else ex[:800]
        ctx.map(lambda x: check_openapi(ctx, x[1], ctx.seed * 7919 + x[0], ctx.prop), list(enumerate(cases)))
    elif ctx.prop == "H05":
        cases = models(ctx, [(25, 4 * k, tree), (15, 2 * k, mid), (5, 1 * k, big)])
        ex = exhaustive(ctx)
        ctx.rng.shuffle(ex)
        cases += ex if t else ex[:40]
        batches = [cases[i::8 * k] for i in range(8 * k)]
        ctx.map(lambda x: check_tree(ctx, x[1], ctx.seed * 7919 + x[0]), list(enumerate(batches)))
    else:
        cases = models(ctx, [(6, 2 * k, big), (15, 2 * k, mid)])
        batches = [[]] + [cases[i::6 * k] for i in range(6 * k)]
        ctx.map(lambda x: check_embedded(ctx, x[1], ctx.seed * 7919 + x[0]), list(enumerate(batches)))
    ctx.traces += len(cases)
    ctx.notes["operations"] = sum(len(o) for c in cases for o in c["ops"])
    ctx.notes["types"] = sum(len(o) for c in cases for o in c["schemas"])
    ctx.notes["paths"] = sum(len(c["urls"]) for c in cases)
    ctx.samples += cases[-1:]
    return ctx.finish(bounds="models with up to 2 versions, 7 types, 7 resources and 10 methods per version, simulated; all the models of a few steps")


if __name__ == "__main__":
    main(run)
