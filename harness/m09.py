"""M09: references import the referenced type into the version."""
from gowork import *

INV = ["Confluent", "SameAttrs", "Closed", "Emission"]
STRUCTS = {"Size"}
ENUMS = {"State"}


def snake(n):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", n).lower()


def kind(n):
    return "struct" if n in STRUCTS else "enum" if n in ENUMS else "class"


def attr(a):
    return "%s%s" % (a["k"].capitalize().replace("Linklist", "LinkList"), a["t"])


def mark(n, v):
    return "Mark%sOf%s" % (n, {"b/v1": "Bee", "a/v1": "Ant", "b/v2": "Bug"}[v])


MISSING = ["nowhere", "..", ".", "v9", "missing_type"]


def bad_path(bad, version, rng):
    """The path of a wrong reference."""
    service, name = version.split("/")
    parts = dict(service=service, version=name, type=snake(bad["n"]), missing=rng.choice(MISSING))
    return "/".join(parts.get(x, x) for x in bad["path"])


def render(case, rng, rename=lambda v: v):
    """Renders the model of a case. The declarations go in any order, except that names are used in
    the declarations of the version, so there are no restrictions."""
    files = {}
    versions = [d["version"] for d in case["decls"]]
    for d in case["decls"]:
        v = d["version"]
        texts = ["resource Root {\n}\n"]
        for t in d["types"]:
            if t["k"] == "ref":
                path = "%s%s/%s" % (rng.choice(["/", ""]), rename(t["to"]), snake(t["n"]))
                texts.append("@ref(path = \"%s\")\nclass %s {\n}\n" % (path, t["n"]))
                continue
            if kind(t["n"]) == "enum":
                members = ["  %s\n" % mark(t["n"], v)]
            else:
                members = ["  %s Integer\n" % mark(t["n"], v)]
                for a in t["attrs"]:
                    link = "link " if a["k"].startswith("link") else ""
                    form = {"list": "[]", "linklist": "[]", "map": "[String]"}.get(a["k"], "")
                    members.append("  %s%s %s%s\n" % (link, attr(a), form, a["t"]))
            rng.shuffle(members)
            texts.append("%s %s {\n%s}\n" % (kind(t["n"]), t["n"], "".join(members)))
        if case["bad"]["k"] != "no" and case["bad"]["v"] == versions.index(v) + 1:
            texts.append("@ref(path = \"%s\")\nclass %s {\n}\n" % (bad_path(case["bad"], rename(versions[case["bad"]["w"] - 1]), rng), case["bad"]["n"]))
        rng.shuffle(texts)
        if rng.random() < 0.5:
            cut = rng.randrange(len(texts) + 1)
            files[rename(v) + "/a.model"] = "\n".join(texts[:cut])
            files[rename(v) + "/b.model"] = "\n".join(texts[cut:])
        else:
            files[rename(v) + "/m.model"] = "\n".join(texts)
    return files


def original(case):
    """Where each type of each version is really defined."""
    src = {(d["version"], t["n"]): t["src"] for d, ts in zip(case["decls"], case["types"]) for t in ts}

    def find(v, n):
        return find(src[v, n], n) if src[v, n] else v
    return find


def refs_of(schema):
    if isinstance(schema, dict):
        if "$ref" in schema:
            return schema["$ref"].split("/")[-1]
        for k in ("items", "additionalProperties"):
            if k in schema:
                return k + ":" + str(refs_of(schema[k]))
    return None


def check_openapi(ctx, case, n, seed):
    rng = random.Random(seed)
    d = ctx.dir()
    files = render(case, rng)
    inputs = [dict(files)]
    if rng.random() < 0.2:
        # The files are distributed between several inputs, and some of them may be empty:
        inputs = [{} for _ in range(rng.choice([2, 2, 3]))]
        for k, v in files.items():
            rng.choice(inputs)[k] = v
    args = []
    for i, x in enumerate(inputs):
        os.makedirs("%s/model%d" % (d, i))
        write_files("%s/model%d" % (d, i), x)
        args.append("--model=%s/model%d" % (d, i))
    status, out, err = ctx.run_cli("generate", "openapi", *args, "--output=" + d + "/out")
    problem = None
    if not case["ok" if len(inputs) == 1 else "several"]:
        if status != "fail" or not err.strip():
            problem = "the model should be rejected, but the result is %s" % status
    elif status != "ok":
        problem = "the model should be accepted, but the result is %s" % status
    else:
        find = original(case)
        for dv, ts in zip(case["decls"], case["types"]):
            v = dv["version"]
            with open("%s/out/%s/openapi.json" % (d, v)) as f:
                schemas = json.load(f)["components"]["schemas"]
            want = {t["n"] for t in ts}
            have = set(schemas) - {"Error", "Metadata"}
            if want != have:
                problem = "types of %s should be %s, but are %s" % (v, sorted(want), sorted(have))
                break
            for t in ts:
                m = mark(t["n"], find(v, t["n"]))
                if kind(t["n"]) == "enum":
                    if schemas[t["n"]]["enum"] != [snake(m)]:
                        problem = "values of %s %s are %s" % (v, t["n"], schemas[t["n"]]["enum"])
                    continue
                props = {k: refs_of(x) for k, x in schemas[t["n"]].get("properties", {}).items() if k not in ("kind", "id", "href")}
                expect = {snake(m): None}
                for a in t["attrs"]:
                    pre = {"list": "items:", "linklist": "items:", "map": "additionalProperties:"}.get(a["k"], "")
                    expect[snake(attr(a))] = pre + a["t"]
                if props != expect:
                    problem = "attributes of %s %s should be %s, but are %s" % (v, t["n"], expect, props)
    shutil.rmtree(d, True)
    if problem:
        ctx.violation("openapi", problem, dict(inputs=inputs, case=case, stderr=err[-2000:]))


def check_go(ctx, cases, seed):
    """Links belong to the right version, and everything else to the version itself."""
    rng = random.Random(seed)
    w = GoWork(ctx)
    for i, c in enumerate(cases):
        w.write(render(c, rng, lambda v: "s%d%s" % (i, v)))
    try:
        w.generate()
        w.build_driver()
    except GeneratedCodeBroken as e:
        if len(cases) > 1:
            half = len(cases) // 2
            check_go(ctx, cases[:half], seed)
            if not ctx.violations:
                check_go(ctx, cases[half:], seed)
        if not ctx.violations:
            ctx.violation("go", str(e), dict(cases=cases))
        return
    scripts, wants = [], []
    for i, c in enumerate(cases):
        pkg = lambda v: "s%d%s" % (i, v)
        for dv, ts in zip(c["decls"], c["types"]):
            v = dv["version"]
            for t in ts:
                if kind(t["n"]) == "enum":
                    continue
                ops = [call("%s.New%s" % (pkg(v), t["n"]), a="b"), method("b", "Build", a=["o", "e"])]
                want = []
                for a in t["attrs"]:
                    full = "%s/%s.%s" % (BASE, pkg(a["v"]), a["t"])
                    if a["k"] == "linklist":
                        full = "*%s/%s.%sList" % (BASE, pkg(a["v"]), a["t"])
                    elif a["t"] not in ENUMS:
                        full = "*" + full
                    if a["k"] in ("list", "map"):
                        full = {"list": "[]", "map": "map[string]"}[a["k"]] + full
                    ops.append(dict(do="signature", on="o", name=attr(a)))
                    want.append([full])
                scripts.append(ops)
                wants.append((i, v, t, want))
    for (i, v, t, want), got in zip(wants, w.run(scripts)):
        ctx.traces += 1
        if got[2:] != want:
            ctx.violation("go", "attributes of %s %s should be %s, but are %s" % (v, t["n"], want, got[2:]),
                          dict(case=cases[i], files=render(cases[i], random.Random(seed))))


def strs(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def sequence(xs):
    return "<<%s>>" % ", ".join('"%s"' % x for x in xs)


def generator(ctx):
    def gen(versions, classes, structs, enums, ks, plan, sim=None, circular=False):
        c = dict(Versions=sequence(versions), Classes=strs(classes), Structs=strs(structs), Enums=strs(enums), EdgeKinds=strs(ks),
                 Plan=sequence(plan), AllowCircular="TRUE" if circular else "FALSE")
        r = ctx.tlc("Refs", c, INV, simulate=sim, depth=len(plan) + 20)
        seen = {json.dumps(x, sort_keys=True): x for x in r}
        return list(seen.values())
    return gen


def run(ctx):
    gen = generator(ctx)
    ctx.build_cli()
    t = ctx.thorough
    kinds = ["plain", "list", "map", "link", "linklist"]
    cases = []

    two, three = ["b/v1", "a/v1"], ["b/v1", "a/v1", "b/v2"]
    # Exhaustive: two classes with two attributes, referenced or not from another version:
    small = gen(two, ["Cat", "Dog"], [], [], ["plain", "link", "linklist"], ["decl", "decl", "attr", "attr", "ref", "ref"])
    ctx.rng.shuffle(small)
    cases += small[:4000 if t else 300]
    ex = gen(two, ["Cat", "Dog"], [], [], ["plain"], ["decl", "ref", "ref"], circular=True)
    cases += ctx.rng.sample(ex, min(len(ex), 3000 if t else 250))
    # All the wrong references:
    wrong = gen(two, ["Cat"], [], [], ["plain"], ["decl", "bad"])
    cases += wrong
    ctx.notes["wrong_references"] = len(wrong)
    big = ["decl"] * 3 + ["attr"] * 3 + ["ref", "attr", "ref", "decl", "attr", "attr", "ref"]
    n = 2000 if t else 150
    rich = gen(two, ["Cat", "Dog", "Owner"], sorted(STRUCTS), sorted(ENUMS), kinds, big, sim=n)
    rich += gen(three, ["Cat", "Dog", "Owner"], sorted(STRUCTS), sorted(ENUMS), kinds, big + ["ref", "ref", "attr"], sim=n)
    linked = ["decl"] * 3 + ["attr"] * 4 + ["ref", "attr", "decl", "ref", "attr", "ref"]
    for vs in (two, three):
        rich += gen(vs, ["Cat", "Dog", "Owner"], [], [], ["link", "linklist", "plain"], linked, sim=n)
    cases += rich
    cases += gen(three, ["Cat", "Dog"], [], [], kinds, ["decl", "decl", "attr", "ref", "ref", "ref"], sim=n, circular=True)
    cases += gen(three, ["Cat", "Dog"], [], [], kinds, ["decl", "decl", "attr", "ref", "bad"], sim=n // 2)
    ctx.map(lambda x: check_openapi(ctx, x[1], x[0], ctx.seed * 1000003 + x[0]), list(enumerate(cases)))
    ctx.traces += len(cases)
    ctx.notes["accepted"] = sum(c["ok"] for c in cases)
    ctx.notes["rejected"] = len(cases) - ctx.notes["accepted"]
    links = [c for c in rich if any(a["v"] != d["version"] for d, ts in zip(c["decls"], c["types"]) for x in ts for a in x["attrs"])]
    others = [c for c in rich + small if c["ok"] and any(a["k"].startswith("link") for ts in c["types"] for x in ts for a in x["attrs"])]
    ctx.rng.shuffle(links)
    ctx.rng.shuffle(others)
    batch = (links[:20] + others[:20]) if not t else links[:150] + others[:150]
    ctx.notes["go_cases"] = len(batch)
    ctx.log("%d cases with links to other versions, %d with links" % (len(links), len(others)))
    for i in range(0, len(batch), 40):
        check_go(ctx, batch[i:i + 40], ctx.seed)
    ctx.samples += cases[:1] + rich[:2]
    return ctx.finish(bounds="exhaustive: 2 versions, 2 classes, 2 attributes, 2 references; simulated: 3 versions, 5 types, up to 16 steps")


if __name__ == "__main__":
    main(run)
