"""M06: identifiers are split into words the same way everywhere."""
from gowork import *

INV = ["Agrees", "NothingLost", "NoEmptyWords", "CanonicalWhen", "Emission"]


def private(c):
    """Names of private things aren't observable, but two equal ones can't be in the same type."""
    return c["words"][0] + c["camel"][len(c["words"][0]):]


def model(cases, rng):
    """One version where all the identifiers are used in all the possible roles, documented with
    their position. The names in one group are different in all their forms."""
    out = []
    actions, locators, params, resources = [], [], [], []
    for i, c in enumerate(cases):
        out.append("// t%d\nstruct %s {\n}\n" % (i, c["id"]))
    attrs = "".join("  // a%d\n  %s String\n" % (i, c["id"]) for i, c in enumerate(cases))
    out.append("// holder\nclass ZZHolder {\n%s}\n" % attrs)
    out.append("// values\nenum ZZValues {\n%s}\n" % "".join("  %s\n" % c["id"] for c in cases))
    params = "".join("    // p%d\n    in %s String\n" % (i, c["id"]) for i, c in enumerate(cases))
    body = "".join("    // b%d\n    in %s String\n" % (i, c["id"]) for i, c in enumerate(cases))
    out.append("resource ZZTarget {\n  method Get {\n%s    out Body ZZHolder\n  }\n  method ZZPush {\n%s  }\n}\n" % (params, body))
    actions = "".join("  // m%d\n  method %s {\n  }\n" % (i, c["id"]) for i, c in enumerate(cases))
    out.append("resource ZZActions {\n%s}\n" % actions)
    locs = "".join("  locator %s {\n    target ZZThing%d\n%s  }\n" % (c["id"], i, "    variable ID\n" if i % 2 else "") for i, c in enumerate(cases))
    out.append("resource ZZLocators {\n%s}\n" % locs)
    for i, c in enumerate(cases):
        out.append("resource ZZThing%d {\n  // l%d\n  method ZZDo {\n  }\n}\n" % (i, i))
    rng.shuffle(out)
    root = "resource Root {\n" + "".join("  locator ZZ%s {\n    target ZZ%s\n  }\n" % (x, x) for x in ("Target", "Actions", "Locators")) + "}\n"
    return {"svc/v1/m.model": root + "\n".join(out)}


def compare(ctx, what, got, want, cases):
    """Compares maps from the tag to the name."""
    if got == want:
        return
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            i = re.sub(r"\D", "", k)
            c = cases[int(i)] if i else {}
            ctx.violation("name", "%s of '%s' is %r instead of %r" % (what, c.get("id"), got.get(k), want.get(k)), c)
            return


def check_openapi(ctx, cases):
    d = ctx.dir()
    write_files(d + "/model", model(cases, ctx.rng))
    status, out, err = ctx.run_cli("generate", "openapi", "--model=%s/model" % d, "--output=%s/out" % d)
    if status != "ok":
        ctx.violation("name", "the model with identifiers that are all different is rejected (%s): %s" % (status, err[-500:]),
                      [c["id"] for c in cases])
        return
    with open(d + "/out/svc/v1/openapi.json") as f:
        doc = json.load(f)
    shutil.rmtree(d, True)
    schemas = doc["components"]["schemas"]
    tags = lambda p: {"%s%d" % (p, i) for i in range(len(cases))}
    want = lambda p, f: {"%s%d" % (p, i): c[f] for i, c in enumerate(cases)}
    by = lambda m, t: {v.get("description"): k for k, v in m.items() if v.get("description") in t}
    compare(ctx, "the schema name", by(schemas, tags("t")), want("t", "camel"), cases)
    compare(ctx, "the JSON name", by(schemas.get("ZZHolder", {}).get("properties", {}), tags("a")), want("a", "snake"), cases)
    values = schemas.get("ZZValues", {}).get("enum", [])
    if sorted(values) != sorted(c["snake"] for c in cases):
        extra = set(values) ^ set(c["snake"] for c in cases)
        ctx.violation("name", "the enum values are wrong: %s" % sorted(extra)[:10])
    prefix = "/api/svc/v1/"
    ops = {}
    for path, item in doc["paths"].items():
        for verb, op in item.items():
            ops[(path, verb)] = op
    get = ops.get((prefix + "zz_target", "get"), {})
    compare(ctx, "the query parameter", {p.get("description"): p["name"] for p in get.get("parameters", [])}, want("p", "snake"), cases)
    push = ops.get((prefix + "zz_target/zz_push", "post"), {})
    try:
        schema = push["requestBody"]["content"]["application/json"]["schema"]["properties"]
    except KeyError:
        schema = {}
    compare(ctx, "the body parameter", by(schema, tags("b")), want("b", "snake"), cases)
    acts = {op.get("description"): path for (path, verb), op in ops.items() if path.startswith(prefix + "zz_actions/")}
    compare(ctx, "the path of the action", acts, {"m%d" % i: prefix + "zz_actions/" + c["snake"] for i, c in enumerate(cases)}, cases)
    locs = {op.get("description"): path for (path, verb), op in ops.items() if path.startswith(prefix + "zz_locators/")}
    compare(ctx, "the path of the locator", locs, {
        "l%d" % i: prefix + "zz_locators/" + ("{%s_id}" if i % 2 else "%s") % c["snake"] + "/zz_do" for i, c in enumerate(cases)}, cases)
    ctx.traces += len(cases)


def check_go(ctx, groups):
    """The names in the Go code, and in the JSON documents it writes."""
    w = GoWork(ctx)
    out = ["resource Root {\n  locator ZZTarget {\n    target ZZTarget\n  }\n}\n"]
    target = ""
    for n, g in enumerate(groups):
        kind = "class" if n % 2 else "struct"
        out.append("%s ZZHolder%d {\n%s}\n" % (kind, n, "".join("  %s String\n" % c["id"] for c in g)))
        out.append("enum ZZValues%d {\n%s}\n" % (n, "".join("  %s\n" % c["id"] for c in g)))
        target += "  method ZZPush%d {\n%s  }\n" % (n, "".join("    in out %s String\n" % c["id"] for c in g))
        target += "  locator ZZLoc%d {\n    target ZZLocs%d\n  }\n" % (n, n)
        out.append("resource ZZLocs%d {\n%s}\n" % (n, "".join("  locator %s {\n    target ZZLeaf\n  }\n" % c["id"] for c in g)))
        out.append("resource ZZQuery%d {\n  method Delete {\n%s  }\n}\n" % (n, "".join("    in %s String\n" % c["id"] for c in g)))
        target += "  locator ZZQuery%d {\n    target ZZQuery%d\n  }\n" % (n, n)
    out.append("resource ZZTarget {\n%s}\n" % target)
    out.append("resource ZZLeaf {\n  method ZZDo {\n  }\n}\n")
    w.write({"svc/v1/m.model": "\n".join(out)})
    w.generate()
    w.build_driver()
    P = "svc/v1."
    scripts, wants = [], []
    ans = dict(do="transport", responses=[dict(status=200)], **{"as": ["t"]})
    base = [ans, call("svc.NewClient", ref("t"), lit("/api/svc"), a="c0"), method("c0", "V1", a="c1"), method("c1", "ZZTarget", a="c")]
    for n, g in enumerate(groups):
        ops = [call(P + "NewZZHolder%d" % n, a="b")]
        ops += [method("b", c["camel"], lit("v:" + c["id"])) for c in g]
        ops += [method("b", "Build", a=["o"])]
        ops += [method("o", "Get" + c["camel"]) for c in g] + [method("o", c["camel"]) for c in g]
        ops += [call(P + "MarshalZZHolder%d" % n, ref("o"), dict(buf="w")), dict(do="text", on="w")]
        scripts.append(ops)
        scripts.append([dict(do="const", fn=P + "ZZValues%d%s" % (n, c["camel"])) for c in g])
        scripts.append(base + [method("c", "ZZPush%d" % n, a="r")] + [method("r", c["camel"], lit("v:" + c["id"])) for c in g]
                       + [method("r", "Send"), dict(do="requests", on="t")])
        scripts.append(base + [method("c", "ZZQuery%d" % n, a="q"), method("q", "Delete", a="r")]
                       + [method("r", c["camel"], lit("v:" + c["id"])) for c in g]
                       + [method("r", "Send"), dict(do="requests", on="t")])
        ops = base + [method("c", "ZZLoc%d" % n, a="l")]
        for c in g:
            ops += [method("l", c["camel"], a="x"), method("x", "ZZDo", a="r"), method("r", "Send")]
        scripts.append(ops + [dict(do="requests", on="t")])
    results = w.run(scripts)

    def missing(res, g, what):
        for r in res:
            if isinstance(r, dict) and ("missing" in r or "panic" in r or "crash" in r):
                ctx.violation("name", "%s: %s" % (what, r), [c["id"] for c in g])
                return True
        return False

    for n, g in enumerate(groups):
        res = results[5 * n:5 * n + 5]
        want = {c["snake"]: "v:" + c["id"] for c in g}
        if not missing(res[0], g, "accessors"):
            k = len(g)
            for i, c in enumerate(g):
                if res[0][2 + k + i] != ["v:" + c["id"], True] or res[0][2 + 2 * k + i] != ["v:" + c["id"]]:
                    ctx.violation("name", "getters of '%s' return %r and %r" % (c["id"], res[0][2 + k + i], res[0][2 + 2 * k + i]))
            doc = json.loads(res[0][-1])
            doc.pop("kind", None)
            if doc != want:
                ctx.violation("name", "JSON document has %r instead of %r" % (sorted(set(doc) ^ set(want)), ""), [c["id"] for c in g])
        if not missing(res[1], g, "enum constants"):
            if res[1] != [c["snake"] for c in g]:
                ctx.violation("name", "enum constants are %r" % [x for x, c in zip(res[1], g) if x != c["snake"]])
        if not missing(res[2], g, "action parameters"):
            doc = json.loads(res[2][-1][0]["body"])
            if doc != want:
                ctx.violation("name", "body of action has %r" % sorted(set(doc) ^ set(want)))
        if not missing(res[3], g, "query parameters"):
            q = {k: v[0] for k, v in res[3][-1][0]["query"].items()}
            if q != want:
                ctx.violation("name", "query has %r" % sorted(set(q) ^ set(want)))
        if not missing(res[4], g, "locators"):
            paths = [r["path"] for r in res[4][-1]]
            wp = ["/api/svc/v1/zz_target/zz_loc%d/%s/zz_do" % (n, c["snake"]) for c in g]
            if [p.replace("zz_loc_%d" % n, "zz_loc%d" % n) for p in paths] != wp:
                ctx.violation("name", "paths of locators are %r" % [p for p, x in zip(paths, wp) if p != x][:5])
        ctx.traces += len(g)


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    cases = ctx.tlc("Names", dict(Alphabet='{"a", "s", "B", "C", "1"}', MaxLen=6 if t else 5), INV)
    cases += ctx.tlc("Names", dict(Alphabet='{"a", "s", "B"}', MaxLen=9 if t else 8), INV)
    # Long identifiers with the whole alphabet:
    alphabet = '{"a", "e", "g", "i", "k", "n", "s", "t", "z", "A", "B", "I", "L", "S", "U", "Z", "0", "2", "9"}'
    cases += ctx.tlc("Names", dict(Alphabet=alphabet, MaxLen=14), INV, simulate=1500 if t else 150, depth=14)
    unique = {c["id"]: c for c in cases}
    cases = list(unique.values())
    ctx.rng.shuffle(cases)
    ctx.notes["identifiers"] = len(cases)
    keywords = "enum class struct resource attribute method locator target variable parameter in out code error link".split()
    cases = [c for c in cases if c["id"] not in keywords]

    def distribute(cases, size):
        groups = []
        for c in cases:
            keys = {"c:" + c["camel"].lower(), "s:" + c["snake"], "p:" + private(c)}
            for g in groups:
                if len(g[1]) < size and not (keys & g[0]):
                    g[0].update(keys)
                    g[1].append(c)
                    break
            else:
                groups.append((keys, [c]))
        return [g[1] for g in groups]

    groups = distribute(cases, 400)
    ctx.log("%d identifiers in %d groups" % (len(cases), len(groups)))
    ctx.map(lambda g: check_openapi(ctx, g), groups)
    short = [c for c in cases if len(c["id"]) <= 3]
    rest = [c for c in cases if len(c["id"]) > 3]
    short += ctx.rng.sample(rest, 1500 if t else 250)
    groups = [g for g in distribute(short, 55) if len(g) > (3 if t else 8)]
    try:
        check_go(ctx, groups)
    except GeneratedCodeBroken as e:
        ctx.violation("name", str(e))
    for c in cases[:3]:
        ctx.samples.append(c)
    return ctx.finish(bounds="all the identifiers of up to 5 (thorough 6) characters over {a,s,B,C,1}, up to 8 (9) over {a,s,B}, and simulated ones of up to 14 characters")


if __name__ == "__main__":
    main(run)
