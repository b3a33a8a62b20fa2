"""M07: naming annotations."""
import copy
import api
import client
from client import *

AINV = ["EachKindHasItsPlaces", "NothingIsLost", "Emission"]
MIX = ["new"] + ["set"] * 6 + ["nest"] * 3 + ["ident"] * 2 + ["build"] * 3 + ["newlist", "items", "get"] + ["marshal", "roundtrip", "roundtrip"] + \
      ["nav"] * 4 + ["request"] * 4 + ["input"] * 8 + ["want"] * 4 + ["prepare"] * 4 + ["send"] * 6


def word(l):
    return [dict(l=l, c=l.capitalize())]


def attr(n, t, i=0, form="plain", link=False):
    return dict(n=word(n), form=form, t=dict(b=t, i=i), link=link, json="", go="")


def param(n, d, t, i=0, form="plain", dflt=""):
    return dict(n=word(n), dir=d, form=form, t=dict(b=t, i=i), dflt=dflt, json="", http="", go="")


def meth(kind, n, *params):
    return dict(kind=kind, n=word(n), http="", go="", params=list(params))


BASE = [dict(svc="zoo", ver="v1", errors=[dict(n=word("broken"), code=7)], types=[
    dict(kind="enum", n=word("color"), go="", attrs=[], values=[dict(n=word("red"), json="", go=""), dict(n=word("blue"), json="", go="")]),
    dict(kind="class", n=word("cluster"), go="", values=[], attrs=[
        attr("name", "String"), attr("color", "", 1), attr("label", "String", form="map"), attr("region", "", 3, form="list"), attr("group", "", 2, link=True)]),
    dict(kind="struct", n=word("region"), go="", values=[], attrs=[attr("day", "Date"), attr("color", "", 1, form="list")]),
], resources=[
    dict(n=word("root"), go="", methods=[], locators=[dict(n=word("cluster"), target=2, var=False, http="", go="")]),
    dict(n=word("cluster"), go="", methods=[
        meth("List", "list", param("page", "in out", "Integer", dflt="1"), param("size", "in out", "Integer", dflt="100"), param("total", "out", "Integer"),
             param("filter", "in", "String"), param("items", "out", "", 2, form="list")),
        meth("Add", "add", param("body", "in out", "", 2))],
        locators=[dict(n=word("pool"), target=3, var=True, http="", go="")]),
    dict(n=word("pool"), go="", methods=[
        meth("Get", "get", param("user", "in", "", 1), param("body", "out", "", 3)),
        meth("Action", "start", param("count", "in", "Integer"), param("value", "in out", "", 3), param("result", "out", "", 1))], locators=[]),
])]


def rendered(c):
    """The model with the annotations that aren't part of it because nobody uses them."""
    m = copy.deepcopy(c["model"])
    v = m[-1]
    for d in c["done"]:
        if not d["real"]:
            s = d["s"]
            x = {"type": v["types"], "value": v["types"], "attr": v["types"], "error": v["errors"]}.get(s["k"], v["resources"])[s["i"] - 1]
            if s["k"] in ("value", "attr", "locator", "method"):
                x = x[s["k"] + "s"][s["j"] - 1]
            x[s["a"]] = d["n"]
    return m


class Everything(Client):
    """Requests, results and documents."""

    def translate(self, h):
        super().translate(h)
        for resp, want in self.later:
            self.add(dict(do="observe", on=resp), want)
        return self.ops


def check_names(ctx, cases, seed):
    rng = random.Random(seed)
    w = GoWork(ctx)
    scripts = []
    for i, c in enumerate(cases):
        w.write(Renderer(rng).files(c["rendered"], rename=lambda s: "x%d_%s" % (i, s)))
        v = c["model"][0]
        pkg = "x%d%s/%s" % (i, v["svc"].replace("_", ""), v["ver"].replace("_", ""))
        scopes = sorted({n["s"] for n in c["names"][0] + c["replaced"][0]} - {""})
        ops = [dict(do="names")]
        for s in scopes:
            ops += [dict(do="nil", fn=pkg + "." + s, **{"as": ["n"]}), dict(do="methods", on="n")]
        scripts.append((pkg, scopes, ops))
    try:
        w.generate()
        w.build_driver()
    except GeneratedCodeBroken as e:
        ctx.violation("compile", str(e), dict(models=[c["rendered"] for c in cases]))
        return
    results = w.run([[o for o in ops if o["do"] == "names"] for _, _, ops in scripts])
    again = []
    for (pkg, scopes, ops), r in zip(scripts, results):
        have = {x[len(pkg) + 1:] for x in r[0] if x.startswith(pkg + ".")}
        again.append((have, [s for s in scopes if s in have]))
    results = w.run([[o for s in ss for o in (dict(do="nil", fn=pkg + "." + s, **{"as": ["n"]}), dict(do="methods", on="n"))]
                     for (pkg, _, _), (_, ss) in zip(scripts, again)])
    n = 0
    for c, (have, ss), r in zip(cases, again, results):
        names = {("", x) for x in have}
        for s, x in zip(ss, r[1::2]):
            names |= {(s, y) for y in (x or [])}
        want = {(x["s"], x["n"]) for x in c["names"][0]}
        gone = {(x["s"], x["n"]) for x in c["replaced"][0]}
        n += len(want)
        if want - names or gone & names:
            ctx.violation("go", "missing Go names %s, names that were replaced but are there %s" % (sorted(want - names)[:5], sorted(gone & names)[:5]),
                          dict(files=Renderer(random.Random(0)).files(c["rendered"])))
    ctx.notes["go_names"] = ctx.notes.get("go_names", 0) + n
    shutil.rmtree(w.dir, True)


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    k = 4 if t else 1
    free = dict(FixedNames="{}")

    def one(r):
        p, n, base, sim = r
        c = constants(p, random=sim is not None)
        c.update(free)
        c.update(GivenBase=base, Annotations=str(n))
        return ctx.tlc("Annotated", c, AINV, init="AInit", next="ANext", simulate=sim, depth=len(p) + n + 10, seed=rng.randrange(1 << 30), heap="3g")
    small = dict(types=4, attrs=8, resources=3, methods=6, errors=1)
    runs = [([], 2, tla(BASE), None if t else 300), ([], 1, tla(BASE), None)]
    runs += [([], 30, tla(BASE), 6)] + [(plan(rng, **small), n, "<<>>", 5) for n in (5, 15, 40) * k]
    found = ctx.map(one, runs, jobs=4)
    pairs, singles = found[0], found[1]
    rng.shuffle(pairs)
    ctx.notes["single_annotations"], ctx.notes["pairs"] = len(singles), len(pairs)
    many = [c for cs in found[2:] for c in cs]
    cases = singles + (pairs) + many
    for c in cases:
        c["rendered"] = rendered(c)
    ctx.map(lambda x: api.check_openapi(ctx, x[1], ctx.seed * 7919 + x[0], "M07"), list(enumerate(cases)))
    ctx.log("OpenAPI specifications of %d models" % len(cases))
    code = singles + pairs[:1000 if t else 30] + many
    ctx.map(lambda i: api.check_tree(ctx, code[i::8], ctx.seed * 7919 + i), range(8))
    ctx.log("trees of paths")
    n = len(code) // 30 + 1
    ctx.map(lambda i: check_names(ctx, code[i::n], ctx.seed * 7919 + i), range(n), jobs=4)
    ctx.log("Go names of %d models" % len(code))
    # Histories with some of them:
    chosen = rng.sample(many, min(len(many), 40 if t else 10))

    def histories(c):
        x = constants([])
        x.update(free)
        x.update(PoolSize="5", OpKinds=tla_seq(q(y) for y in MIX), MaxItems="3", Given=tla(c["model"]), GivenObjects="<<>>",
                 BaseCount=str(len(BASES)), IdCount=str(len(IDS)), HeadCount=str(len(HEADS)), HistCount="12", OpCount="60")
        hs = ctx.tlc("Client", x, client.CINV, init="CInit", next="CNext", simulate=1, depth=12 * 61 + 50, seed=rng.randrange(1 << 30), heap="2g")
        return [dict(h, rendered=c["rendered"]) for h in hs]
    hs = [h for x in ctx.map(histories, chosen, jobs=6) for h in x]
    n = 4 * k
    ctx.map(lambda i: replay(ctx, hs[i::n], ctx.seed * 7919 + i, "history", Everything), range(n), jobs=2)
    ctx.traces += len(cases) + sum(len(c["hists"]) for c in hs)
    ctx.notes["histories"] = sum(len(c["hists"]) for c in hs)
    ctx.samples += [dict(done=cases[-1]["done"], model=cases[-1]["model"])]
    return ctx.finish(bounds="each annotation of a model with all the kinds of elements, pairs of them, simulated models with up to 40 annotations, histories of 60 calls")


if __name__ == "__main__":
    main(run)
