"""D01, D02 and D03: builders, objects and lists."""
from values import *

INV = ["PresenceFollowsHistory", "NoDepsIsFresh", "IterationsArePrefixes", "Emission"]
MIX = {
    "D01": ["new"] + ["set"] * 6 + ["nest"] * 2 + ["nil"] * 3 + ["ident"] * 3 + ["build"] * 3 + ["empty", "readnil", "copy", "copynil", "newlist", "items"],
    "D02": ["new"] + ["set"] * 6 + ["nest"] * 4 + ["nil"] + ["ident"] + ["build"] * 3 + ["copy"] * 3 + ["copynil", "get", "get", "mutate", "mutate", "newlist",
           "items", "items", "buildlist", "copylist", "slice"],
    "D03": ["new"] * 2 + ["set", "ident", "newlist"] + ["items"] * 4 + ["buildlist"] * 3 + ["copylist", "iterate", "iterate", "iterate", "index",
           "index", "slice", "get", "mutate", "readnil", "empty", "copy", "copynil"],
}
EXTRA = ["%s_%s" % (a, b) for a in ("node", "cpu", "label", "name") for b in ("color", "group", "pool", "quota", "addon", "network")]


class Translator:
    """Translates a history to the operations of the driver, with what is expected of each one."""

    bubble = False

    def __init__(self, model):
        self.m = model
        self.ops, self.want = [], []
        self.b, self.o, self.types, self.handles = 0, 0, {}, {}

    def add(self, op, want=None, any=False):
        self.ops.append(op)
        self.want.append((any, want))

    def attr(self, b, i):
        return self.m.types[self.types["b%d" % b][1] - 1]["attrs"][i - 1]

    def lit(self, t, x):
        return lit(self.m.scalar(t, x))

    def argument(self, a, arg):
        """Arguments for a setter, and whether they are given as a slice."""
        k = arg["k"]
        if k == "s":
            return [self.lit(a["t"], arg["x"])], False
        if k == "l":
            xs = [self.lit(a["t"], x) for x in arg["xs"]]
        if k == "m":
            return [dict(map={KEYS[i]: self.lit(a["t"], x) for i, x in zip(arg["ks"], arg["xs"])}, keep="h%d" % arg["h"])], False
        if k == "b":
            return [ref("b%d" % arg["b"])], False
        if k == "lb":
            xs = [ref("b%d" % x) for x in arg["bs"]]
        if k == "mb":
            return [dict(map={KEYS[i]: ref("b%d" % x) for i, x in zip(arg["ks"], arg["bs"])}, keep="h%d" % arg["h"])], False
        return [dict(slice=xs, keep="h%d" % arg["h"])], True

    def observe(self, name, v):
        self.add(dict(do="observe", on=name), self.m.value(v))

    def step(self, c):
        m, op = self.m, c["op"]
        if op in ("new", "newlist"):
            self.b += 1
            t = m.types[c["t"] - 1]
            suffix = "List" if op == "newlist" else ""
            self.types["b%d" % self.b] = (suffix, c["t"])
            self.add(call(m.fn("New" + go_name(t) + suffix), a="b%d" % self.b), any=True)
        elif op == "set":
            a = self.attr(c["b"], c["i"])
            args, spread = self.argument(a, c["arg"])
            if c["arg"].get("h"):
                self.handles[c["arg"]["h"]] = (a, c["arg"])
            self.add(method("b%d" % c["b"], go_name(a), *args, spread=spread), any=True)
        elif op == "items":
            arg = dict(k="lb", bs=c["bs"])
            self.handles[c["h"]] = (None, arg)
            self.add(method("b%d" % c["b"], "Items", dict(slice=[ref("b%d" % x) for x in c["bs"]], keep="h%d" % c["h"]), spread=True), any=True)
        elif op == "nil":
            self.add(method("b%d" % c["b"], go_name(self.attr(c["b"], c["i"])), NIL), any=True)
        elif op == "link":
            self.add(method("b%d" % c["b"], "Link", lit(c["x"])), any=True)
        elif op in ("id", "href"):
            self.add(method("b%d" % c["b"], op.upper(), lit(POOLS["String"][c["x"]])), any=True)
        elif op == "build":
            self.o += 1
            suffix, t = self.types["b%d" % c["b"]]
            self.add(method("b%d" % c["b"], "Build", a=["o%d" % self.o, "e"]), [dict(obj=go_name(m.types[t - 1]) + suffix), None])
            self.observe("o%d" % self.o, c["v"])
        elif op == "copy":
            self.add(method("b%d" % c["b"], "Copy", ref("o%d" % c["o"])), any=True)
        elif op == "copynil":
            self.add(method("b%d" % c["b"], "Copy", NIL), any=True)
        elif op == "empty":
            self.add(method("b%d" % c["b"], "Empty"), [c["v"]])
        elif op == "get":
            self.o += 1
            o = "o%d" % c["o"]
            if c["i"] == 0:
                self.add(method(o, "Get", lit(c["j"] - 1), a="o%d" % self.o), any=True)
            else:
                t = m.types[self.typeof[c["o"]] - 1]
                self.add(method(o, go_name(t["attrs"][c["i"] - 1]), a="o%d" % self.o), any=True)
            self.observe("o%d" % self.o, c["v"])
        elif op == "mutate":
            self.mutate(c["h"])
        elif op == "readnil":
            name = go_name(m.types[c["t"] - 1]) + ("List" if c["k"] == "L" else "")
            self.add(dict(do="nil", fn=m.fn(name), **{"as": ["n"]}), any=True)
            self.add(dict(do="observe", on="n"), m.nil_object(c["t"]) if c["k"] == "o" else m.nil_list(c["t"]))
            if c["k"] == "L":
                self.add(method("n", "Get", lit(0)), [None])
                self.add(method("n", "Each", dict(cb=dict(default=True, **{"as": "log"}))), any=True)
                self.add(dict(do="log", on="log"), [])
                self.add(method("n", "Range", dict(cb=dict(default=True, **{"as": "log"}))), any=True)
                self.add(dict(do="log", on="log"), [])
                self.add(method("n", "Slice"), [[]])
        elif op == "iterate":
            cb = {"as": "log", "default": True, "results": [i != c["stop"] for i in range(1, 30)]}
            self.add(method("o%d" % c["o"], c["f"], dict(cb=cb)), any=True)
            t = go_name(m.types[self.typeof[c["o"]] - 1])
            self.add(dict(do="log", on="log"), [([i - 1] if c["f"] == "Range" else []) + [dict(obj=t)] for i in c["seen"]])
            for n, i in enumerate(c["seen"]):
                self.observe("log.%d.%d" % (n, 1 if c["f"] == "Range" else 0), self.values[c["o"]]["items"][i - 1])
        elif op == "index":
            t = go_name(m.types[self.typeof[c["o"]] - 1])
            self.add(method("o%d" % c["o"], "Get", lit(c["i"]), a="item"), [dict(obj=t)] if c["ok"] else [None])
            if c["ok"]:
                self.observe("item", self.values[c["o"]]["items"][c["i"]])
        elif op == "slice":
            self.add(method("o%d" % c["o"], "Slice", a="slice"), any=True)
            self.add(dict(do="setindex", on="slice", index=0, value=NIL), any=True)
        else:
            raise NoAnswer("unknown call %s" % op)

    def mutate(self, h):
        a, arg = self.handles[h]
        name = "h%d" % h
        if arg["k"] == "l" and arg["xs"]:
            other = (arg["xs"][0] + 1) % 2
            self.add(dict(do="setindex", on=name, index=0, value=self.lit(a["t"], min(other, 1) if a["t"]["b"] else 0)), any=True)
        elif arg["k"] == "lb" and arg["bs"]:
            self.add(dict(do="setindex", on=name, index=0, value=NIL), any=True)
        elif arg["k"] == "m":
            for i in arg["ks"][:1]:
                self.add(dict(do="delkey", on=name, key=KEYS[i]), any=True)
            self.add(dict(do="setkey", on=name, key="new", value=self.lit(a["t"], 0)), any=True)
        elif arg["k"] == "mb":
            for i in arg["ks"]:
                self.add(dict(do="delkey", on=name, key=KEYS[i]), any=True)

    def translate(self, h):
        self.values = dict(enumerate(h["objects"], 1))
        self.typeof = {i: v["t"] for i, v in self.values.items()}
        for c in h["calls"]:
            self.step(c)
        # In the end nothing has changed:
        for i, v in self.values.items():
            self.observe("o%d" % i, v)
        return self.ops


def replay(ctx, cases, seed, key, translator=Translator):
    """Generates the code of several models and replays their histories."""
    rng = random.Random(seed)
    w = GoWork(ctx)
    scripts, trans = [], []
    for i, c in enumerate(cases):
        service = "x%d_%s" % (i, c["model"][0]["svc"])
        files = Renderer(rng).files(c.get("rendered", c["model"]), rename=lambda s: "x%d_%s" % (i, s))
        w.write(files)
        mo = Model(c["model"], service)
        for h in c["hists"]:
            t = translator(mo)
            t.rng = rng
            scripts.append(t.translate(h))
            trans.append((t, files, h))
    try:
        w.generate()
        w.build_driver()
    except GeneratedCodeBroken as e:
        ctx.violation("compile", str(e), dict(models=[c["model"] for c in cases]))
        return
    results = w.run([dict(bubble=True, ops=s) for s in scripts] if translator.bubble else scripts)
    checked = 0
    for s, r, (t, files, h) in zip(scripts, results, trans):
        for i, (anything, want) in enumerate(t.want):
            got = r[i] if i < len(r) else dict(crash="the script stopped")
            if callable(want):
                text = want(got, r)
                if text:
                    ctx.violation(getattr(want, "key", None) or key, "call %d, %s: %s" % (i + 1, json.dumps(s[i])[:200], text),
                                  dict(files=files, script=s[:i + 1], got=got))
                    break
                checked += 1
                continue
            bad = isinstance(got, dict) and (set(got) & {"panic", "crash", "missing"}) and "type" not in got
            if bad or not anything and not same(got, want):
                ctx.violation(key, "call %d, %s: %s" % (i + 1, json.dumps(s[i])[:200], got if bad else where(got, want)),
                              dict(files=files, script=s[:i + 1], got=got, want=want))
                break
            checked += not anything
    ctx.notes["observations"] = ctx.notes.get("observations", 0) + checked
    shutil.rmtree(w.dir, True)


GIVEN = [dict(svc="zoo", ver="v1", errors=[], resources=[dict(n=[dict(l="root", c="Root")], go="", methods=[], locators=[])], types=[
    dict(kind="class", n=[dict(l="cluster", c="Cluster")], go="", values=[], attrs=[
        dict(n=[dict(l="name", c="Name")], form="plain", t=dict(b="String", i=0), link=False, json="", go=""),
        dict(n=[dict(l="parent", c="Parent")], form="plain", t=dict(b="", i=1), link=False, json="", go=""),
        dict(n=[dict(l="size", c="Size")], form="map", t=dict(b="Integer", i=0), link=False, json="", go=""),
    ])])]


def too_many(ctx):
    """The presence bits are at most 64: types with more attributes have to be rejected, never generated without presence."""
    names = [dict(l=a + b, c=(a + b).capitalize()) for a in "abcdefgh" for b in "ijklmnopq"]
    for kind, n in (("class", 62), ("class", 64), ("struct", 65), ("struct", 72)):
        model = [dict(svc="zoo", ver="v1", errors=[], resources=[dict(n=[dict(l="root", c="Root")], go="", methods=[], locators=[])], types=[
            dict(kind=kind, n=[dict(l="big", c="Big")], go="", values=[], attrs=[
                dict(n=[x], form="plain", t=dict(b="Boolean", i=0), link=False, json="", go="") for x in names[:n]])])]
        w = GoWork(ctx)
        w.write(Renderer(random.Random(0)).files(model))
        try:
            w.generate()
        except GeneratedCodeBroken:
            continue
        finally:
            shutil.rmtree(w.dir, True)
        ctx.violation("too-many", "a %s with %d attributes was generated, but their presence doesn't fit in 64 bits" % (kind, n), dict(model=model))


def run(ctx):
    ctx.build_cli()
    if ctx.prop == "D01":
        too_many(ctx)
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    mix = MIX[ctx.prop]
    base = dict(PoolSize="5", OpKinds=tla_seq(q(x) for x in mix), MaxItems="3", Given="<<>>")
    runs = []
    k = 5 if t else 1
    hists = 40 if ctx.prop == "D01" else 80

    def add(p, n, hists, calls, **kw):
        c = constants(p, **kw)
        c.update(base)
        c.update(HistCount=str(hists), OpCount=str(calls))
        runs.append((c, n, len(p) + hists * (calls + 1) + 50, rng.randrange(1 << 30)))

    for _ in range((2 if ctx.prop == "D01" else 4) * k):
        add(plan(rng, types=6, attrs=16, resources=0, methods=0, annotations=4), 3, hists, 25)
        add(plan(rng, types=3, attrs=9, resources=0, methods=0), 3, hists, 25)
        add(["class", "struct"] + ["nested"] * 6 + ["attr"] * 2, 2, hists, 40)
        if ctx.prop == "D03":
            # Few types, so that lists have more items:
            add(["class"] + ["attr"] * 3, 3, 100, 40)
            add(["struct"] + ["attr"] * 3, 2, 100, 40)
    # Types with many attributes, around the limits of the bitmaps:
    if ctx.prop != "D03":
        wide = [("class", 29), ("class", 30), ("struct", 32), ("struct", 33), ("class", 61), ("struct", 64), ("class", 45)]
        for kind, n in wide if t or ctx.prop == "D01" else wide[:3]:
            p = [kind] + ["attr"] * n
            add(p, 1, 25, 40, names=SINGLE + DOUBLE + EXTRA)
    cases = []

    def one(r):
        return ctx.tlc("Objects", r[0], INV, properties=[] if r[1] else ["ObjectsAreImmutable"], simulate=r[1], depth=r[2], seed=r[3], heap="2g")
    for cs in ctx.map(one, runs, jobs=4):
        cases += cs
    # All the short histories of a small model:
    small = {"D01": ["set", "nil", "ident", "build"], "D02": ["set", "build", "copy", "mutate"], "D03": ["newlist", "items", "buildlist", "iterate", "index"]}[ctx.prop]
    c = constants([], random=False)
    c.update(base)
    c.update(Given=tla(GIVEN), PoolSize="1", MaxItems="1", OpKinds=tla_seq(q(x) for x in small), HistCount="1", OpCount="6" if t else "5")
    cs = ctx.tlc("Objects", c, INV, properties=["ObjectsAreImmutable"], heap="6g", workers=1)
    ctx.notes["short_histories"] = len(cs)
    merged = dict(model=GIVEN, hists=[h for x in cs for h in x["hists"] if h["objects"]])
    if not t and len(merged["hists"]) > 4000:
        merged["hists"] = rng.sample(merged["hists"], 4000)
    cases.append(merged)
    n = 6 if t else 2
    ctx.map(lambda i: replay(ctx, cases[i::n], ctx.seed * 7919 + i, "history"), range(n), jobs=2)
    ctx.traces += sum(len(c["hists"]) for c in cases)
    ctx.notes["models"] = len(cases)
    ctx.samples += [dict(model=cases[0]["model"], history=cases[0]["hists"][0])]
    return ctx.finish(bounds="all the histories of a few calls on a small class, simulated histories of 25 to 40 calls on models with up to 6 types and on types with up to 64 attributes")


if __name__ == "__main__":
    main(run)
