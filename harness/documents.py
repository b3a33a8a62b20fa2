"""D04, D05 and D06: JSON documents."""
import objects
from objects import *

JINV = ["PresenceFollowsHistory", "RoundTrips", "PrefixesFail", "RestIsIgnored", "Emission"]
COMMON = ["new"] + ["set"] * 7 + ["nest"] * 5 + ["nil"] + ["ident"] * 2 + ["build"] * 3 + ["copy", "get", "newlist", "items", "items", "buildlist"]
JMIX = {
    "D04": COMMON + ["roundtrip"] * 4 + ["listtrip"] * 2 + ["marshal", "loadmetadata", "read"],
    "D05": COMMON + ["marshal"] * 4 + ["roundtrip", "load", "read", "listtrip"],
    "D06": COMMON + ["load"] * 3 + ["loadlist"] * 2 + ["loadmetadata"] + ["unknown"] * 2 + ["unknownlast", "otherkind", "corrupt", "corrupt"] + ["read"] * 4,
}
JUNK = ["null", "0", "-1.5e+10", '"x"', '""', "[]", "{}", '[1,{"id":"other","":null},"\\u00fc\\n"]', '{"kind":"Link","items":[{}],"":{"":[[true]]}}']
# Texts bigger than any buffer, and nested values:
BIG = ['"%s"' % ("x" * 150000), "[" * 500 + "]" * 500, '{"a":' * 300 + "[null, " + "1.5, " * 20000 + "1]" + "}" * 300]

BAD = ["tru", "nul", "fals", "trux", "1.", "-", "1e", "1e+", "0x10", "NaN", "Infinity", "'x'", '"a\\qb"', '"a\\u12G4"', "undefined", "/*x*/1"]


def pairs(xs):
    names = [k for k, _ in xs]
    if len(set(names)) != len(names):
        raise ValueError("field appears twice in %s" % names)
    return dict(xs)


def parse(text):
    return json.loads(text, object_pairs_hook=pairs, parse_constant=lambda x: 1 / 0)


class Documents(Translator):
    writers = False

    def token(self, k):
        if k["k"] == "p":
            return k["c"]
        if k["k"] in ("n", "str"):
            return self.string(k["s"])
        if k["k"] == "key":
            return self.string(KEYS[k["x"]])
        if k["k"] == "null":
            return "null"
        if k["k"] == "junk":
            return self.rng.choice(BIG) if self.rng.random() < 0.02 else JUNK[k["x"] - 1]
        if k["k"] == "num":
            return k["s"]
        if k["k"] == "bad":
            return BAD[k["x"] - 1]
        if k["k"] == "half":
            x = self.token(k["of"])
            return x[:len(x) // 2]
        x = self.m.scalar(k["t"], k["x"])
        return self.string(x) if isinstance(x, str) else json.dumps(x, ensure_ascii=self.rng.random() < 0.5)

    def string(self, s):
        text = json.dumps(s, ensure_ascii=self.rng.random() < 0.5)
        if self.rng.random() < 0.2:
            text = text.replace("/", "\\/")
        if s and self.rng.random() < 0.1 and s[0].isalpha() and ord(s[0]) < 128:
            text = '"\\u%04x' % ord(s[0]) + text[2:]
        return text

    def text(self, toks, spaces=None):
        result = ""
        style = self.rng.randrange(3) if spaces is None else spaces
        long = self.rng.randrange(len(toks)) if spaces is None and toks and self.rng.random() < 0.02 else -1
        for i, k in enumerate(toks):
            x = self.token(k)
            if style == 2:
                result += self.rng.choice(["", "", " ", "\n", "\t", "\r\n  "])
            if result and x and (result[-1].isalnum() or result[-1] in '."+-') and (x[0].isalnum() or x[0] in '."+-'):
                result += " "
            result += x
            if i == long:
                result += " " * self.rng.choice([3000, 70000])
            if style == 1:
                result += " "
        return result

    def source(self, text):
        how = self.rng.choice(["string", "bytes", "reader", "chunks"])
        return dict(reader=text, how=how, chunk=self.rng.choice([1, 2, 3, 7, 64]))

    def within(self):
        """Calls to be made while something is being read or written, because the writer or the reader does it: the
        result of both doesn't change."""
        if not self.o or self.rng.random() > 0.3:
            return {}
        o = self.rng.randint(1, self.o)
        if self.values[o]["k"] != "o":
            return {}
        t = go_name(self.m.types[self.typeof[o] - 1])
        self.marshal(o, "inner1")
        self.add(dict(do="text", on="inner1"), any=True)
        self.inner = len(self.ops) - 1
        ops = [call(self.m.fn("Marshal" + t), ref("o%d" % o), dict(buf="inner2")),
               call(self.m.fn("Unmarshal" + t), {"from": "inner1", "how": "chunks", "chunk": 10}, a=["inner", "e"]),
               call(self.m.fn("Marshal" + t), ref("inner"), dict(buf="inner3"))]
        return dict(inside=ops, t=t)

    def full(self, fn, arg):
        """The result of writing where there isn't room for the text, that always has two characters at least."""
        if not self.writers:
            return

        def check(got, results):
            if not isinstance(got, list) or not isinstance(got[0], dict) or "err" not in got[0]:
                return "there is no error when the writer fails: %s" % got
        self.add(call(fn, arg, dict(buf="full", room=self.rng.choice([0, 1]))), check)

    def after(self, within):
        """What is expected of the calls made within other."""
        if not within:
            return
        self.add(dict(do="inner"), lambda got, results: None if got == [[None], [dict(obj=within["t"]), None], [None]] else "the inner calls return %s" % got)
        self.again("inner2", self.inner)
        self.again("inner3", self.inner)

    def written(self, name, toks, other=None):
        """Expectations for the text that was written."""
        want = parse(self.text(toks, 0))

        def check(got, results):
            if not isinstance(got, str):
                return "there is no text: %s" % got
            try:
                tree = parse(got)
            except Exception as e:
                return "the document isn't correct, %s: %s" % (e, got[:500])
            if not same(tree, want):
                return "%s in document %s" % (where(tree, want), got[:500])
        self.add(dict(do="text", on=name), check)

    def again(self, name, index):
        """The text has to be equal to the one that was written before."""
        def check(got, results):
            if got != results[index]:
                return "written again it is %s instead of %s" % (got[:500], str(results[index])[:500])
        self.add(dict(do="text", on=name), check)

    def type_name(self, t, suffix=""):
        if t["b"]:
            return t["b"] + suffix
        x = self.m.types[t["i"] - 1]
        return camel(x["n"]) + suffix if suffix else go_name(x)

    def marshal(self, o, name, inside=None):
        t = go_name(self.m.types[self.typeof[o] - 1])
        self.add(call(self.m.fn("Marshal" + t), ref("o%d" % o), dict(buf=name, **{k: inside[k] for k in inside or {} if k == "inside"})), [None])

    def step(self, c):
        m, op = self.m, c["op"]
        if op == "marshal":
            within = self.within()
            self.marshal(c["o"], "w", within)
            self.written("w", c["toks"])
            i = len(self.ops) - 1
            self.after(within)
            self.marshal(c["o"], "w2")
            self.again("w2", i)
            if self.rng.random() < 0.3:
                self.full(m.fn("Marshal" + go_name(m.types[self.typeof[c["o"]] - 1])), ref("o%d" % c["o"]))
        elif op == "roundtrip":
            self.marshal(c["o"], "w")
            self.add(dict(do="text", on="w"), any=True)
            i = len(self.ops) - 1
            within = self.within()
            self.o += 1
            t = go_name(m.types[self.typeof[c["o"]] - 1])
            src = dict(self.source(""))
            src = {"from": "w", "how": src["how"], "chunk": src["chunk"]}
            if within:
                src["inside"] = within["inside"]
            self.add(call(m.fn("Unmarshal" + t), src, a=["o%d" % self.o, "e"]), [dict(obj=t), None])
            self.observe("o%d" % self.o, c["v"])
            self.after(within)
            self.marshal(self.o, "w2")
            self.again("w2", i)
        elif op == "listtrip":
            a = m.types[self.typeof[c["o"]] - 1]["attrs"][c["i"] - 1]
            self.add(method("o%d" % c["o"], go_name(a), a="list"), any=True)
            name = self.type_name(a["t"], "List")
            self.add(call(m.fn("Marshal" + name), ref("list"), dict(buf="w")), [None])
            self.written("w", c["toks"])
            i = len(self.ops) - 1
            self.add(call(m.fn("Unmarshal" + name), {"from": "w", "how": self.rng.choice(["string", "bytes", "reader"])}, a=["back", "e"]), any=True)
            self.add(dict(do="dump", on="e"), None)
            self.add(dict(do="observe", on="back"), m.seen(a, c["v"]))
            self.full(m.fn("Marshal" + name), ref("back"))
            self.add(call(m.fn("Marshal" + name), ref("back"), dict(buf="w2")), [None])
            self.again("w2", i)
        elif op == "read":
            a = m.types[c["t"] - 1]["attrs"][c["a"] - 1] if c["a"] else None
            t = "Metadata" if not c["t"] else self.type_name(a["t"], "List") if a else go_name(m.types[c["t"] - 1])
            text = self.text(c["toks"])
            src = self.source(text)
            if c["st"] == "err" and self.rng.random() < 0.2 and c["toks"] and not c["toks"][-1].get("c") in ("}", "]"):
                src = dict(reader=text, how="fail")
            if c["keep"]:
                self.o += 1
            name = "o%d" % self.o if c["keep"] else "o"
            if c["st"] == "ok" and a:
                self.add(call(m.fn("Unmarshal" + t), src, a=["back", "e"]), any=True)
                self.add(dict(do="dump", on="e"), None)
                self.add(dict(do="observe", on="back"), m.seen(a, c["v"]))
            elif c["st"] == "ok" and not c["t"]:
                self.add(call(m.fn("Unmarshal" + t), src, a=["meta", "e"]), [dict(obj=t), None])
                x = c["v"]["vals"][0]
                value = self.m.scalar(dict(b="String", i=0), x["v"]["x"]) if x["p"] else ""
                self.add(dict(do="observe", on="meta"), dict(type=t, attrs=dict(ServerVersion=dict(ok=x["p"], get=value, plain=value))))
                self.add(call(m.fn("Marshal" + t), ref("meta"), dict(buf="w")), [None])
                self.written("w", c["again"])
                self.full(m.fn("Marshal" + t), ref("meta"))
            elif c["st"] == "ok":
                self.add(call(m.fn("Unmarshal" + t), src, a=[name, "e"]), [dict(obj=t), None])
                self.observe(name, c["v"])
            elif c["st"] == "err":
                def check(got, results):
                    if not isinstance(got, list) or len(got) != 2 or not isinstance(got[1], dict) or "err" not in got[1]:
                        return "there is no error for %s: %s" % (text[:1000], got)
                check.key = "null-name" if c["v"]["k"] == "nullname" else None
                self.add(call(m.fn("Unmarshal" + t), src, a=["o", "e"]), check)
            else:
                self.add(call(m.fn("Unmarshal" + t), src, a=["o", "e"]), any=True)
        else:
            super().step(c)


def attr(n, form, b="", i=0, link=False):
    return dict(n=[dict(l=w, c=BY[w]) for w in n.split("_")], form=form, t=dict(b=b, i=i), link=link, json="", go="")


RICH = [dict(svc="zoo", ver="v1", errors=[], resources=[dict(n=[dict(l="root", c="Root")], go="", methods=[], locators=[])], types=[
    dict(kind="class", n=[dict(l="cluster", c="Cluster")], go="", values=[], attrs=[
        attr("count", "plain", "Integer"), attr("group", "plain", i=1, link=True), attr("label", "map", "String"), attr("name", "plain", "String"),
        attr("network", "list", i=2), attr("pool", "list", i=1, link=True), attr("time", "plain", "Date"), attr("value", "plain", "Interface")]),
    dict(kind="struct", n=[dict(l="network", c="Network")], go="", values=[], attrs=[attr("default", "plain", "Boolean"), attr("region", "list", "String")]),
])]


def present(v):
    return dict(p=True, v=v)


def rich():
    no = dict(p=False, v=dict(k="n"))
    s = lambda x: dict(k="s", x=x)
    child = dict(k="o", t=1, link=True, id=present(s(1)), href=no, vals=[no] * 8)
    net = dict(k="o", t=2, link=False, id=no, href=no, vals=[present(s(1)), present(dict(k="l", xs=[s(0), s(1)]))])
    return dict(k="o", t=1, link=False, id=present(s(1)), href=no, vals=[
        present(s(1)), present(child), present(dict(k="m", ks=[0, 1], xs=[s(1), s(0)])), present(s(2)), present(dict(k="l", xs=[net])),
        present(dict(k="L", t=1, items=[child], link=False, href=no)), present(s(1)), no])


def list_href(ctx):
    """A list of links that has a link loses it when it is written, or copied to a builder."""
    w = GoWork(ctx)
    w.write(Renderer(random.Random(0)).files(RICH))
    w.generate()
    w.build_driver()
    text = '{"kind":"Cluster","pool":{"kind":"ClusterListLink","href":"/pools","items":[{"kind":"ClusterLink","id":"1"}]}}'
    script = [call("zoo/v1.UnmarshalCluster", dict(reader=text, how="string"), a=["o", "e"]), call("zoo/v1.MarshalCluster", ref("o"), dict(buf="w")), dict(do="text", on="w")]
    r = w.run([script])[0][2]
    try:
        pool = json.loads(r)["pool"]
    except Exception as e:
        pool = dict(error=str(e), text=r)
    if pool.get("href") != "/pools":
        ctx.violation("list-href", "written again the list is %s" % pool, dict(script=script))


def library(ctx):
    """Texts that aren't JSON and the library that is used to read accepts, and the other way around."""
    w = GoWork(ctx)
    w.write(Renderer(random.Random(0)).files(RICH))
    w.generate()
    w.build_driver()
    probes = [("number-syntax", '{"unknown":%s}' % x, "string", False) for x in ("01", "-01", "+1", ".5")]
    probes += [("control-characters", '{"kind":"a\tb","id":"x"}', "chunks", False), ("big-number", '{"unknown":1e400}', "string", True)]
    scripts = [[call("zoo/v1.UnmarshalCluster", dict(reader=text, how=how, chunk=1), a=["o", "e"])] for _, text, how, _ in probes]
    for (key, text, _, ok), script, r in zip(probes, scripts, w.run(scripts)):
        if (r[0][1] is None) != ok:
            ctx.violation(key, "the result of reading %s is %s" % (text, r[0]), dict(script=script))


def run(ctx):
    ctx.build_cli()
    Documents.writers = ctx.prop == "D04"
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    base = dict(PoolSize="5", OpKinds=tla_seq(q(x) for x in JMIX[ctx.prop]), MaxItems="3", Given="<<>>", GivenObjects="<<>>")
    runs = []

    def add(p, n, hists, calls, **kw):
        c = constants(p, **kw)
        c.update(base)
        c.update(HistCount=str(hists), OpCount=str(calls))
        runs.append((c, n, len(p) + hists * (calls + 1) + 50, rng.randrange(1 << 30)))

    for _ in range(6 if t else 2):
        add(plan(rng, types=6, attrs=16, resources=0, methods=0, annotations=6), 3, 25, 40)
        add(plan(rng, types=4, attrs=10, resources=0, methods=0, annotations=2), 3, 25, 40)
        # Mostly objects inside others:
        add(["class", "class", "struct", "enum", "value", "value"] + ["nested"] * 9 + ["attr"] * 3 + ["json"], 3, 25, 40)
    add(["class"] + ["nested"] * 4 + ["attr"] * 2, 2, 25, 50)
    add(["class"] + ["attr"] * 14, 2, 25, 50)
    add(["struct"] + ["attr"] * 14, 2, 25, 50)
    if t:
        add(["class"] + ["attr"] * 61, 1, 25, 90, names=SINGLE + DOUBLE + EXTRA)
        add(["struct"] + ["attr"] * 64, 1, 25, 90, names=SINGLE + DOUBLE + EXTRA)

    def one(r):
        return ctx.tlc("Documents", r[0], JINV, init="JInit", next="JNext", simulate=r[1], depth=r[2], seed=r[3], heap="2g")
    cases = []
    for cs in ctx.map(one, runs, jobs=4):
        cases += cs
    if ctx.prop == "D06":
        # All the documents that are one or two mistakes away from a complete one:
        c = constants([], random=False)
        c.update(base)
        c.update(Given=tla(RICH), GivenObjects=tla_seq([tla(rich())]), OpKinds=tla_seq([q("new"), q("corrupt"), q("read")]), HistCount="1", OpCount="3")
        cs = ctx.tlc("Documents", c, JINV, init="JInit", next="JNext", heap="6g", workers=1)
        ctx.notes["one_mistake"] = len(cs)
        hists = [h for x in cs for h in x["hists"] if any(y["op"] == "read" for y in h["calls"])]
        cases.append(dict(model=RICH, hists=hists))
        c.update(Random="TRUE", OpKinds=tla_seq([q("corrupt"), q("corrupt"), q("unknown"), q("unknownlast"), q("read")]), HistCount="1500" if t else "250", OpCount="5")
        cases += ctx.tlc("Documents", c, JINV, init="JInit", next="JNext", simulate=2, depth=20000, seed=rng.randrange(1 << 30), heap="4g")
    n = 6 if t else 2
    ctx.map(lambda i: replay(ctx, cases[i::n], ctx.seed * 7919 + i, "history", Documents), range(n), jobs=2)
    # Again, with texts bigger than any buffer:
    usual = POOLS["String"][4]
    POOLS["String"][4] = "<\u00fc\u2028\"x\\" * 20000
    replay(ctx, [dict(c, hists=c["hists"][:6]) for c in cases[:3]], ctx.seed, "history", Documents)
    POOLS["String"][4] = usual
    if ctx.prop == "D04":
        list_href(ctx)
    if ctx.prop == "D06":
        library(ctx)
    ctx.traces += sum(len(c["hists"]) for c in cases)
    ctx.notes["models"] = len(cases)
    ctx.notes["documents"] = sum(y["op"] in ("read", "marshal", "roundtrip", "listtrip") for c in cases for h in c["hists"] for y in h["calls"])
    ctx.samples += [dict(model=cases[0]["model"], history=cases[0]["hists"][0])]
    return ctx.finish(bounds="simulated histories of 40 to 90 calls on models with up to 6 types and on types with up to 64 attributes, and for D06 all the documents with one wrong token of a class that has all the forms of attributes")


if __name__ == "__main__":
    main(run)
