"""H08: helpers of servers for query parameters, headers and paths."""
import objects
from objects import *

QINV = ["SetsFollowHistory", "ValuesComeBack", "NothingIsLost", "Emission"]
QMIX = ["new"] + ["add"] * 8 + ["head"] * 3 + ["impersonate"] + ["text"] * 5 + ["remove"] * 4 + ["change"] * 2 + ["copy"] * 2 + ["parse"] * 8 + ["look"] * 3 + ["segments"] * 3 + ["pointer"]
NAMES = ["Impersonate-User", "search", "order_by", "x-one", "X-One", "\u00fc b&c=d"]
SAME_HEADER = [1, 2, 3, 4, 4, 6]
TYPES = ["Integer", "Float", "String", "Boolean", "Date"]
GO_TYPES = dict(Integer="int", Long="int64", Float="float64", String="string", Boolean="bool", Date="time")
BAD, ANY = "bad", "any"


def text(s, Integer=BAD, Float=BAD, Boolean=BAD, Date=BAD):
    return dict(text=s, String=s, Integer=Integer, Float=Float, Boolean=Boolean, Date=Date)


# Texts and their meaning with each type; nothing is said about the forms that depend on the language.
TEXTS = [
    text(""),
    text("1", Integer=1, Float=1.0, Boolean=ANY),
    text(" "),
    text("abc"),
    text("0", Integer=0, Float=0.0, Boolean=ANY),
    text("-42", Integer=-42, Float=-42.0),
    text("007", Integer=7, Float=7.0),
    text(" 1"),
    text("1 "),
    text("12x"),
    text("1,2"),
    text("1.5", Float=1.5),
    text("-0.25", Float=-0.25),
    text("1e3", Float=1000.0),
    text("1.5.2"),
    text("2147483648", Integer=2147483648, Float=2147483648.0),
    text("9223372036854775807", Integer=9223372036854775807, Float=9223372036854775807.0),
    text("-9223372036854775808", Integer=-9223372036854775808, Float=-9223372036854775808.0),
    text("9223372036854775808", Float=9223372036854775808.0),
    text("99999999999999999999", Float=99999999999999999999.0),
    text("true", Boolean=True),
    text("false", Boolean=False),
    text("yes"),
    text("truely"),
    text("nil"),
    text("null"),
    text("2020-01-02T03:04:05Z", Date="2020-01-02T03:04:05Z"),
    text("2020-01-02T03:04:05+02:00", Date="2020-01-02T03:04:05+02:00"),
    text("2020-01-02T03:04:05-03:30", Date="2020-01-02T03:04:05-03:30"),
    text("2020-02-29T23:59:59Z", Date="2020-02-29T23:59:59Z"),
    text("2020-01-02T03:04:05.25Z", Date="2020-01-02T03:04:05.25Z"),
    text("2020-01-02T03:04:05"),
    text("2020-01-02"),
    text("2020-01-02T03:04Z"),
    text("2020-13-01T00:00:00Z"),
    text("2021-02-29T00:00:00Z"),
    text("2020-01-01T25:00:00Z"),
    text("Thu, 02 Jan 2020 03:04:05 GMT"),
    text("2020-01-02T03:04:05Z and more"),
    text("\u0661", Integer=BAD, Float=BAD),
    text("a=b&c"),
]
PARTS = ["api", "v1", "123", "a b", "\u00fc", ".", "x%2Fy", "-"]


def st(x, t):
    return x[t] if x[t] in (BAD, ANY) and t != "String" else "ok"


def instant(s):
    import datetime
    return datetime.datetime.fromisoformat(s.replace("Z", "+00:00"))


def value(v):
    return POOLS[v["t"]][v["x"] % len(POOLS[v["t"]])] if v["k"] == "val" else TEXTS[v["x"] - 1]["text"]


def written(v, got):
    """Whether the text is the value."""
    want = value(v)
    if not isinstance(got, str):
        return False
    if v["k"] == "text" or v["t"] == "String":
        return got == want
    try:
        if v["t"] == "Boolean":
            return got == ("true" if want else "false")
        if v["t"] == "Float":
            return float(got) == want
        if v["t"] == "Date":
            return instant(got) == instant(want)
    except ValueError:
        return False
    return got == str(want)


def typed(v):
    return dict(lit=value(v), type=GO_TYPES[v["t"]])


class Query(Translator):
    def __init__(self, model):
        super().__init__(model)
        self.kinds = []

    def contents(self, kind, vals):
        want = {}
        for i, vs in enumerate(vals):
            if vs:
                want[self.key(kind, i + 1)] = vs

        def check(got, results):
            if got is not None and not isinstance(got, dict) or isinstance(got, dict) and "panic" in got:
                return "it is %s" % got
            got = {k: v for k, v in (got or {}).items() if v}
            if set(got) != set(want):
                return "the names are %s instead of %s" % (sorted(got), sorted(want))
            for k, vs in want.items():
                if len(got[k]) != len(vs) or not all(written(v, g) for v, g in zip(vs, got[k])):
                    return "the values of '%s' are %s instead of %s" % (k, got[k], [value(v) for v in vs])
        return check

    def key(self, kind, n):
        """The name that the map uses."""
        n = NAMES[n - 1]
        return "-".join(x.capitalize() for x in n.split("-")) if kind == "header" and re.fullmatch("[A-Za-z_-]+", n) else n

    def same_value(self, t, want):
        def check(got, results):
            if t == "Date":
                return None if isinstance(got, str) and instant(got) == instant(want) else "the date is %s instead of %s" % (got, want)
            if isinstance(want, float) and type(got) is int:
                got = float(got)
            if type(got) not in (type(want),) or isinstance(got, bool) != isinstance(want, bool) or got != want:
                return "the value is %s instead of %s" % (got, want)
        return check

    def step(self, c):
        op = c["op"]
        q = "q%d" % c.get("q", 0)
        if op in ("add", "text", "head", "change", "parse", "remove"):
            name = NAMES[c["n"] - 1]
        if op == "new":
            self.kinds.append(c["kind"])
            self.add(dict(do="zero", fn=c["kind"], value=not c["nil"], **{"as": [q]}), any=True)
        elif op == "copy":
            self.kinds.append(c["kind"])
            src = "q%d" % c["from"]
            fn = "helpers.CopyQuery" if c["kind"] == "query" else "helpers.CopyHeader"
            self.add(call(fn, ref(src), a="copy"), any=True)
            self.add(dict(do="hold", on="copy", **{"as": [q]}), any=True)
        elif op == "add":
            self.add(call("helpers.AddValue", ref(q), lit(name), typed(c["v"])), any=True)
        elif op == "head":
            self.add(call("helpers.AddHeader", ref(q), lit(name), typed(c["v"])), any=True)
        elif op == "impersonate":
            self.add(call("helpers.AddImpersonationHeader", ref(q), lit(value(c["v"]))), any=True)
        elif op == "text":
            self.add(method(q, "Add", lit(name), lit(value(c["v"]))), any=True)
        elif op == "remove":
            self.add(method(q, "Del", lit(name)), any=True)
        elif op == "change":
            kind = self.kinds[c["q"] - 1]
            self.add(dict(do="poke", on=q, key=self.key(kind, c["n"]), index=c["j"] - 1, value=lit(value(c["v"]))), any=True)
        elif op == "look":
            self.add(dict(do="elem", on=q), self.contents(self.kinds[c["q"] - 1], c["vals"]))
        elif op == "parse":
            t, res = c["t"], c["res"]

            def check(got, results):
                if not isinstance(got, list) or len(got) != 2:
                    return "there is no result: %s" % got
                if res["st"] == "any":
                    return
                if (got[1] is not None) != (res["st"] == "err"):
                    return "the error is %s, but it should be %s" % (got[1], res)
                if res["st"] != "err" and (got[0] is None) != (res["st"] == "nil"):
                    return "the result is %s, but it should be %s" % (got, res)
            self.add(call("helpers.Parse" + t, ref(q), lit(name), a=["result"]), check)
            if res["st"] == "ok":
                v = res["v"]
                want = value(v) if v["k"] == "val" else TEXTS[v["x"] - 1][t]
                self.add(dict(do="elem", on="result"), self.same_value(t, want))
        elif op == "segments":
            parts = [PARTS[i - 1] for i in c["parts"]]
            self.add(call("helpers.Segments", lit("/" * c["before"] + "/".join(parts) + "/" * c["after"])), [parts])
        elif op == "pointer":
            t = c["v"]["t"]
            self.add(call("helpers.New" + t, typed(c["v"]), a="p1"), any=True)
            self.add(call("helpers.New" + t, typed(c["v"]), a="p2"), any=True)
            self.add(dict(do="elem", on="p1"), self.same_value(t, value(c["v"])))
            self.add(dict(do="same", on="p1", name="p2"), False)
        else:
            raise NoAnswer("unknown call %s" % op)

    def translate(self, h):
        for c in h["calls"]:
            self.step(c)
        for i, s in enumerate(h["sets"]):
            self.add(dict(do="elem", on="q%d" % (i + 1)), self.contents(s["kind"], s["vals"]))
        return self.ops


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)

    def texts(xs):
        return tla_seq("[%s]" % ", ".join("%s |-> %s" % (k, q(st(x, k))) for k in TYPES) for x in xs)
    base = dict(Random="TRUE", NameCount=str(len(NAMES)), SameHeader=tla_seq(str(x) for x in SAME_HEADER), PoolSize="5", Texts=texts(TEXTS),
                Parts=str(len(PARTS)), MaxParts="6", OpKinds=tla_seq(q(x) for x in QMIX), OpCount="40", HistCount="100")
    jobs = [(base, (20 if t else 3), 100 * 42 + 50, rng.randrange(1 << 30)) for _ in range(8 if t else 4)]
    # Histories with only one name, where values are repeated:
    one = dict(base, NameCount="2", SameHeader="<<1, 2>>", OpKinds=tla_seq(q(x) for x in QMIX[:-6]))
    jobs += [(one, 5 if t else 1, 100 * 42 + 50, rng.randrange(1 << 30)) for _ in range(2)]
    # All the short histories: each type and each value and text alone, and then pairs of a few of them.
    def short(n, count, ops, **kw):
        c = dict(base, Random="FALSE", NameCount=str(n), SameHeader=tla_seq(str(i + 1) for i in range(n)), OpKinds=tla_seq(q(x) for x in ops), OpCount=str(count), HistCount="1")
        return (dict(c, **kw), 0, None, None)
    jobs += [short(1, 3, ["add", "text", "parse"]),
             short(1, 2, ["segments"], Parts="2", MaxParts="4"),
             short(1, 5 if t else 4, ["add", "text", "copy", "parse", "look"], PoolSize="1", Texts=texts(TEXTS[:2]))]

    def go(j):
        return ctx.tlc("Query", j[0], QINV, simulate=j[1] or None, depth=j[2], seed=j[3], heap="3g")
    hists = []
    for cs in ctx.map(go, jobs, jobs=6):
        hs = [h for c in cs for h in c["hists"]]
        hists += hs if t or len(hs) < 6000 else rng.sample(hs, 6000)
    c = dict(model=GIVEN, hists=hists)
    ctx.traces += len(hists)
    calls = [x for h in hists for x in h["calls"]]
    ctx.notes["operations"] = {k: sum(x["op"] == k for x in calls) for k in sorted({x["op"] for x in calls})}
    ctx.notes["readings"] = {k: sum(x["op"] == "parse" and x["res"]["st"] == k for x in calls) for k in ("nil", "ok", "err", "any")}
    replay(ctx, [c], ctx.seed * 7919, "history", Query)
    ctx.samples += [dict(history=hists[0])]
    return ctx.finish(bounds="all the histories of two to four calls with one name, %d texts and the values of each type, and simulated histories of 40 calls with %d names" % (len(TEXTS), len(NAMES)))


if __name__ == "__main__":
    main(run)
