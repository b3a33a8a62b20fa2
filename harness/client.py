"""H01 and H02: requests and responses of the generated client."""
import documents
from documents import *

CINV = ["ClientsFollowPaths", "SentFollowsHistory", "SentAgreesWithOperations", "AnswersComeBack", "FlightsFollowHistory", "Emission"]
BUILD = ["new"] * 2 + ["set"] * 6 + ["nest"] * 3 + ["ident"] * 2 + ["build"] * 3 + ["newlist", "items", "get"]
CMIX = {
    "H01": BUILD + ["nav"] * 4 + ["request"] * 4 + ["metadata"] + ["input"] * 10 + ["want"] * 4 + ["extra"] * 2 + ["head"] * 2 + ["prepare"] + ["send"] * 4 + ["start"] * 3 + ["advance"] * 4,
    "H02": BUILD + ["nav"] * 3 + ["request"] * 4 + ["metadata"] + ["input"] * 4 + ["want"] * 6 + ["prepare"] * 6 + ["error"] * 2 + ["unknown", "corrupt", "corrupt"] + ["send"] * 4 + ["start"] * 3 + ["advance"] * 5,
}
BASES = ["/api/shop/v1", "/x", "/", "/a/b c/d", "/api/\u00fc"]
IDS = ["123", "a b", "\u00dcn\u00ef", "x%2Fy", "q?a=b&c#d", "-", "~tilde;'\"+", "get"]
HEADS = ["X-One", "x-two", "Impersonate-User"]
ANSWER_HEADS = [{}, {"X-Answer": ["a"]}, {"X-Answer": ["a", "b"], "Content-Type": ["application/json"]}]
ERROR_ATTRS = ["Status", "ID", "HREF", "Code", "Reason", "OperationID", "Details", "Timestamp"]
ERROR_TYPES = ["Integer", "String", "String", "String", "String", "String", "Interface", "Date"]


def canonical(name):
    return "-".join(w.capitalize() for w in name.split("-"))


def instant(text):
    import datetime
    return datetime.datetime.fromisoformat(text.replace("Z", "+00:00"))


class Client(Documents):
    def __init__(self, model):
        super().__init__(model)
        self.c, self.q = 0, 0
        self.requests, self.clients, self.sends = [], [], 0
        self.flights = []
        self.check_requests = self.check_results = True

    def method(self, q):
        r, x = self.requests[q - 1]
        return None if x == 0 else self.m.v["resources"][r - 1]["methods"][x - 1]

    def call_name(self, q):
        r, x = self.requests[q - 1]
        if x == 0:
            return "Metadata"
        res = self.m.v["resources"][r - 1]
        return ("" if r == 1 else go_name(res)) + go_name(res["methods"][x - 1])

    def input(self, p, arg):
        k = arg["k"]
        if k == "s":
            return self.lit(p["t"], arg["x"])
        if k == "l":
            return dict(slice=[self.lit(p["t"], x) for x in arg["xs"]])
        if k == "m":
            return dict(map={KEYS[i]: self.lit(p["t"], x) for i, x in zip(arg["ks"], arg["xs"])})
        if k == "o":
            return ref("o%d" % arg["o"])
        if k == "lo":
            return dict(slice=[ref("o%d" % x) for x in arg["os"]])
        return dict(map={KEYS[i]: ref("o%d" % x) for i, x in zip(arg["ks"], arg["os"])})

    def translate(self, h):
        responses = []
        for c in h["calls"]:
            if c["op"] in ("send", "start"):
                a = c["ans"]
                r = dict(status=a["status"], headers=ANSWER_HEADS[a["head"]], body="", err="", body_err="")
                if a["kind"] == "fail":
                    r["err"] = "the transport failed"
                if a["kind"] == "broken":
                    r["body_err"] = "the body failed"
                if a["toks"]:
                    r["body"] = self.text(a["toks"])
                responses.append(r)
        self.responses = responses
        self.add(dict(do="transport", responses=responses, **{"as": ["transport"]}), any=True)
        super().translate(h)
        # Calls that are still in flight:
        for f in range(len(self.flights)):
            while self.flights[f][2] != "done":
                self.advance(f)
        if self.check_requests:
            self.add(dict(do="requests", on="transport"), self.all_requests([c for c in h["calls"] if c["op"] in ("send", "start")]))
        return self.ops

    # -- requests ---------------------------------------------------------------------------
    def segment(self, s):
        if s["k"] == "text":
            return s["s"]
        return IDS[s["x"] - 1] if s["k"] == "id" else BASES[s["x"] - 1]

    def query_matches(self, t, x, text):
        v = self.m.scalar(t, x)
        if t["b"] == "Boolean":
            return text == ("true" if v else "false")
        try:
            if t["b"] in ("Integer", "Long"):
                return text == str(v)
            if t["b"] == "Float":
                return float(text) == v
            if t["b"] == "Date":
                return instant(text) == instant(v)
        except ValueError:
            return False
        return text == v

    def request_differs(self, sent, ctx, r):
        if r["method"] != sent["verb"]:
            return "the verb is %s instead of %s" % (r["method"], sent["verb"])
        path = "/".join(self.segment(s) for s in sent["segs"])
        path = "/" + "/".join(x for x in path.split("/") if x)
        if r["path"] != path:
            return "the path is '%s' instead of '%s'" % (r["path"], path)
        query = {k: list(v) for k, v in (r["query"] or {}).items()}
        want = {}
        for x in sent["query"]:
            want.setdefault(x["n"], ([], []))[0].append(x)
        for x in sent["extras"]:
            want.setdefault(x["n"], ([], []))[1].append(x)
        if set(query) != set(want):
            return "the query parameters are %s instead of %s" % (sorted(query), sorted(want))
        for n, (typed, extra) in want.items():
            got = query[n]
            # The order between those added by the caller and the one of the method doesn't matter:
            orders = [extra[:i] + typed + extra[i:] for i in range(len(extra) + 1)] if typed else [extra]
            if not any(len(o) == len(got) and all(self.query_matches(x["t"], x["x"], g) for x, g in zip(o, got)) for o in orders):
                return "query parameter '%s' is %s instead of %s" % (n, got, [self.m.scalar(x["t"], x["x"]) for x in typed + extra])
        heads = {}
        for x in sent["heads"]:
            heads.setdefault(canonical(HEADS[x["n"] - 1]), []).append(POOLS["String"][x["x"]])
        if (r["headers"] or {}) != heads:
            return "the headers are %s instead of %s" % (r["headers"], heads)
        if not sent["body"]["has"]:
            if r["body"]:
                return "there is a body: %s" % r["body"][:300]
        else:
            try:
                tree = parse(r["body"])
            except Exception as e:
                return "the body isn't correct, %s: %s" % (e, r["body"][:500])
            want = parse(self.text(sent["body"]["toks"], 0))
            if not same(tree, want):
                return "body: %s in %s" % (where(tree, want), r["body"][:500])
        if r["deadline"] != ctx:
            return "the context isn't the one that was given"

    def all_requests(self, sends):
        def check(got, results):
            if not isinstance(got, list):
                return "there are no requests: %s" % got
            for i, (s, r) in enumerate(zip(sends, got)):
                text = self.request_differs(s["sent"], s["ctx"], r)
                if text:
                    return "request %d: %s" % (i + 1, text)
            if len(got) != len(sends):
                return "there were %d requests instead of %d" % (len(got), len(sends))
        return check

    # -- results ----------------------------------------------------------------------------
    def outputs(self, q):
        return [p for p in self.method(q)["params"] if p["dir"] in ("", "out", "in out")]

    def attr_of(self, p, x, items=False):
        if x["p"] and x["v"]["k"] == "z":
            return AbsentOrEmpty()
        if x["p"]:
            v = x["v"]
            if items:
                v = dict(k="L", t=p["t"]["i"], items=v["xs"], link=False, href=dict(p=False))
            value = self.m.seen(p, v)
        else:
            value = None if p["form"] != "plain" or not self.m.is_scalar(p["t"]) else self.m.zero(p["t"])
        return dict(ok=x["p"], get=value, plain=value)

    def response(self, q, vals):
        mt = self.method(q)
        r = dict(type=self.call_name(q) + "Response")
        attrs = {}
        for p, x in zip(self.outputs(q), vals):
            items = mt["kind"] in ("List", "Search") and snake(p["n"]) == "items" and not self.m.is_scalar(p["t"])
            attrs[getter_name(p)] = self.attr_of(p, x, items)
        if attrs:
            r["attrs"] = attrs
        return r

    def error_object(self, status, vals):
        attrs = {}
        for n, b, x in zip(ERROR_ATTRS, ERROR_TYPES, vals):
            value = POOLS[b][x["v"]["x"]] if x["p"] else (None if n == "Timestamp" else ZERO[b])
            attrs[n] = dict(ok=x["p"], get=value, plain=value)
        attrs["Status"] = dict(ok=True, get=status, plain=status)
        return dict(type="Error", kind="Error", attrs=attrs)

    def send(self, c):
        self.sends += 1
        q, a, res = c["q"], c["ans"], c["res"]
        resp, err = "resp%d" % self.sends, "err%d" % self.sends
        args = [dict(ctx=dict(deadline_ms=3600000))] if c["ctx"] else []
        name = "SendContext" if c["ctx"] else "Send"
        n = self.sends
        if c["op"] == "start":
            op = dict(do="start", on="q%d" % q, name=name, args=args, key="transport", **{"as": ["flight%d" % (len(self.flights) + 1)]})
            self.add(op, "stopped")
            self.flights.append([c, n, "out"])
        else:
            self.result(c, n, method("q%d" % q, name, *args, a=[resp, err]))

    def advance(self, f):
        c, n, state = self.flights[f]
        if state == "out":
            self.add(dict(do="answer", on="flight%d" % (f + 1)), lambda got, results: None if got in ("stopped", "done") else "the call is %s" % got)
            self.flights[f][2] = "half"
        else:
            self.flights[f][2] = "done"
            self.result(c, n, dict(do="finish", on="flight%d" % (f + 1), **{"as": ["resp%d" % n, "err%d" % n]}))

    def result(self, c, n, op):
        """What is expected of a call that has finished."""
        q, a, res = c["q"], c["ans"], c["res"]
        resp, err = "resp%d" % n, "err%d" % n

        def check(got, results):
            if not isinstance(got, list) or len(got) != 2:
                return "there is no result: %s" % got
            if res["st"] in ("fail", "err") and got[1] is None:
                return "there is no error for the answer %s" % json.dumps(self.responses[n - 1])[:1000]
            if res["st"] == "fail" and got[0] is not None:
                return "there is a response although the transport failed"
            if res["st"] == "ok" and (got[1] is not None or got[0] is None):
                return "the result is %s for the answer %s" % (got, json.dumps(self.responses[n - 1])[:1000])
            if res["st"] == "error" and (got[0] is None or not isinstance(got[1], dict) or got[1].get("type") != "*errors.Error"):
                return "the result is %s for the answer %s" % (got, json.dumps(self.responses[n - 1])[:1000])
        self.add(op, check if self.check_results else None, any=not self.check_results)
        if self.check_results and res["st"] == "fail":
            # There is no response, and nothing in it:
            self.add(method(resp, "Status"), [0])
            self.add(method(resp, "Error"), [None])
            if self.method(q) is None:
                self.add(method(resp, "Body"), [None])
            else:
                self.add(dict(do="observe", on=resp), self.response(q, [dict(p=False)] * len(self.outputs(q))))
        if not self.check_results or res["st"] not in ("ok", "error"):
            return
        self.add(method(resp, "Status"), [a["status"]])
        want = {k: v for k, v in ANSWER_HEADS[a["head"]].items()}
        self.add(method(resp, "Header"), [want])
        if res["st"] == "error":
            self.add(method(resp, "Error", a="x"), [dict(obj="Error")])
            self.add(dict(do="observe", on="x"), self.error_object(a["status"], res["vals"]))
            # The error that is returned is the same one:
            self.add(dict(do="string", on=err), lambda got, results: None)
            return
        self.add(method(resp, "Error"), [None])
        if self.method(q) is None:
            x = res["vals"][0]
            if a["kind"] == "empty":
                self.add(method(resp, "Body"), [None])
                return
            self.add(method(resp, "Body", a="body"), [dict(obj="Metadata")])
            value = POOLS["String"][x["v"]["x"]] if x["p"] else ""
            self.add(dict(do="observe", on="body"), dict(type="Metadata", attrs=dict(ServerVersion=dict(ok=x["p"], get=value, plain=value))))
            return
        want = self.response(q, res["vals"])
        self.add(dict(do="observe", on=resp), want)
        self.later.append((resp, want))

    def step(self, c):
        m, op = self.m, c["op"]
        if op == "connect":
            self.later = []
            self.c += 1
            self.clients.append(1)
            if c["how"] == "version":
                self.add(call(m.fn("NewClient"), ref("transport"), lit(BASES[c["x"] - 1]), a="c1"), any=True)
            else:
                self.add(call("%s.NewClient" % m.pkg.split("/")[0], ref("transport"), lit(BASES[c["x"] - 1]), a="svc"), any=True)
                version = "".join(w.capitalize() for w in m.v["ver"].split("_"))
                self.add(method("svc", version, a="c1"), any=True)
        elif op == "nav":
            self.c += 1
            l = m.v["resources"][self.clients[c["c"] - 1] - 1]["locators"][c["l"] - 1]
            self.clients.append(l["target"])
            self.add(method("c%d" % c["c"], go_name(l), *([lit(IDS[c["x"] - 1])] if l["var"] else []), a="c%d" % self.c), any=True)
        elif op == "request":
            self.q += 1
            r = self.clients[c["c"] - 1]
            self.requests.append((r, c["x"]))
            mt = self.method(self.q)
            self.add(method("c%d" % c["c"], go_name(mt) if mt else "Get", a="q%d" % self.q), any=True)
        elif op == "input":
            p = self.method(c["q"])["params"][c["i"] - 1]
            self.add(method("q%d" % c["q"], setter_name(p), self.input(p, c["arg"])), any=True)
        elif op == "extra":
            value = m.scalar(c["t"], c["x"])
            arg = dict(time=value) if c["t"]["b"] == "Date" else lit(value)
            self.add(method("q%d" % c["q"], "Parameter", lit(c["n"]), arg), any=True)
        elif op == "head":
            text = lit(POOLS["String"][c["x"]])
            name = HEADS[c["n"] - 1]
            if name == "Impersonate-User":
                self.add(method("q%d" % c["q"], "Impersonate", text), any=True)
            else:
                self.add(method("q%d" % c["q"], "Header", lit(name), text), any=True)
        elif op in ("send", "start"):
            self.send(c)
        elif op in ("answer", "finish"):
            self.advance(c["f"] - 1)
        else:
            super().step(c)


class Requests(Client):
    def __init__(self, model):
        super().__init__(model)
        self.check_results = False


class Results(Client):
    def __init__(self, model):
        super().__init__(model)
        self.check_requests = False

    def observe(self, name, v):
        """The objects are the business of other properties."""

    def translate(self, h):
        super().translate(h)
        for resp, want in self.later:
            self.add(dict(do="observe", on=resp), want)
        return self.ops


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    base = dict(PoolSize="5", OpKinds=tla_seq(q(x) for x in CMIX[ctx.prop]), MaxItems="3", Given="<<>>", GivenObjects="<<>>",
                BaseCount=str(len(BASES)), IdCount=str(len(IDS)), HeadCount=str(len(HEADS)))
    runs = []

    def add(p, n, hists, calls, **kw):
        c = constants(p, **kw)
        c.update(base)
        c.update(HistCount=str(hists), OpCount=str(calls))
        runs.append((c, n, len(p) + hists * (calls + 1) + 50, rng.randrange(1 << 30)))

    for _ in range(10 if t else 4):
        add(plan(rng, types=5, attrs=9, resources=5, methods=14, annotations=6), 2, 20, 60)
        add(plan(rng, types=4, attrs=6, resources=3, methods=10, annotations=2), 2, 20, 60)
    # Models with only one kind of method, where each is used more:
    for k in KINDS:
        add(["class", "struct", "enum", "value", "value", "attr", "attr", "attr", "attr", "resource", "resource"] + ["method"] * 3 +
            ["input", "input", "param", "param", "param", "param", "json", "http", "json", "http", "http"], 6 if t else 2 if "Delete" in k else 3, 14, 50, kinds=[k])

    def one(r):
        return ctx.tlc("Client", r[0], CINV, init="CInit", next="CNext", simulate=r[1], depth=r[2], seed=r[3], heap="2g")
    cases = []
    for cs in ctx.map(one, runs, jobs=6):
        cases += cs
    n = 10 if t else 4
    ctx.map(lambda i: replay(ctx, cases[i::n], ctx.seed * 7919 + i, "history", Requests if ctx.prop == "H01" else Results), range(n), jobs=2)
    ctx.traces += sum(len(c["hists"]) for c in cases)
    ctx.notes["models"] = len(cases)
    sends = [y for c in cases for h in c["hists"] for y in h["calls"] if y["op"] in ("send", "start")]
    ctx.notes["sends"] = len(sends)
    ctx.notes["sends_in_flight"] = sum(y["op"] == "start" for y in sends)
    ctx.notes["results"] = {k: sum(s["res"]["st"] == k for s in sends) for k in ("ok", "error", "err", "fail", "any")}
    ctx.samples += [dict(model=cases[0]["model"], history=cases[0]["hists"][0])]
    return ctx.finish(bounds="simulated histories of 50 to 60 calls on models with up to 5 types, 6 resources and 14 methods of all the kinds, with up to four calls in flight at any time")


if __name__ == "__main__":
    main(run)
