"""D07: errors."""
import documents
from documents import *

EINV = ["ErrorsComeBack", "MessagesAreComplete", "FieldsFollowHistory", "Emission"]
EMIX = ["enew"] + ["eset"] * 8 + ["eclear"] + ["ecopy"] * 2 + ["ecopynil"] + ["ebuild"] * 4 + ["eshow"] * 3 + ["ewrite", "etrip", "etrip"] + \
       ["eload"] * 3 + ["unknown", "corrupt"] + ["eread"] * 3 + ["esend"] * 4 + ["efixed", "enil"]
FIELDS = ["Status", "ID", "HREF", "Code", "Reason", "OperationID", "Details", "Timestamp"]
LONG2 = POOLS["String"][2]
VALUES = [
    [0, 500, 404, -1, 200, 503],
    ["404", "", "503", LONG2, "400", "a"],
    ["", "/api/errors/4", LONG2, "x", "%s", "/"],
    ["", "CLUSTERS-MGMT-404", LONG2, "0", "%d", "404"],
    ["", "It failed: 100%", LONG2, "unknown error", "a and b", "status is 404"],
    ["", "1234", LONG2, "'", "c", "0"],
    ["", 1.5, True, {"k": None, "l": [1.0, "a"]}, [{"a": "b"}, 2.0], 0.0],
    ["2020-01-02T03:04:05Z", "1999-12-31T23:59:59Z", "2021-06-01T00:00:00+02:00", "2020-01-02T03:04:05.123456789Z", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z"],
]
NUMERIC = [0, 2, 4]
STATUSES = [400, 418, 503]


class Errors(Documents):
    def __init__(self, model):
        super().__init__(model)
        self.e = 0

    def token(self, k):
        if k["k"] == "s" and "f" in k:
            x = VALUES[k["f"] - 1][k["x"]]
            return self.string(x) if isinstance(x, str) else json.dumps(x)
        return super().token(k)

    def error(self, e, status=None):
        attrs = {}
        for i, (n, x) in enumerate(zip(FIELDS, e)):
            if x["p"]:
                value = VALUES[i][x["v"]["x"]]
            else:
                value = 0 if i == 0 else None if i >= 6 else ""
            attrs[n] = dict(ok=x["p"], get=value, plain=value)
        if status:
            attrs["Status"] = dict(ok=True, get=status, plain=status)
        return dict(type="Error", kind="Error", attrs=attrs)

    def see(self, name, v, status=None):
        self.add(dict(do="observe", on=name), self.error(v, status))

    def part(self, p):
        if p["k"] == "text":
            return p["s"]
        v = VALUES[p["i"] - 1][p["x"]]
        if p["i"] == 8:
            return re.sub(r"\.\d+", "", v)
        return str(v)

    def marshal_error(self, name, w):
        self.add(call("errors.MarshalError", ref(name), dict(buf=w)), [None])

    def same_body(self, toks):
        want = parse(self.text(toks, 0))

        def check(text):
            try:
                tree = parse(text)
            except Exception as e:
                return "the body isn't correct, %s: %s" % (e, text[:500])
            if not same(tree, want):
                return "%s in document %s" % (where(tree, want), text[:500])
        return check

    def step(self, c):
        op = c["op"]
        if op == "enew":
            self.b += 1
            self.add(call("errors.NewError", a="b%d" % self.b), any=True)
        elif op == "eset":
            v = VALUES[c["i"] - 1][c["x"]]
            self.add(method("b%d" % c["b"], FIELDS[c["i"] - 1], dict(time=v) if c["i"] == 8 else lit(v)), any=True)
        elif op == "efill":
            self.b += 1
            self.add(call("errors.NewError", a="b%d" % self.b), any=True)
            for i in self.rng.sample(c["f"], len(c["f"])):
                v = VALUES[i - 1][c["x"]]
                self.add(method("b%d" % self.b, FIELDS[i - 1], dict(time=v) if i == 8 else lit(v)), any=True)
        elif op == "eclear":
            self.add(method("b%d" % c["b"], "Timestamp", NIL), any=True)
        elif op == "ecopy":
            self.add(method("b%d" % c["b"], "Copy", ref("e%d" % c["e"])), any=True)
        elif op == "ecopynil":
            self.add(method("b%d" % c["b"], "Copy", NIL), any=True)
        elif op == "ebuild":
            self.e += 1
            self.add(method("b%d" % c["b"], "Build", a=["e%d" % self.e, "err"]), [dict(obj="Error"), None])
            self.see("e%d" % self.e, c["v"])
        elif op == "eshow":
            text = "".join(self.part(p) for p in c["parts"]) or "unknown error"
            self.add(method("e%d" % c["e"], "Error"), [text])
            self.add(method("e%d" % c["e"], "String"), [text])
        elif op == "ewrite":
            self.marshal_error("e%d" % c["e"], "w")
            self.written("w", c["toks"])
        elif op == "etrip":
            self.marshal_error("e%d" % c["e"], "w")
            self.e += 1
            self.add(call("errors.UnmarshalError", {"from": "w", "how": self.rng.choice(["string", "bytes", "reader"])}, a=["e%d" % self.e, "err"]), [dict(obj="Error"), None])
            self.see("e%d" % self.e, c["v"])
        elif op == "eread":
            text = self.text(c["toks"])
            src = self.source(text)
            if c["keep"]:
                self.e += 1
            name = "e%d" % self.e if c["keep"] else "other"
            status = STATUSES[c["s"] - 1] if c["s"] else None
            args = [src] + ([lit(status)] if status else [])
            fn = "errors.UnmarshalErrorStatus" if status else "errors.UnmarshalError"
            if c["st"] == "ok":
                self.add(call(fn, *args, a=[name, "err"]), [dict(obj="Error"), None])
                self.see(name, c["v"], status)
            elif c["st"] == "err":
                def check(got, results):
                    if not isinstance(got, list) or len(got) != 2 or got[1] is None:
                        return "there is no error for %s: %s" % (text[:1000], got)
                self.add(call(fn, *args, a=[name, "err"]), check)
            else:
                self.add(call(fn, *args, a=[name, "err"]), any=True)
        elif op == "esend":
            self.add(dict(do="recorder", **{"as": ["rec"]}), any=True)
            self.add(call("errors.SendError", ref("rec"), dict(request="/api/x"), ref("e%d" % c["e"])), any=True)
            if c["good"]:
                status = int(VALUES[1][c["id"]["x"]])
                body = self.same_body(c["toks"])

                def check(got, results):
                    if not isinstance(got, dict) or "status" not in got:
                        return "there is no answer: %s" % got
                    if got["status"] != status:
                        return "the status is %s instead of %s" % (got["status"], status)
                    if got["headers"].get("Content-Type") != ["application/json"]:
                        return "the headers are %s" % got["headers"]
                    return body(got["body"])
                self.add(dict(do="recorded", on="rec"), check)
        elif op == "efixed":
            self.add(dict(do="recorder", **{"as": ["rec"]}), any=True)
            self.add(call("errors.Send" + c["w"], ref("rec"), dict(request="/api/x")), any=True)
            status = dict(NotFound=404, MethodNotAllowed=405, InternalServerError=500)[c["w"]]

            def check(got, results):
                if not isinstance(got, dict) or got.get("status") != status:
                    return "the answer isn't %s: %s" % (status, got)
                try:
                    tree = parse(got["body"])
                except Exception as e:
                    return "the body isn't correct: %s" % got["body"][:500]
                if not isinstance(tree, dict) or tree.get("kind") != "Error" or tree.get("id") != str(status) or not tree.get("reason"):
                    return "the body is %s" % got["body"][:500]
            self.add(dict(do="recorded", on="rec"), check)
        elif op == "enil":
            self.add(dict(do="nil", fn="errors.Error", **{"as": ["n"]}), any=True)
            want = self.error([dict(p=False)] * 8)
            want["kind"] = "ErrorNil"
            self.add(dict(do="observe", on="n"), want)
        else:
            raise NoAnswer("unknown call %s" % op)

    def translate(self, h):
        for e in self.m.v["errors"]:
            self.add(dict(do="const", fn=self.m.fn(camel(e["n"]) + "Error")), e["code"])
        for c in h["calls"]:
            self.step(c)
        for i, v in enumerate(h["errors"], 1):
            self.see("e%d" % i, v)
        return self.ops


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    base = dict(PoolSize="6", OpKinds=tla_seq(q(x) for x in EMIX), MaxItems="3", Given="<<>>", GivenObjects="<<>>",
                NumericIds=tla_set(str(x) for x in NUMERIC), StatusCodes=tla_set(str(i + 1) for i in range(len(STATUSES))))
    runs = []
    for _ in range(4 if t else 2):
        p = plan(rng, types=2, attrs=2, resources=0, methods=0, errors=12)
        c = constants(p)
        c.update(base)
        c.update(HistCount="60", OpCount="40")
        runs.append((c, 4, len(p) + 60 * 41 + 50, rng.randrange(1 << 30)))
    cases = []
    for cs in ctx.map(lambda r: ctx.tlc("Errors", r[0], EINV, init="EInit", next="ENext", simulate=r[1], depth=r[2], seed=r[3], heap="2g"), runs, jobs=4):
        cases += cs
    model = cases[0]["model"]
    c = constants([], random=False)
    c.update(base)
    c.update(Given=tla(model), PoolSize="1", OpKinds=tla_seq(q(x) for x in ["eset", "eclear", "ebuild", "ecopy", "eshow", "esend"]), HistCount="1", OpCount="5" if t else "4")
    cs = ctx.tlc("Errors", c, EINV, init="EInit", next="ENext", properties=["ErrorsAreImmutable"], heap="6g", workers=1)
    c.update(PoolSize="2", OpKinds=tla_seq(q(x) for x in ["efill", "ebuild", "eshow", "etrip", "esend"]), OpCount="4")
    cs += ctx.tlc("Errors", c, EINV, init="EInit", next="ENext", properties=["ErrorsAreImmutable"], heap="6g", workers=1)
    short = [h for x in cs for h in x["hists"] if h["errors"]]
    ctx.notes["short_histories"] = len(short)
    if len(short) > (40000 if t else 8000):
        short = rng.sample(short, 40000 if t else 8000)
    cases.append(dict(model=model, hists=short))
    n = 4 if t else 2
    ctx.map(lambda i: replay(ctx, cases[i::n], ctx.seed * 7919 + i, "history", Errors), range(n), jobs=2)
    ctx.traces += sum(len(c["hists"]) for c in cases)
    ctx.notes["models"] = len(cases)
    ctx.samples += [dict(model=cases[0]["model"], history=cases[0]["hists"][0])]
    return ctx.finish(bounds="all the histories of a few calls with one value per field, and simulated histories of 40 calls with six values per field")


if __name__ == "__main__":
    main(run)
