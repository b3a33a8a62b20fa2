"""H07: polling."""
import client
from client import *

PINV = ["PollsStopWhenTheyShould", "RunningIsJustified", "ClientsFollowPaths", "Emission"]
PMIX = ["new"] + ["set"] * 3 + ["ident", "build", "build"] + ["nav"] * 3 + ["newpoll"] * 5 + ["input", "input", "extra", "head"] + \
       ["interval"] * 6 + ["status"] * 2 + ["predicate"] * 2 + ["poll"] * 12


def word(l):
    return [dict(l=l, c=l.capitalize())]


GIVEN = [dict(svc="zoo", ver="v1", errors=[], types=[
    dict(kind="class", n=word("cluster"), go="", values=[], attrs=[
        dict(n=word("name"), form="plain", t=dict(b="String", i=0), link=False, json="", go="")])],
    resources=[
        dict(n=word("root"), go="", methods=[], locators=[dict(n=word("cluster"), target=2, var=False, http="", go="")]),
        dict(n=word("cluster"), go="", locators=[], methods=[dict(kind="Get", n=word("get"), http="", go="", params=[
            dict(n=word("body"), dir="out", form="plain", t=dict(b="", i=1), dflt="", json="", http="", go="")])])])]


class Poll(Client):
    bubble = True

    def __init__(self, model):
        super().__init__(model)
        self.polls, self.sent = 0, 0
        self.check_requests = False

    def observe(self, name, v):
        """The objects are the business of other properties."""

    def answer(self, a):
        r = dict(status=a["status"], headers=dict(ANSWER_HEADS[a["head"]]), body="", err="", body_err="", delay_ms=a["delay"])
        if a["kind"] == "fail":
            r["err"] = "the transport failed"
        if a["kind"] == "broken":
            r["body_err"] = "the body failed"
        if a["toks"]:
            r["body"] = self.text(a["toks"])
        if a["pass"]:
            r["headers"]["X-Pass"] = ["p%d" % i for i in a["pass"]]
        return r

    def poll(self, c):
        self.polls += 1
        q, cfg, tries = c["q"], c["cfg"], c["tries"]
        answers = [self.answer(t["ans"]) for t in tries]
        # If there are more requests than there should then they get an answer that is accepted, so that the loop ends:
        extra = dict(status=(cfg["statuses"] or [200])[0], headers={"X-Pass": ["p%d" % i for i in range(1, cfg["preds"] + 1)]}, body="", err="", body_err="")
        self.add(dict(do="responses", on="transport", responses=answers + [extra]), any=True)
        self.add(dict(do="now"), any=True)
        start = len(self.ops) - 1
        resp, err = "resp%d" % self.polls, "err%d" % self.polls
        args = {}
        if c["timeout"]:
            args["timeout_ms"] = c["timeout"]
        if c["cancel"]:
            args["cancel_ms"] = c["cancel"]
        res = c["res"]
        # Nothing is said about requests that are made after the context was cancelled:
        cut = bool(tries) and tries[-1]["lost"] and c["cancel"] and c["cancel"] < tries[-1]["at"]
        story = "interval %d, timeout %d, cancelled at %d, statuses %s, %d predicates, answers %s" % (
            cfg["interval"], c["timeout"], c["cancel"], cfg["statuses"], cfg["preds"],
            [dict(status=r["status"], passes=r["headers"].get("X-Pass", []), delay=r["delay_ms"], err=r["err"]) for r in answers])

        def result(got, results):
            if not isinstance(got, list) or len(got) != 2:
                return "there is no result: %s: %s" % (got, story)
            if res["st"] in ("fail", "err") and got[1] is None:
                return "there is no error: %s" % story
            if res["st"] == "fail" and got[0] is not None:
                return "there is a response although the last request failed: %s" % story
            if res["st"] == "ok" and (got[1] is not None or got[0] is None):
                return "the result is %s: %s" % (got, story)
            if res["st"] == "error" and (got[0] is None or not isinstance(got[1], dict) or got[1].get("type") != "*errors.Error"):
                return "the result is %s: %s" % (got, story)
        self.add(method("q%d" % q, "StartContext", dict(ctx=args), a=[resp, err]), result)

        def ended(got, results):
            took = got - results[start]
            if (took < c["cancel"] or took > c["end"]) if cut else took != c["end"]:
                return "it ended after %d ms instead of %d: %s" % (took, c["end"], story)
        self.add(dict(do="now"), ended)

        def requests(got, results):
            if not isinstance(got, list):
                return "there are no requests: %s" % got
            seen = len(results[requests.previous]) if requests.previous else 0
            at = [r["at"] - results[start] for r in got[seen:]]
            want = [t["at"] for t in tries]
            if at != want and not (cut and at == want[:-1]):
                return "the requests were made at %s instead of %s: %s" % (at, want, story)
            for i, r in enumerate(got[seen:]):
                text = self.request_differs(c["sent"], True, r)
                if text:
                    return "request %d: %s" % (i + 1, text)
        requests.previous = self.sent
        self.add(dict(do="requests", on="transport"), requests)
        self.sent = len(self.ops) - 1
        if res["st"] not in ("ok", "error"):
            return
        a = tries[-1]["ans"]
        self.add(method(resp, "Status"), [a["status"]])
        self.add(method(resp, "Header"), [answers[-1]["headers"]])
        if res["st"] == "error":
            self.add(method(resp, "Error", a="x"), [dict(obj="Error")])
            self.add(dict(do="observe", on="x"), self.error_object(a["status"], res["vals"]))
            return
        self.add(method(resp, "Error"), [None])
        want = self.response(q, res["vals"])
        r = self.requests[q - 1][0]
        want["type"] = ("" if r == 1 else go_name(self.m.v["resources"][r - 1])) + "PollResponse"
        self.add(dict(do="observe", on=resp), want)

    def step(self, c):
        op, name = c["op"], "q%d" % c.get("q", 0)
        if op == "newpoll":
            self.q += 1
            self.requests.append((self.clients[c["c"] - 1], c["x"]))
            self.add(method("c%d" % c["c"], "Poll", a="q%d" % self.q), any=True)
            self.preds = getattr(self, "preds", {})
        elif op == "interval":
            self.add(method(name, "Interval", lit(c["x"] * 1000000)), any=True)
        elif op == "configure":
            for x in [dict(op="interval", x=c["x"])] + [dict(op="status", x=y) for y in c["ss"]] + [dict(op="predicate")] * c["n"]:
                self.step(dict(x, q=c["q"]))
        elif op == "status":
            self.add(method(name, "Status", lit(c["x"])), any=True)
        elif op == "predicate":
            self.preds[c["q"]] = self.preds.get(c["q"], 0) + 1
            self.add(method(name, "Predicate", dict(cb={"as": "cb", "header": "X-Pass", "value": "p%d" % self.preds[c["q"]]})), any=True)
        elif op == "poll":
            self.poll(c)
        else:
            super().step(c)


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = random.Random(ctx.seed)
    base = dict(PoolSize="5", OpKinds=tla_seq(q(x) for x in PMIX), MaxItems="3", Given="<<>>", GivenObjects="<<>>",
                BaseCount=str(len(BASES)), IdCount=str(len(IDS)), HeadCount="2",
                Intervals="{-2, 0, 2, 4, 10, 10, 100}", Timeouts="{0, 1, 7, 15, 33, 101, 1001, 4001}", Patience="{0, 0 + 1, 3, 12, 40, 100}", Cancels="{0, 1, 9, 41}",
                Delays="{0, 2, 6, 30}", Expected="{200, 404, 202, 500, 399}", Statuses="{200, 404, 202, 500, 100 + 299, 201}",
                Kinds=tla_set(q(k) for k in ("good", "empty", "fail", "broken", "mistake")), MaxPreds="3", MaxExpected="3")
    runs = []

    def add(p, n, hists, calls, **kw):
        c = constants(p, **kw)
        c.update(base)
        c.update(HistCount=str(hists), OpCount=str(calls))
        runs.append((c, n, len(p) + hists * (calls + 500) + 50, rng.randrange(1 << 30)))

    p = ["class", "struct", "enum", "value", "value", "attr", "attr", "attr", "attr", "resource", "resource", "locator"] + ["method"] * 3 + \
        ["input"] * 3 + ["json", "http", "go", "http"]
    for _ in range(6 if t else 3):
        add(p, 4 if t else 2, 25, 60, kinds=["Get"])

    def one(r):
        return ctx.tlc("Poll", r[0], PINV, init="PInit", next="PNext", simulate=r[1], depth=r[2], seed=r[3], heap="2g")
    cases = []
    for cs in ctx.map(one, runs, jobs=6):
        cases += cs
    # All the polls with a few values for each of the parameters:
    c = constants([], random=False)
    c.update(base)
    c.update(Given=tla(GIVEN), PoolSize="1", OpKinds=tla_seq(q(x) for x in ["nav", "newpoll", "configure", "poll"]),
             HistCount="1", OpCount="5", BaseCount="1", Intervals="{0, 4}", Timeouts="{0, 3, 13, 17}" if t else "{0, 3, 13}", Cancels="{0, 5}",
             Delays="{0, 4}", Expected="{200, 404}", Statuses="{200, 404}", Kinds=tla_set(q(k) for k in ("empty", "fail")), MaxPreds="1", MaxExpected="2")
    cs = ctx.tlc("Poll", c, PINV, init="PInit", next="PNext", heap="6g", workers=1)
    short = [h for x in cs for h in x["hists"] if any(y["op"] == "poll" for y in h["calls"])]
    ctx.notes["short_histories"] = len(short)
    if len(short) > (40000 if t else 8000):
        short = rng.sample(short, 40000 if t else 8000)
    cases.append(dict(model=GIVEN, hists=short))
    n = 4 if t else 2
    ctx.map(lambda i: replay(ctx, cases[i::n], ctx.seed * 7919 + i, "history", Poll), range(n), jobs=2)
    ctx.traces += sum(len(c["hists"]) for c in cases)
    ctx.notes["models"] = len(cases)
    polls = [y for c in cases for h in c["hists"] for y in h["calls"] if y["op"] == "poll"]
    ctx.notes["polls"] = {k: sum(y["why"] == k for y in polls) for k in ("accepted", "failed", "deadline", "refused")}
    ctx.notes["attempts"] = sum(len(y["tries"]) for y in polls)
    ctx.samples += [dict(model=cases[0]["model"], history=cases[0]["hists"][0])]
    return ctx.finish(bounds="all the histories of a few calls on one resource with two intervals, deadlines, cancellations, delays, statuses and predicates, and simulated histories of 60 calls")


if __name__ == "__main__":
    main(run)
