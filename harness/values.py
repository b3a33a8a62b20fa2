"""Meaning of the values of the specifications: Go literals, JSON texts and what the getters return."""
from modelgen import *
from gowork import *

LONG = "x" * 300
POOLS = {
    "Boolean": [False, True],
    "Integer": [0, 1, -7, 2147483647, 42],
    "Long": [0, 1, -9223372036854775808, 9223372036854775807, 9007199254740993],
    "Float": [0.0, 1.5, -0.25, 1e21, 1e-7],
    "String": ["", "a", "\u00dcn\u00ef\u2028 <&> \"q\" \\ \n\t\u0001 \U0001f600", "null", LONG],
    "Date": ["0001-01-01T00:00:00Z", "2020-01-02T03:04:05Z", "1999-12-31T23:59:59Z", "2021-06-01T00:00:00+02:00", "1969-07-20T20:17:40-04:00"],
    "Interface": ["", 1.5, True, {"k": None, "l": [1.0, "a"]}, ["x", {"y": False}]],
}
ZERO = {"Boolean": False, "Integer": 0, "Long": 0, "Float": 0.0, "String": "", "Date": "0001-01-01T00:00:00Z", "Interface": None}
KEYS = ["", "key", "k\u00e9y \"2\"", "z", "0"]
UNKNOWN = "something-else"


def go_name(x):
    return x.get("go") or camel(x["n"])


def setter_name(p):
    """Name of the method that sets an input parameter."""
    n = go_name(p)
    return n + "_" if n in ("Header", "Impersonate", "Parameter", "Send", "SendContext") else n


def getter_name(p):
    """Name of the method that returns an output parameter."""
    n = go_name(p)
    return n + "_" if n in ("Error", "Header", "Status") else n


def wire_name(x):
    return x.get("json") or snake(x["n"])


def tla(x):
    """TLA+ text of a JSON value."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, (int, float)):
        return str(x)
    if isinstance(x, str):
        return q(x)
    if isinstance(x, list):
        return tla_seq(tla(y) for y in x)
    return "[%s]" % ", ".join("%s |-> %s" % (k, tla(y)) for k, y in x.items())


class AbsentOrEmpty:
    """An attribute whose container was null."""

    def __repr__(self):
        return "absent or empty"

    def matches(self, a):
        if isinstance(a, dict) and set(a) == {"ok", "get", "plain"}:
            return same(a["get"], a["plain"]) and (self.empty(a["get"]) or not a["ok"] and a["get"] is None)
        return a is None or self.empty(a)

    def empty(self, a):
        return a in ([], {}) or a is None or isinstance(a, dict) and a.get("empty") is True


class Either:
    def __repr__(self):
        return "true or false"

    def matches(self, a):
        return isinstance(a, bool)


class Model:
    """The first version of a model that was generated by a specification, with its Go names."""

    def __init__(self, model, service):
        self.v = model[0]
        self.pkg = "%s/%s" % (service.replace("_", ""), self.v["ver"].replace("_", ""))
        self.types = self.v["types"]

    def fn(self, name):
        return "%s.%s" % (self.pkg, name)

    def kind(self, t):
        return "basic" if t["b"] else self.types[t["i"] - 1]["kind"]

    def is_scalar(self, t):
        return self.kind(t) in ("basic", "enum")

    def scalar(self, t, x):
        if t["b"]:
            return POOLS[t["b"]][x]
        values = self.types[t["i"] - 1]["values"]
        return UNKNOWN if x == 0 else wire_name(values[x - 1])

    def zero(self, t):
        return ZERO[t["b"]] if t["b"] else ""

    # What the getters return, as the driver describes it:
    def seen(self, a, v):
        """Value of an attribute or of an item."""
        if v["k"] == "s":
            return self.scalar(a["t"], v["x"])
        if v["k"] == "l":
            return [self.seen(a, x) for x in v["xs"]]
        if v["k"] == "m":
            return {KEYS[k]: self.seen(a, x) for k, x in zip(v["ks"], v["xs"])}
        if v["k"] == "o":
            return self.object(v)
        if v["k"] == "L":
            return self.list(v)
        if v["k"] == "z":
            return AbsentOrEmpty()

    def optional(self, x):
        value = POOLS["String"][x["v"]["x"]] if x["p"] else ""
        return dict(ok=x["p"], get=value, plain=value)

    def object(self, o):
        t = self.types[o["t"] - 1]
        attrs = {}
        empty = True
        for a, x in zip(t["attrs"], o["vals"]):
            if x["p"] and x["v"]["k"] == "z":
                empty = Either() if empty else False
                attrs[go_name(a)] = AbsentOrEmpty()
                continue
            if x["p"]:
                empty = False
                value = self.seen(a, x["v"])
            else:
                value = None if a["form"] != "plain" or not self.is_scalar(a["t"]) else self.zero(a["t"])
            attrs[go_name(a)] = dict(ok=x["p"], get=value, plain=value)
        r = dict(type=go_name(t))
        if t["kind"] == "class":
            attrs["ID"] = self.optional(o["id"])
            attrs["HREF"] = self.optional(o["href"])
            if o["id"]["p"] or o["href"]["p"]:
                empty = False
            r.update(kind=go_name(t) + ("Link" if o["link"] else ""), link=o["link"])
        r["empty"] = empty
        if attrs:
            r["attrs"] = attrs
        return r

    def list(self, o):
        t = self.types[o["t"] - 1]
        items = [self.object(x) for x in o["items"]]
        r = dict(type=go_name(t) + "List", len=len(items), empty=not items, slice=items, items=items or AbsentOrEmpty())
        if t["kind"] == "class":
            r.update(kind=go_name(t) + "List" + ("Link" if o["link"] else ""), link=o["link"], attrs=dict(HREF=self.optional(o["href"])))
        return r

    def value(self, v):
        return self.object(v) if v["k"] == "o" else self.list(v)

    def nil_object(self, t):
        o = dict(t=t, link=False, id=dict(p=False), href=dict(p=False), vals=[dict(p=False)] * len(self.types[t - 1]["attrs"]))
        r = self.object(o)
        if "kind" in r:
            r["kind"] += "Nil"
        return r

    def nil_list(self, t):
        r = self.list(dict(t=t, items=[], link=False, href=dict(p=False)))
        if "kind" in r:
            r["kind"] += "Nil"
        return r


def same(a, b):
    """Compares what was observed with what was expected. Sets of fields have to be the same, except
    that the driver may see additional things."""
    if hasattr(b, "matches"):
        return b.matches(a)
    if isinstance(b, dict) and isinstance(a, dict):
        return set(b) == set(a) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list) and isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) == type(b) and a == b


def where(a, b, path=""):
    """First difference, for the message."""
    if hasattr(b, "matches"):
        return None if b.matches(a) else "%s is %s instead of %s" % (path, json.dumps(a)[:300], b)
    if isinstance(b, dict) and isinstance(a, dict):
        if set(a) != set(b):
            return "%s: fields are %s instead of %s" % (path, sorted(a), sorted(b))
        for k in b:
            r = where(a[k], b[k], path + "." + str(k))
            if r:
                return r
        return None
    if isinstance(b, list) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = where(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if same(a, b) else "%s is %s instead of %s" % (path or "value", str(json.dumps(a))[:300], str(json.dumps(b))[:300])
