"""Constants and rendering for the models that the ModelGen specification generates."""
from vlib import *

WORDS = [("cluster", "Cluster"), ("node", "Node"), ("pool", "Pool"), ("group", "Group"), ("user", "User"), ("color", "Color"),
         ("url", "URL"), ("aws", "AWS"), ("quota", "Quota"), ("addon", "Addon"), ("type", "Type"), ("region", "Region"),
         ("range", "Range"), ("cpu", "CPU"), ("value", "Value"), ("name", "Name"), ("day", "Day"), ("label", "Label"),
         ("network", "Network"), ("version", "Version"), ("default", "Default"), ("object", "Object"), ("count", "Count"),
         # Words that mean something in Go, or that the generated code uses:
         ("func", "Func"), ("var", "Var"), ("package", "Package"), ("import", "Import"), ("interface", "Interface"), ("struct", "Struct"),
         ("select", "Select"), ("return", "Return"), ("string", "String"), ("time", "Time"), ("stream", "Stream"), ("iterator", "Iterator"),
         ("result", "Result"), ("context", "Context"), ("field", "Field"), ("item", "Item"), ("key", "Key"), ("index", "Index"), ("nil", "Nil"),
         ("builder", "Builder"), ("client", "Client"), ("present", "Present"),
         ("status", "Status"), ("error", "Error"), ("header", "Header"), ("path", "Path"), ("query", "Query"), ("err", "Err"),
         ("transport", "Transport"), ("parameter", "Parameter"), ("send", "Send"), ("request", "Request"), ("response", "Response"),
         ("defer", "Defer"), ("fallthrough", "Fallthrough"), ("map", "Map"), ("goto", "Goto")]
BY = dict(WORDS)
SINGLE = ["cluster", "pool", "group", "user", "color", "url", "aws", "quota", "addon", "region", "network", "version", "label",
          "type", "range", "default", "name", "day", "cpu", "value", "object", "count", "func", "var", "package", "import", "struct",
          "select", "return", "time", "stream", "iterator", "result", "context", "field", "item", "key", "index", "nil", "present",
          "status", "error", "header", "path", "query", "err", "transport", "parameter", "send", "defer", "fallthrough", "map", "goto"]
DOUBLE = ["cluster_node", "aws_region", "user_quota", "cluster_url", "node_cpu", "label_value", "name_type", "default_value",
          "group_version", "url_pool", "interface_string", "time_builder", "url_client"]
SERVICES = [("shop", "v1"), ("fruit_market", "v1"), ("shop", "v2"), ("fruit_market", "v2_alpha1"), ("zoo", "v1")]
BASICS = ["Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"]
KINDS = ["Add", "Get", "Update", "AsyncUpdate", "Delete", "AsyncDelete", "List", "Search", "Post", "Action"]


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def tla_set(xs):
    return "{%s}" % ", ".join(xs)


def tla_seq(xs):
    return "<<%s>>" % ", ".join(xs)


def name(s):
    return tla_seq("W(%s, %s)" % (q(w), q(BY[w])) for w in s.split("_"))


def constants(plan, random=True, names=None, services=None, forms=("plain", "list", "map"), basics=BASICS, kinds=KINDS):
    return dict(
        Plan=tla_seq(q(k) for k in plan), Random="TRUE" if random else "FALSE",
        NamePool=tla_set(name(n) for n in (names or SINGLE + DOUBLE)),
        SvcPool=tla_set(tla_seq([q(a), q(b)]) for a, b in (services or SERVICES)),
        Forms=tla_set(q(f) for f in forms), Basics=tla_set(q(b) for b in basics), MethodKinds=tla_set(q(k) for k in kinds))


def plan(rng, types=6, attrs=12, resources=4, methods=6, annotations=0, errors=0, versions=1):
    """A plan that introduces things before they can be used, with random order otherwise."""
    result = []
    for v in range(versions):
        if v:
            result.append("version")
        ts = [rng.choice(["class", "class", "struct", "enum"]) for _ in range(types)]
        if types > 1:
            ts[0], ts[1] = "class", "enum"
        result += ts + ["value"] * (types if types > 1 else 0)
        rest = ["attr"] * attrs + ["resource"] * resources + ["locator"] * (resources // 3) + ["method"] * methods
        rest += ["input"] * (methods // 2) + ["param"] * methods + ["error"] * errors
        rng.shuffle(rest)
        result += rest
        result += [rng.choice(["json", "http", "go"]) for _ in range(annotations)]
    return result


# -- rendering ---------------------------------------------------------------------------------
def camel(n):
    return "".join(w["c"] for w in n)


def snake(n):
    return "_".join(w["l"] for w in n)


def target(v, t):
    return t["b"] or camel(v["types"][t["i"] - 1]["n"])


def typeref(v, x):
    return {"plain": "", "list": "[]", "map": "[String]"}[x["form"]] + target(v, x["t"])


def annos(x, rng, *kinds):
    result = ""
    for k in rng.sample(list(kinds), len(kinds)):
        if x.get(k):
            result += '@%s(name = "%s")\n' % (k, x[k])
    return result


# Texts for the documentation of elements that shouldn't change anything but descriptions:
TEXTS = [
    "Some text.", "With \"quotes\" and \\ too.", "First line.\n\nSecond paragraph with <b>&amp;.", "\u00dcn\u00efc\u00f6d\u00e9 \u2014 \U0001f600.",
    "Example:\n\n  indented\n    more\n  less\n\nEnd.", "Use `code` and ``more`` here.", "Template {{ .Name }} and %s %d %%.",
    "Two  spaces   and\ta tab.", "Escapes \\n \\t \\u0041 \\\\ \\\" 'x'.", "{\n  \"json\": [\n    1,\n    2\n  ]\n}", "Ends with \\",
    "Comment */ and /* and // marks.", "$HOME ${x} $1 #tag @name.",
]


class Renderer:
    """Renders the declarations of a version. Documentation is added by `doc`, a function that
    receives the path of the element and returns the text, or nothing."""

    def __init__(self, rng, shuffle=True, doc=None):
        self.rng, self.shuffle, self.doc = rng, shuffle, doc or (lambda *path: "")

    def order(self, xs):
        xs = list(xs)
        if self.shuffle:
            self.rng.shuffle(xs)
        return xs

    def head(self, path, x, *kinds):
        doc = self.doc(*path)
        text = "".join("// %s\n" % l if l else "//\n" for l in doc.split("\n")) if doc else ""
        # All the annotations that the element has, used or not:
        return text + annos(x, self.rng, "json", "http", "go")

    @staticmethod
    def indent(text):
        return "".join("  " + l + "\n" if l else "\n" for l in text.rstrip("\n").split("\n"))

    def block(self, head, members):
        return "%s {\n%s}\n" % (head, "".join(self.indent(x) for x in members))

    def type(self, v, t):
        n = camel(t["n"])
        members = []
        for x in t["values"]:
            members.append(self.head((n, camel(x["n"])), x, "json", "go") + camel(x["n"]) + "\n")
        for a in t["attrs"]:
            members.append(self.head((n, camel(a["n"])), a, "json", "go") +
                           "%s%s %s\n" % ("link " if a["link"] else "", camel(a["n"]), typeref(v, a)))
        return self.block(self.head((n,), t, "go") + "%s %s" % (t["kind"], n), self.order(members))

    def resource(self, v, r):
        n = camel(r["n"])
        members = []
        for m in r["methods"]:
            mn = camel(m["n"])
            ps = []
            for p in m["params"]:
                dflt = " = " + p["dflt"] if p["dflt"] else ""
                ps.append(self.head((n, mn, camel(p["n"])), p, "json", "http", "go") +
                          ("%s %s %s%s" % (p["dir"], camel(p["n"]), typeref(v, p), dflt)).strip() + "\n")
            members.append(self.block(self.head((n, mn), m, "http", "go") + "method " + mn, self.order(ps)))
        for l in r["locators"]:
            ln = camel(l["n"])
            parts = ["target %s\n" % camel(v["resources"][l["target"] - 1]["n"])]
            if l["var"]:
                parts.append("variable ID\n")
            members.append(self.block(self.head((n, ln), l, "http", "go") + "locator " + ln, self.order(parts)))
        return self.block(self.head((n,), r, "go") + "resource " + n, self.order(members))

    def error(self, e):
        n = camel(e["n"])
        return self.block(self.head((n + "Error",), e) + "error " + n, ["code %d\n" % e["code"]])

    def declarations(self, v):
        return [self.type(v, t) for t in v["types"]] + [self.resource(v, r) for r in v["resources"]] + [self.error(e) for e in v["errors"]]

    def files(self, model, rename=lambda s: s, pieces=None):
        result = {}
        for v in model:
            ds = self.order(self.declarations(v))
            k = pieces or self.rng.randint(1, 4)
            base = "%s/%s" % (rename(v["svc"]), v["ver"])
            for d in ds:
                f = "%s/f%d.model" % (base, self.rng.randrange(k))
                result[f] = result.get(f, "") + d + "\n"
        return result
