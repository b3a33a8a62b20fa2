"""G02: the reference documentation covers the whole model."""
from modelgen import *

INV = ["PagesSayTheModel", "TablesListTheParts", "FilesAreDistinct", "Emission"]
TEXTS = ["alpha", "Beta", "añadir", "日本", "<b>x</b>", "a&b", '"quoted"', "it's", "%s", "%d%%", "{{x}}", "{{end}}", "`code`", "$HOME", "\\n", "(see", "-", "1,5",
         "don`t", "&lt;", "http://host/path?x=1&y=2", "*bold*", "[link](there)", "/*", "*/", "//", "@json(name", "class", "ß", "🦓"]
IGNORED = {("`kind`",), ("`id`",), ("`href`",)}


def text(words):
    return " ".join(re.sub(r"^t(\d+)$", lambda m: TEXTS[int(m.group(1))], w["w"]) + ("." if w["end"] else "") for w in words)


def render(c, rng):
    docs = {}
    for e, d in c["docs"]:
        v = c["model"][e[0] - 1]
        top = v[e[1] + "s"][e[2] - 1]
        path = [e[0], e[1], camel(top["n"])]
        if len(e) > 3:
            xs = top["values"] + top["attrs"] if e[1] == "type" else top["methods"]
            x = xs[e[3] - 1]
            path.append(camel(x["n"]))
            if len(e) > 4:
                path.append(camel(x["params"][e[4] - 1]["n"]))
        docs[tuple(path)] = "\n".join(text(l) for l in d)
    result = {}
    for i, v in enumerate(c["model"]):
        class R(Renderer):
            def type(self, v, t):
                self.doc = lambda *p: docs.get((i + 1, "type") + p, "")
                return super().type(v, t)

            def resource(self, v, r):
                self.doc = lambda *p: docs.get((i + 1, "resource") + p, "")
                return super().resource(v, r)

            def error(self, e):
                self.doc = lambda *p: ""
                return super().error(e)
        result.update(R(rng).files([v]))
    return result


def parse(page):
    """The sections of a page: level, heading, text and rows."""
    result = []
    for line in page.split("\n"):
        h = re.match(r"(#+) (.*)", line)
        if h:
            result.append(dict(level=len(h.group(1)), title=h.group(2).strip(), text=[], rows=[]))
        elif not result:
            if line.strip():
                result.append(dict(level=0, title="", text=[line], rows=[]))
        elif line.startswith("| "):
            cells = tuple(x.strip() for x in line.strip().strip("|").split("|"))
            result[-1]["rows"].append(cells)
        else:
            result[-1]["text"].append(line.rstrip())
    for s in result:
        while s["text"] and not s["text"][0]:
            s["text"].pop(0)
        while s["text"] and not s["text"][-1]:
            s["text"].pop()
        # The heading of the table and its line:
        if s["rows"]:
            s["rows"] = s["rows"][2:]
    return result


def facts(sections, level, title, body, rows):
    """What the page says, as a set of facts identified by the titles of the sections."""
    result, path = [], []
    for s in sections:
        while path and path[-1][0] >= level(s):
            path.pop()
        path.append((level(s), title(s)))
        p = tuple(t for _, t in path)
        result.append((p, "text", tuple(body(s))))
        for r in rows(s):
            result.append((p, "row", r))
    return sorted(result)


def expected(p):
    kind = p["file"]["k"]
    tag = lambda n: "`%s`" % snake(n)

    def title(s):
        if s["of"] == 1 or kind == "resource":
            return camel(s["n"]) + (" - " + s["verb"] if s["verb"] else "")
        return tag(s["n"])

    def rows(s):
        for r in s["rows"]:
            n = camel(r["n"]) if kind == "resource" and s["of"] == 1 else tag(r["n"])
            yield n, text(r["s"])
    return facts(p["sections"], lambda s: s["of"], title, lambda s: [text(l) for l in s["doc"]], rows)


def found(page):
    rows = lambda s: [(r[0], r[-1]) for r in s["rows"] if r[:1] not in IGNORED]
    return facts(parse(page), lambda s: s["level"], lambda s: s["title"], lambda s: s["text"], rows)


def check(ctx, c, n, known=None):
    files = render(c, random.Random("%d-%s" % (ctx.seed, n)))
    d = os.path.join(ctx.scratch, "docs%s" % n)
    write_files(d + "/model", files)
    bad = lambda what, **k: ctx.violation(known or "docs", what, dict(files=files, **k))
    status, out, err = ctx.run_cli("generate", "docs", "--model=%s/model" % d, "--output=%s/out" % d)
    pages = {}
    for b, _, fs in os.walk(d + "/out"):
        for f in fs:
            with open(os.path.join(b, f), encoding="utf-8", newline="\n") as g:
                pages[os.path.relpath(os.path.join(b, f), d + "/out")] = g.read()
    shutil.rmtree(d, True)
    if status != "ok":
        return bad("the documentation generator says %s" % status, stderr=err[-1000:])
    if "index.md" not in pages:
        return bad("there is no index")
    links = re.findall(r"\[([^\]]*)\]\(([^)]*)\)", pages.pop("index.md"))
    names = {}
    for p in c["pages"]:
        f = "%s_%s.md" % (snake(p["file"]["n"]), p["file"]["k"])
        names.setdefault(f, []).append(p)
    for f, ps in names.items():
        want = camel(ps[0]["file"]["n"])
        if (want, f) not in links:
            bad("there is no link to %s in the index, links are %s" % (f, links))
            continue
        if f not in pages:
            bad("there is no page %s" % f)
            continue
        if len(ps) > 1 and not known:
            # Known finding: elements of different versions are written to the same file, so only one of them is there
            if not any(expected(p) == found(pages[f]) for p in ps):
                bad("page %s isn't that of any of the elements with that name" % f, page=pages[f])
            continue
        have = found(pages[f])
        for p in ps:
            ctx.pages[p["file"]["k"]] = ctx.pages.get(p["file"]["k"], 0) + 1
            want = expected(p)
            if want != have:
                bad("page %s says %s instead of %s" % (f, [x for x in have if x not in want][:3], [x for x in want if x not in have][:3]), page=pages[f])
                break
    other = set(pages) - set(names)
    if other:
        bad("there are pages that aren't in the model: %s" % sorted(other))
    declared = {(camel(p["file"]["n"]), "%s_%s.md" % (snake(p["file"]["n"]), p["file"]["k"])) for p in c["pages"]}
    basics = {b for b in BASICS}
    for t, f in links:
        # The index also has the types that aren't declared, like the lists:
        if (t, f) in declared or t in basics or re.search(r"(List|Map)$", t):
            continue
        bad("link %s of the index isn't in the model" % ((t, f),))


VERSIONS = dict(
    model=[dict(svc="zoo", ver=v, errors=[], types=[], resources=[
        dict(n=[dict(l="root", c="Root")], go="", locators=[], methods=[dict(kind="Action", n=[dict(l=a, c=a.capitalize())], http="", go="", params=[])])])
        for v, a in (("v1", "start"), ("v2", "stop"))],
    docs=[],
    pages=[dict(file=dict(n=[dict(l="root", c="Root")], k="resource"), sections=[
        dict(of=1, n=[dict(l="root", c="Root")], verb="", doc=[], rows=[dict(n=[dict(l=a, c=a.capitalize())], s=[])]),
        dict(of=2, n=[dict(l=a, c=a.capitalize())], verb="POST", doc=[], rows=[])]) for a in ("start", "stop")])


def long_lines(ctx):
    """Documentation with very long lines."""
    model = "// %s\nclass Cat {\n  // %s\n  Name String\n}\n\nresource Root {\n}\n"
    for k in (1000, 65000, 70000, 200000):
        d = os.path.join(ctx.scratch, "long%d" % k)
        a, b = "a" * k + ".", "b" * k + "."
        write_files(d + "/model", {"zoo/v1/m.model": model % (a, b)})
        status, out, err = ctx.run_cli("generate", "docs", "--model=%s/model" % d, "--output=%s/out" % d)
        page = ""
        if os.path.exists(d + "/out/cat_type.md"):
            with open(d + "/out/cat_type.md") as f:
                page = f.read()
        want = sorted([(("Cat",), "text", (a,)), (("Cat",), "row", ("`name`", b)), (("Cat", "`name`"), "text", (b,))])
        if status != "ok" or found(page) != want:
            ctx.violation("long", "documentation with lines of %d characters isn't in the page" % k, dict(files={"zoo/v1/m.model": model % (a, b)}))


def run(ctx):
    ctx.build_cli()
    ctx.pages = {}
    t = ctx.thorough
    rng = random.Random(ctx.seed)

    def constants_for(p, words=2, lines=2, texts=("t0",), **kw):
        c = constants(p, **kw)
        c.update(Words=tla_set(q(x) for x in texts), MaxWords=str(words), MaxLines=str(lines))
        return c

    def one(r):
        p, kw, sim = r
        return ctx.tlc("Docs", constants_for(p, **kw), INV, simulate=sim, depth=len(p) + 600, seed=rng.randrange(1 << 30), heap="3g")
    small = [(["enum", "value"], {}), (["struct", "attr"], dict(basics=["String"])), (["class", "attr"], dict(basics=["String"]))]
    runs = [(p, dict(dict(random=False, services=[("zoo", "v1")], names=["cluster"], forms=["plain"], words=1, lines=1), **kw), None) for p, kw in small]
    # All the kinds of methods:
    runs += [(["class", "method"], dict(random=False, services=[("zoo", "v1")], names=["cluster"], words=0, lines=0), None)]
    # All the ways to document one thing:
    runs += [(["enum"], dict(random=False, services=[("zoo", "v1")], names=["cluster"], words=2, lines=2 if not t else 3), None)]
    k = 6 if t else 1
    texts = ["t%d" % i for i in range(len(TEXTS))]
    for args, n, reps in ((dict(types=6, attrs=14, resources=4, methods=9, errors=2), 12, 3 * k), (dict(types=3, attrs=4, resources=2, methods=4), 40, 2 * k),
                          (dict(types=4, attrs=6, resources=3, methods=4, versions=3), 10, 2 * k), (dict(types=12, attrs=50, resources=10, methods=30), 2, 2 * k)):
        runs += [(plan(rng, **args), dict(words=rng.choice([2, 5, 12]), lines=rng.choice([2, 4, 8]), texts=texts), n) for _ in range(reps)]
    cases = [c for cs in ctx.map(one, runs, jobs=4) for c in cs]
    ctx.log("%d models" % len(cases))
    ctx.map(lambda x: check(ctx, x[1], x[0]), list(enumerate(cases)))
    ctx.notes["models"], ctx.notes["pages"] = len(cases), ctx.pages
    long_lines(ctx)
    check(ctx, VERSIONS, "known", known="two-versions")
    ctx.traces += len(cases)
    ctx.samples += cases[-1:]
    return ctx.finish(bounds="models with up to 3 versions, 12 types, 50 attributes, 10 resources and 30 methods, documentation of up to 8 lines with up to 12 words")


if __name__ == "__main__":
    main(run)
