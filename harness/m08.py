"""M08: documentation comments reach exactly the element they precede."""
from gowork import *


def build(c, rng):
    """Renders the lines, and calculates where the documentation of each element should appear:
    the place is a path in the OpenAPI document, or a heading of a page of the documentation."""
    out, api, pages, code = [], [], [], []
    stack = []
    resources = []
    eol = rng.choice(["\n", "\n", "\r\n"])
    pad = rng.choice(["", "  ", "\t"])
    for n, l in enumerate(c["lines"], 1):
        k = l["k"]
        if k == "blank":
            text = rng.choice(["", "  "])
        elif k == "block":
            text = rng.choice(["/* zz%d */" % n, "/* // zz%d */" % n])
        elif k == "ann":
            text = "@note%d" % n
        elif k == "close":
            text = "}"
            stack.pop()
        elif k == "comment":
            text = "//" + " " * l["ind"] + ("w%d" % n if l["full"] else "")
        else:
            e = l["e"]
            doc = "\n".join(" " * d["ind"] + ("w%d" % d["w"] if d["w"] else "") for d in c["docs"][n - 1])
            if e in ("class", "struct", "enum"):
                text = "%s Thing%d {" % (e, n)
                stack.append((e, n))
                api.append((["components", "schemas", "Thing%d" % n], doc))
                pages.append(("thing%d_type.md" % n, "# Thing%d" % n, doc))
                if e != "enum":
                    code += [("Thing%d" % n, doc), ("Thing%dBuilder" % n, doc)]
            elif e == "resource":
                text = "resource Thing%d {" % n
                stack.append((e, n))
                resources.append(n)
                pages.append(("thing%d_resource.md" % n, "# Thing%d" % n, doc))
                code.append(("Thing%dClient" % n, doc))
            elif e == "method":
                text = "method Member%d {" % n
                r = stack[-1][1]
                stack.append((e, n))
                api.append((["paths", "/api/svc/v1/thing_%d/member_%d" % (r, n), "post"], doc))
                pages.append(("thing%d_resource.md" % r, "## Member%d - POST" % n, doc))
                code.append(("Thing%dClient.Member%d" % (r, n), doc))
            elif e == "param":
                text = "in Member%d String" % n
                m, r = stack[-1][1], stack[-2][1]
                api.append((["paths", "/api/svc/v1/thing_%d/member_%d" % (r, m), "post", "requestBody", "content", "application/json",
                             "schema", "properties", "member_%d" % n], doc))
                pages.append(("thing%d_resource.md" % r, "### Member%d" % n, doc))
                code.append(("Thing%dMember%dRequest.Member%d" % (r, m, n), doc))
            elif e == "attribute":
                text = "Member%d String" % n
                api.append((["components", "schemas", "Thing%d" % stack[-1][1], "properties", "member_%d" % n], doc))
                pages.append(("thing%d_type.md" % stack[-1][1], "## `member_%d`" % n, doc))
                code += [("Thing%d.%sMember%d" % (stack[-1][1], x, n), doc) for x in ("", "Get")]
            elif e == "value":
                text = "Member%d" % n
                pages.append(("thing%d_type.md" % stack[-1][1], "### `member_%d`" % n, doc))
                code.append(("Thing%dMember%d" % (stack[-1][1], n), doc))
            elif e == "locator":
                text = "locator Member%d { target Leaf }" % n
                code.append(("Thing%dClient.Member%d" % (stack[-1][1], n), doc))
            elif e == "error":
                text = "error Thing%d { code %d }" % (n, n)
                code.append(("Thing%dError" % n, doc))
            if l["trail"]:
                text += rng.choice([" // zz%d", "// zz%d", " /* x */ // zz%d"]) % n
        out.append(pad + text)
    root = "resource Root {\n%s}\nresource Leaf {\n}\n" % "".join(
        "  locator Thing%d {\n    target Thing%d\n  }\n" % (n, n) for n in resources)
    files = {"svc/v1/m.model": eol.join(out) + eol, "svc/v1/" + rng.choice(["a", "z"]) + ".model": root}
    if rng.random() < 0.5:
        # Comments of other files:
        files["svc/v1/" + rng.choice(["b", "y"]) + ".model"] = "// zz\n" * 60 + "\nstruct Pad {\n}\n"
    snake = lambda s: re.sub(r"thing_?(\d+)", r"thing_\1", s)
    api = [([snake(p) if p.startswith("/api") else p for p in path], doc) for path, doc in api]
    pages = [(re.sub(r"^thing(\d+)", r"thing_\1", f), h, d) for f, h, d in pages]
    return files, api, pages, code


def sections(text):
    result = {}
    current = None
    for line in text.split("\n"):
        if re.match(r"#+ ", line):
            current = result.setdefault(line, [])
        elif line.startswith("|"):
            current = []
        elif current is not None:
            current.append(line)
    return result


def normal(doc):
    lines = [l.rstrip() for l in doc.split("\n")]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return lines


def check(ctx, c, n, both):
    files, api, pages, code = build(c, random.Random("%d-%d" % (ctx.seed, n)))
    d = os.path.join(ctx.scratch, "case%d" % n)
    write_files(d + "/model", files)
    bad = lambda what, **k: ctx.violation("doc", what, dict(files=files, **k))
    status, out, err = ctx.run_cli("generate", "openapi", "--model=%s/model" % d, "--output=%s/api" % d)
    if status != ("ok" if c["ok"] else "fail"):
        bad("expected %s, got %s" % ("ok" if c["ok"] else "fail", status), stderr=err[-1000:])
    elif c["ok"]:
        with open(d + "/api/svc/v1/openapi.json") as f:
            doc = json.load(f)
        for path, want in api:
            obj = doc
            for p in path:
                obj = obj.get(p) if isinstance(obj, dict) else None
            if obj is None:
                bad("no %s in the OpenAPI specification" % path)
                continue
            got = obj.get("description", "")
            if got != want:
                bad("description of %s is %r instead of %r" % (path, got, want))
        text = json.dumps(doc)
        used = set(re.findall(r"w\d+", " ".join(w for _, w in api)))
        found = set(re.findall(r"\bw\d+", text.replace("\\n", " ")))
        if found - used or "zz" in text:
            bad("comments that don't belong to any element in the OpenAPI specification: %s" % sorted(found - used))
        if both:
            status, out, err = ctx.run_cli("generate", "docs", "--model=%s/model" % d, "--output=%s/docs" % d)
            if status != "ok":
                bad("documentation generator: %s" % status, stderr=err[-1000:])
            else:
                for page, heading, want in pages:
                    try:
                        with open("%s/docs/%s" % (d, page)) as f:
                            secs = sections(f.read())
                    except FileNotFoundError:
                        bad("no page %s" % page)
                        continue
                    if heading not in secs:
                        bad("no heading %r in page %s" % (heading, page))
                    elif normal("\n".join(secs[heading])) != normal(want):
                        bad("text of %r in page %s is %r instead of %r" % (heading, page, secs[heading], want))
    shutil.rmtree(d, True)


def check_go(ctx, cases, seed):
    """The words of the documentation are those of the comments of the Go declarations, in the same order. The format of the
    comments isn't compared, because it is the one that the Go tools prefer."""
    w = GoWork(ctx)
    wants = []
    for i, c in enumerate(cases):
        files, _, _, code = build(c, random.Random("%s-%d" % (seed, i)))
        w.write({"x%d%s" % (i, f): text for f, text in files.items()})
        wants.append((files, code))
    try:
        w.generate()
    except GeneratedCodeBroken as e:
        ctx.violation("go", str(e), dict(cases=cases))
        return
    d = ctx.dir()
    shutil.copy(os.path.join(DRIVER, "comments.go.txt"), os.path.join(d, "main.go"))
    r = subprocess.run(["go", "run", os.path.join(d, "main.go"), w.generated], cwd=d, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        if "generated/" not in r.stderr:
            raise NoAnswer("can't read the comments: " + r.stderr[-2000:])
        ctx.violation("go", "the generated code can't be parsed: " + r.stderr[-2000:], dict(cases=cases))
        return
    have = json.loads(r.stdout)
    words = lambda text: re.findall(r"\b(?:w|zz)\d+\b", text)
    for i, (files, code) in enumerate(wants):
        texts = have.get("x%dsvc/v1" % i, {})
        for name, doc in code:
            if name not in texts:
                ctx.violation("go", "%s isn't in the generated code" % name, dict(files=files))
            elif words(texts[name]) != words(doc):
                ctx.violation("go", "comment of %s is %r instead of %r" % (name, texts[name], doc), dict(files=files))
    ctx.traces += len(cases)
    ctx.notes["go_comments"] = ctx.notes.get("go_comments", 0) + sum(len(code) for _, code in wants)
    shutil.rmtree(w.dir, True)
    shutil.rmtree(d, True)


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    inv = ["Agrees", "Disjoint", "Emission"]
    contexts = '{<<>>, <<"class">>, <<"enum">>, <<"resource">>, <<"resource", "method">>, <<"struct">>}'
    total = 0
    rich = []
    for indents, lines, trails, sim in [
        ("{1}", 5 if t else 4, "{FALSE}", None), ("{0, 1, 2}", 4 if t else 3, "BOOLEAN", None),
        ("{0, 1, 2, 3}", 8, "BOOLEAN", 900), ("{1}", 14, "BOOLEAN", 700), ("{1, 2}", 25, "BOOLEAN", 400), ("{1}", 45, "BOOLEAN", 150)]:
        cases = ctx.tlc("Comments", dict(Indents=indents, Contexts=contexts, MaxLines=lines, Trails=trails, Simulating="TRUE"), inv,
                        simulate=sim and sim * (10 if t else 1), depth=lines + 5)
        seen = {json.dumps(c, sort_keys=True): c for c in cases}
        cases = list(seen.values())
        if len(cases) > 4000 and not t:
            cases = ctx.rng.sample(cases, 4000)
        base = total
        ctx.map(lambda x: check(ctx, x[1], base + x[0], both=t or x[0] % 2 == 0), list(enumerate(cases)))
        total += len(cases)
        ctx.traces += len(cases)
        ctx.notes["accepted"] = ctx.notes.get("accepted", 0) + sum(c["ok"] for c in cases)
        good = [c for c in cases if c["ok"] and any(c["docs"])]
        rich += ctx.rng.sample(good, min(len(good), 120 if t else 25))
        ctx.samples += [dict(lines=c["lines"], ok=c["ok"]) for c in cases[-1:]]
    for i in range(0, len(rich), 150):
        check_go(ctx, rich[i:i + 150], "%d-go-%d" % (ctx.seed, i))
    return ctx.finish(bounds="all the files of up to 4 (thorough 5) lines in 6 contexts, and simulated files of up to 45 lines")


if __name__ == "__main__":
    main(run)
