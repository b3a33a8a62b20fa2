"""G01: the code generated for any accepted model compiles."""
from modelgen import *
from gowork import *
import m09

INV = ["NamesAreDistinct", "ScopesExist", "AnnotationsReplace", "Emission"]

# Small models where everything that can be chosen in the last steps is tried:
SMALL = [
    (["class", "attr"], {}),
    (["struct", "attr"], {}),
    (["enum", "value", "class", "attr"], {}),
    (["enum", "value", "struct", "attr"], {}),
    (["struct", "class", "attr"], dict(names=["cluster", "aws_region"])),
    (["class", "method"], {}),
    (["enum", "class", "resource", "method", "input"], dict(kinds=["Get", "List"], names=["cluster", "type"], basics=["Boolean", "Date", "String"])),
    (["class", "method", "param"], dict(kinds=["Action"], names=["cluster", "url"])),
    (["enum", "value", "method", "param"], dict(kinds=["Action"], names=["default", "type"], basics=["Date"])),
    (["resource", "locator", "error"], {}),
]


def exhaustive(ctx):
    def one(x):
        p, kw = x
        return ctx.tlc("Code", constants(p, random=False, **dict(dict(names=["cluster", "type"], services=[("zoo", "v1")]), **kw)), INV, heap="2g")
    return ctx.map(one, SMALL, jobs=4)


def simulated(ctx, groups):
    rng = random.Random(ctx.seed)
    runs = [(n, plan(rng, **args), rng.randrange(1 << 30)) for n, reps, args in groups for _ in range(reps)]

    def one(r):
        return ctx.tlc("Code", constants(r[1]), INV, simulate=r[0], depth=len(r[1]) + 400, seed=r[2], heap="2g")
    return [c for cs in ctx.map(one, runs, jobs=4) for c in cs]


def wide(n, kind, rng):
    """A type with many attributes."""
    words = [WORDS[i] for i in rng.sample(range(len(WORDS)), len(WORDS))]
    attrs = []
    for i in range(n):
        a, b = words[i % len(words)], words[(i // len(words) + i + 1) % len(words)]
        attrs.append("  %s%s%d %s\n" % (a[1], b[1], i, rng.choice(BASICS + ["[]Date", "[String]Long", "Wide", "[]Wide", "[String]Wide"])))
    return "%s Wide {\n%s}\n\nresource Root {\n}\n" % (kind, "".join(attrs))


# Words that mean something in Go, or that the generated code uses:
RESERVED = """break case chan const continue default defer else fallthrough for func go goto if import interface map package range
    return select struct switch type var""".split()
PREDECLARED = """string error bool byte int int64 float64 rune uint64 uintptr any nil true false iota len cap append make new copy
    delete panic print println recover close complex real imag min max clear""".split()
PACKAGES = """fmt time io os errors json jsoniter http url path strings context helpers net sort bytes math strconv glog ioutil bufio
    reflect sync""".split()
VARIABLES = """object stream iterator value values count list listener request response result client method header query body
    transport metric err i j k v ok item items reader writer source field builder bitmap page size total status key index text
    parsed parameter parameters name names data present root href id kind link self this r w b l c o n x y z uri buffer flush send
    poll server interval predicate predicates statuses deadline get post set add update each slice empty build init main test""".split()
FIXED = dict(
    attr="build copy empty href id kind link".split(),
    value=[], error=[], action=["get", "add", "delete", "list", "post", "update", "search", "poll", "body", "items"], locator=["get", "poll"],
    param=["body", "items"], input="body items page size total".split(),
    resource=["root", "new", "get"], **{k: "client interface string boolean integer long float date".split() for k in ("class", "struct", "enum")})


def vocabulary(ctx):
    """Models where elements of one role have the words of the vocabulary."""
    rng = random.Random(ctx.seed)
    words = sorted(set(PREDECLARED + PACKAGES + VARIABLES + ["impersonate"]) - set(RESERVED))
    rng.shuffle(words)
    chunks = [words[i:i + 35] for i in range(0, len(words), 35)]
    reserved = list(RESERVED)
    rng.shuffle(reserved)
    runs = [(reserved, list(FIXED))]
    for c in chunks:
        runs.append((c, list(FIXED) if ctx.thorough else rng.sample(list(FIXED), 4)))
    if ctx.thorough:
        # Other orders, so that each word is used with several types:
        for _ in range(3):
            words = words + reserved
            rng.shuffle(words)
            runs += [(words[i:i + 35], list(FIXED)) for i in range(0, len(words), 35)]

    def one(r):
        cs = dict(constants([], services=[("zoo", "v1")]), Vocab=tla_seq("W(%s, %s)" % (q(w), q(w.capitalize())) for w in dict.fromkeys(r[0])),
                  Roles=tla_set(q(x) for x in r[1]),
                  FixedOf="[%s]" % ", ".join("%s |-> %s" % (k, tla_set(q(w) for w in v)) for k, v in FIXED.items()))
        return ctx.tlc("Vocabulary", cs, ["NoRepetitions", "AllUsed", "Emission"], heap="2g")
    return [c for cs in ctx.map(one, runs, jobs=4) for c in cs]


def check_batch(ctx, cases, seed, extra=(), refs=()):
    """Generates and compiles the code of several models, each in services of its own."""
    rng = random.Random(seed)
    w = GoWork(ctx)
    files = {}
    for i, c in enumerate(cases):
        fs = Renderer(rng).files(c["model"], rename=lambda s: "x%d_%s" % (i, s))
        files.update({k: (i, v) for k, v in fs.items()})
    for j, text in enumerate(extra):
        files["y%d/v1/m.model" % j] = ("y%d" % j, text)
    for j, c in enumerate(refs):
        fs = m09.render(c, rng, rename=lambda v: "y%d_%s" % (j + 1000, v))
        files.update({k: ("y%d" % (j + 1000), v) for k, v in fs.items()})
    w.write({k: v for k, (_, v) in files.items()})

    def only(i):
        return {k: v for k, (j, v) in files.items() if j == i}
    try:
        w.generate()
        text = w.vet()
    except GeneratedCodeBroken as e:
        ctx.violation("compile", str(e), dict(files={k: v for k, (_, v) in files.items()}))
        return
    if text:
        bad = re.search(r"generated/([xy])(\d+)", text)
        which = only(int(bad.group(2)) if bad.group(1) == "x" else "y" + bad.group(2)) if bad else {k: v for k, (_, v) in files.items()}
        ctx.violation("compile", "the generated code doesn't compile: " + text[:1500], dict(files=which))
    shutil.rmtree(w.dir, True)


KNOWN = {
    "root-get": ("resource Root {\n  method Get {\n    out Body Cluster\n  }\n}\n\nclass Cluster {\n}\n", r"Client\.Get|method .*Get already declared|duplicate method Get"),
    "FooList": ("resource Root {\n}\n\nclass Foo {\n}\n\nclass FooList {\n}\n", r"FooList"),
}


def check_known(ctx):
    for key, (text, pattern) in KNOWN.items():
        w = GoWork(ctx)
        w.write({"shop/v1/m.model": text})
        try:
            w.generate()
            out = w.vet()
        except GeneratedCodeBroken as e:
            out = str(e)
        if out:
            expected = re.search(pattern, out)
            ctx.violation(key if expected else "compile", "the generated code doesn't compile: " + out[:1000], dict(files=text))
        shutil.rmtree(w.dir, True)


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    k = 6 if t else 1
    rng = random.Random(ctx.seed)
    check_known(ctx)
    small = exhaustive(ctx)
    cases = []
    for cs in small:
        rng.shuffle(cs)
        cases += cs if t else cs[:40]
    big = dict(types=7, attrs=18, resources=5, methods=10, annotations=10, errors=2, versions=2)
    mid = dict(types=4, attrs=8, resources=3, methods=5, annotations=4)
    cases += simulated(ctx, [(6, 4 * k, big), (10, 4 * k, mid)])
    vocab = vocabulary(ctx)
    ctx.notes["vocabulary"] = sum(len(c["names"][0]) for c in vocab)
    cases += vocab
    ctx.log("%d models" % len(cases))
    rng.shuffle(cases)
    gen = m09.generator(ctx)
    steps = ["decl"] * 3 + ["attr"] * 3 + ["ref", "attr", "ref", "decl", "attr", "attr", "ref"]
    refs = [c for c in gen(["b/v1", "a/v1", "b/v2"], ["Cat", "Dog", "Owner"], ["Size"], ["State"], ["plain", "list", "map", "link", "linklist"],
                           steps, sim=400 if t else 60) if c["ok"]]
    refs = refs[:200 if t else 24]
    ctx.notes["references"] = len(refs)
    batches = 8 * k
    sizes = [28, 29, 30, 31, 32, 33, 59, 60, 61]
    texts = [wide(n, kind, rng) for n in sizes for kind in ("class", "struct")]
    ctx.map(lambda i: check_batch(ctx, cases[i::batches], ctx.seed * 7919 + i, texts[i::batches], refs[i::batches]), range(batches), jobs=4)
    ctx.traces += len(cases)
    ctx.notes["versions"] = sum(len(c["model"]) for c in cases)
    ctx.samples += cases[-1:]
    return ctx.finish(bounds="models of a few steps (all of them in the thorough tier), models with up to 2 versions of 7 types, 6 resources and 10 methods, types with up to 61 attributes")


if __name__ == "__main__":
    main(run)
