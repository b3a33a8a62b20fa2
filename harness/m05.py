"""M05: invalid text is rejected cleanly and produces no output."""
from vlib import *
import render

ROOT = "resource Root {\n}\n"


def text(toks, roles, rng):
    """Renders a sequence of tokens. Identifiers are rendered according to their role."""
    n = 0
    out = []
    for t, r in zip(toks, roles):
        n += 1
        if t == "ID":
            s = {"NewType": "Type%d" % n, "NewResource": "Resource%d" % n, "NewError": "Error%d" % n,
                 "TypeId": "String", "ResourceId": "Root", "AnnotationId": "note", "VariableId": "ID"}.get(r, "Member%d" % n)
        elif t == "INT":
            s = rng.choice(["%d", "%d", "0%d", "92233720368547758%02d"]) % (n % 3)
        elif t == "STR":
            s = rng.choice(['"x"', '`y`', '"a b"', '""', '"\\t\\u00e9\\x41\\n"', '`a\nb\\q"`', '"`{}"', '"// x"', '"/* x"', '"\u00e9\u65e5"'])
        elif t == "BADSTR":
            s = rng.choice(['"a\\qb"', '"a\nb"', '"\\x1"', '"\\u12"', '"\\ud800"', '"\\400"', '"a\\"', '"\\\'"'])
        elif t == "BADINT":
            s = rng.choice(["9223372036854775808", "99999999999999999999"])
        else:
            s = t
        out.append(s)
    result = ""
    for s in out:
        result += s + rng.choice([" ", " ", "\n", "\n  ", " /* c */ ", " // c\n"] if s != "/*" else [" "])
    return result


def files(toks, roles, rng):
    f = {"svc/v1/m.model": text(toks, roles, rng)}
    # The root resource is in another file, that is read before or after:
    f["svc/v1/" + rng.choice(["a", "z"]) + ".model"] = ROOT
    return f


def pad(roles, toks):
    return list(roles) + list(toks[len(roles):])


def check_generation(ctx, cases):
    """The generators, with accepted and rejected models."""
    base = ctx.dir()

    def one(item):
        n, (fs, ok) = item
        d = os.path.join(base, "c%d" % n)
        model = os.path.join(d, "model")
        out = os.path.join(d, "out")
        write_files(model, fs)
        for cmd in ("openapi", "docs", "go"):
            if cmd == "go" and ok:
                continue
            target = os.path.join(out, cmd)
            extra = ["--base=example.com/x"] if cmd == "go" else []
            status, o, e = ctx.run_cli("generate", cmd, "--model=" + model, "--output=" + target, *extra)
            want = "ok" if ok else "fail"
            if status != want:
                ctx.violation("generate-" + cmd, "expected %s, got %s" % (want, status), dict(files=fs, stderr=e[-2000:]))
            written = [os.path.join(p, f) for p, _, fl in os.walk(target) for f in fl]
            if not ok and written:
                ctx.violation("generate-" + cmd, "output written for a rejected model", dict(files=fs, written=written))
            if not ok and not e.strip():
                ctx.violation("generate-" + cmd, "no error message for a rejected model", dict(files=fs))
            if ok and not written:
                ctx.violation("generate-" + cmd, "nothing written for an accepted model", dict(files=fs))
        shutil.rmtree(d, True)

    ctx.map(one, list(enumerate(cases)))
    ctx.traces += len(cases)
    ctx.notes["generations"] = ctx.notes.get("generations", 0) + len(cases) * 3


STARTS = {
    "file": [""],
    "decl": ["class ID {", "enum ID {", "struct ID { ID", "error ID {", "resource ID {", "@ ID"],
    "inner": ["resource ID { method ID {", "resource ID { locator ID {", "resource ID { ID { in out ID",
              "class ID { link ID [", "class ID { @ ID (", "resource ID { ID { ID ID ="],
    "second": ["class ID { } resource ID { ID { ID ID } } enum ID { ID }", "error ID { code INT } class ID { ID [ ID ] ID }",
               "enum ID { ID } @ ID ( ID = STR ) struct ID { @ ID ID ID"],
}


def starts(groups):
    return "{%s}" % ", ".join("<<%s>>" % ", ".join('"%s"' % t for t in s.split()) for g in groups for s in STARTS[g])


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    rng = ctx.rng
    inv = ["Viable", "Fatal", "BadLiteralsAreFatal", "Emission"]
    pool = []
    for groups, depth in [(["file"], 6 if t else 5), (["decl"], 5 if t else 3), (["inner"], 5 if t else 3), (["second"], 4 if t else 3)]:
        cases = ctx.tlc("Grammar", dict(Mode='"prefix"', Starts=starts(groups), MaxTokens=depth, MaxMutations=0), inv)
        todo = []
        for c in cases:
            # The prefix itself, and its shortest completion:
            todo.append((files(c["toks"], c["roles"], rng), c["ok"]))
            todo.append((files(c["toks"] + c["completion"], c["completed"], rng), True))
            # Literals without meaning:
            for w in c["instead"]:
                bad = c["toks"][:-1] + [w] + c["completion"]
                todo.append((files(bad, pad(c["roles"][:-1], bad), rng), False))
            # Tokens that can't follow, with and without the completion:
            wrong = sorted(c["wrong"])
            for w in wrong if t else rng.sample(wrong, 4):
                bad = c["toks"] + [w]
                todo.append((files(bad, pad(c["roles"], bad), rng), False))
                bad = bad + c["completion"]
                todo.append((files(bad, pad(c["roles"], bad), rng), False))
        if len(todo) > 7000 and not t:
            todo = rng.sample(todo, 7000)
        check_models(ctx, todo, "syntax")
        pool += rng.sample(todo, min(len(todo), 60))
    for depth, n in [(6, 250), (15, 300), (40 if t else 30, 100)]:
        for muts in (0, 1, 2):
            cases = ctx.tlc("Grammar", dict(Mode='"mutate"', Starts="{<<>>}", MaxTokens=depth, MaxMutations=muts), ["Emission"],
                            simulate=n * (8 if t else 1), depth=depth + 6, seed=ctx.seed * 100 + depth + muts)
            todo = [(files(c["toks"], pad(c["roles"], c["toks"]), rng), c["ok"]) for c in cases]
            check_models(ctx, todo, "syntax")
            pool += rng.sample(todo, min(len(todo), 60))
    # Models rejected for other reasons, given to the generators:
    cases = ctx.tlc("Reader", dict(Pool='"large"', Versions='<<"a_svc/v1">>', MaxLen=3, Layouts="{TRUE}", Simulating="FALSE", Guided="FALSE",
                    Seeds='{<<[v |-> "a_svc/v1", f |-> 1, d |-> 1]>>}'), ["Emission"])
    pool += [(render.reader_files(c), c["ok"]) for c in rng.sample(cases, 400 if t else 150)]
    import m02, m03
    cases = ctx.tlc("Signatures", dict(MaxSteps=1, Simulating="FALSE"), ["Emission"])
    pool += [(m02.files(c), c["ok"]) for c in rng.sample(cases, 400 if t else 150)]
    cases = ctx.tlc("Locators", dict(Nodes='<<"Root", "Apple", "Pear">>', MaxEdges=4, Mode='"graphs"'), ["Emission"])
    pool += [(m03.files(c, rng), c["ok"]) for c in rng.sample(cases, 150)]
    check_generation(ctx, pool)
    return ctx.finish(bounds="viable prefixes of up to 5 tokens (thorough 6) and up to 3 (5) tokens more after 16 contexts, each with tokens that can't follow; simulated files of up to 30 tokens (thorough 40) with up to 2 mutations")


if __name__ == "__main__":
    main(run)
