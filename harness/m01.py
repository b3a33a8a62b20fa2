"""M01: a model is accepted exactly when every name is defined once."""
from vlib import *
import render


def check_cases(ctx, cases, prefixes=False):
    if prefixes:
        # Every prefix of a history is also a history:
        cases = [dict(decls=c["decls"][:i + 1], ok=c["verdicts"][i]) for c in cases for i in range(len(c["decls"]))]
    check_models(ctx, [(render.reader_files(c), c["ok"]) for c in cases], "reader")


ROOT1 = '<<[v |-> "a_svc/v1", f |-> 1, d |-> 1]>>'
ROOT2 = '<<[v |-> "a_svc/v1", f |-> 1, d |-> 2]>>'
ROOTS = '<<[v |-> "a_svc/v1", f |-> 1, d |-> 2], [v |-> "a_svc/v1", f |-> 2, d |-> 3]>>'
INV = ["VerdictsAgree", "Consistent", "Emission"]


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    base = dict(Versions='<<"a_svc/v1">>', Layouts="{TRUE}", Simulating="FALSE", Guided="FALSE")
    # All the orders of a few declarations of one version, after the usual beginnings:
    cases = ctx.tlc("Reader", dict(base, Pool='"large"', MaxLen=3 if not t else 4,
                    Seeds="{%s, %s}" % (ROOT1, ROOTS)), INV)
    check_cases(ctx, cases)
    cases = ctx.tlc("Reader", dict(base, Pool='"small"', MaxLen=5 if not t else 6, Seeds="{%s}" % ROOTS), INV)
    check_cases(ctx, cases)
    cases = ctx.tlc("Reader", dict(base, Pool='"small"', MaxLen=2 if not t else 3, Seeds="{<<>>}",
                    Versions='<<"a_svc/v1", "a_svc/v2">>'), INV)
    check_cases(ctx, cases)
    # Several versions and files, longer histories, by simulation:
    all_seeds = "{<<>>, %s, %s, %s}" % (ROOT1, ROOT2, ROOTS)
    sims = [("small", 100, 10, all_seeds, "FALSE"), ("large", 100, 14, "{%s}" % ROOTS, "FALSE"),
            ("small", 300, 16, all_seeds, "TRUE"), ("large", 300, 18, all_seeds, "TRUE")]
    for pool, n, depth, seeds, guided in sims:
        cases = ctx.tlc("Reader", dict(Pool='"%s"' % pool, Versions='<<"a_svc/v1", "a_svc/v2_alpha1", "b_svc/v1">>',
                        MaxLen=depth, Layouts="{TRUE, FALSE}", Simulating="TRUE", Guided=guided, Seeds=seeds), INV,
                        simulate=n * (10 if t else 1), depth=depth + 2)
        check_cases(ctx, cases, prefixes=True)
    return ctx.finish(bounds="all histories of up to 3 declarations (thorough 4) of the large pool and up to 5 (thorough 6) of the small one in one version, up to 2 (3) in two versions; simulated histories of up to 14 declarations in 3 versions")


if __name__ == "__main__":
    main(run)
