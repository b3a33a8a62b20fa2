"""M03: locator loops reachable from the root are always rejected, anything else never is."""
from vlib import *


def text(resources, rng):
    result = []
    for r in resources:
        ls = ""
        to = list(r["to"])
        rng.shuffle(to)
        for t in to:
            var = "    variable ID\n" if rng.random() < 0.3 else ""
            ls += "  locator To%s {\n    target %s\n%s  }\n" % (t, t, var)
        result.append("resource %s {\n%s}\n" % (r["n"], ls))
    rng.shuffle(result)
    return "\n".join(result)


def files(c, rng):
    # The other version goes before or after, or isn't there if it has no locators:
    first, second = rng.choice([("svc/v1", "svc/v2"), ("svc/v1", "zzz/v1"), ("svc/v2", "svc/v1"), ("svc/v1", "aaa/v1")])
    result = {first + "/m.model": text(c["edges"], rng)}
    if any(r["to"] for r in c["other"]):
        result[second + "/m.model"] = text(c["other"], rng)
    elif rng.random() < 0.4:
        result[second + "/m.model"] = "resource Root {\n}\n"
    return result


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    inv = ["Sound", "Bounded", "Complete", "WalkAgrees", "Emission"]
    names = ["Root", "Apple", "Pear", "Zebra", "Aunt", "Sister", "Tree", "Bush"]
    seq = lambda n: "<<%s>>" % ", ".join('"%s"' % x for x in names[:n])
    # The walk agrees with the definition of loop:
    ctx.tlc("Locators", dict(Nodes=seq(3), MaxEdges=9, Mode='"walk"'), inv)
    # All the graphs with three resources, and the ones with four and few locators:
    for n, e in [(3, 9), (4, 4 if not t else 6)]:
        cases = ctx.tlc("Locators", dict(Nodes=seq(n), MaxEdges=e, Mode='"graphs"'), inv)
        check_models(ctx, [(files(c, ctx.rng), c["ok"]) for c in cases], "loop")
    # Pairs of versions that use the same names:
    cases = ctx.tlc("Locators", dict(Nodes=seq(3), MaxEdges=3, Mode='"pairs"'), ["Emission"])
    if not t:
        cases = ctx.rng.sample(cases, 4000)
    check_models(ctx, [(files(c, ctx.rng), c["ok"]) for c in cases], "loop")
    # Long chains:
    for n in (12, 40):
        nodes = "<<%s>>" % ", ".join('"%s"' % ("Root" if i == 0 else "Node%d" % i) for i in range(n))
        cases = ctx.tlc("Locators", dict(Nodes=nodes, MaxEdges=99, Mode='"chain"'), inv)
        check_models(ctx, [(files(c, ctx.rng), c["ok"]) for c in cases], "loop")
    # Bigger graphs, half of them without loops:
    for n, e, mode, k in [(5, 7, "grow", 600), (6, 8, "dag", 600), (8, 12, "dag", 300), (8, 9, "grow", 500), (8, 16, "dag", 150)]:
        cases = ctx.tlc("Locators", dict(Nodes=seq(n), MaxEdges=e, Mode='"%s"' % mode), inv,
                        simulate=k * (10 if t else 1), depth=e + 3)
        check_models(ctx, [(files(c, ctx.rng), c["ok"]) for c in cases], "loop")
    return ctx.finish(bounds="all the graphs with 3 resources and all those with 4 resources and up to 4 (thorough 6) locators; simulated graphs with up to 8 resources and 16 locators")


if __name__ == "__main__":
    main(run)
