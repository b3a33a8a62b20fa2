"""M02: method signatures are accepted exactly when they follow their rules."""
from vlib import *

TYPES = """
enum MyEnum { One Two }
class MyClass { X Integer }
struct MyStruct { X Integer }
"""


def files(c):
    ps = ""
    for p in c["params"]:
        ps += "    %s %s %s%s\n" % (p["d"], p["n"], p["t"], " = " + p["v"] if p["v"] else "")
    return {"svc/v1/m.model": TYPES + "resource Root {\n  locator Things {\n    target Things\n  }\n}\n"
            "resource Things {\n  method %s {\n%s  }\n}\n" % (c["kind"], ps)}


def run(ctx):
    ctx.build_cli()
    t = ctx.thorough
    inv = ["IdiomsAccepted", "Emission"]
    cases = ctx.tlc("Signatures", dict(MaxSteps=1, Simulating="FALSE"), inv)
    check_models(ctx, [(files(c), c["ok"]) for c in cases], "signature")
    for steps, n in [(2, 14000), (3, 8000), (5, 3000)]:
        cases = ctx.tlc("Signatures", dict(MaxSteps=steps, Simulating="TRUE"), inv,
                        simulate=n * (10 if t else 1), depth=steps + 2, seed=ctx.seed * 10 + steps)
        check_models(ctx, [(files(c), c["ok"]) for c in cases], "signature")
    return ctx.finish(bounds="all the signatures at one change from the idiomatic ones, and simulated ones at 2, 3 and 5 changes")


if __name__ == "__main__":
    main(run)
