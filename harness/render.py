"""Rendering of abstract declarations, as emitted by the specification, as model text."""


def typeref(form, t):
    if form in ("list", "linklist"):
        return "[]" + t
    if form == "map":
        return "[String]" + t
    if form == "mapindex":
        return "[" + t + "]String"
    return t


def reader_member(m):
    if m["k"] == "attr":
        link = "link " if m["form"].startswith("link") else ""
        return "  %s%s %s" % (link, m["n"], typeref(m["form"], m["t"]))
    if m["k"] == "value":
        return "  " + m["n"]
    if m["k"] == "method":
        ps = "".join("    in %s %s\n" % (p["n"], typeref(p["form"], p["t"])) for p in m["ps"])
        return "  method %s {\n%s  }" % (m["n"], ps)
    if m["k"] == "locator":
        target = "    target %s\n" % m["t"] if m["t"] else ""
        return "  locator %s {\n%s  }" % (m["n"], target)
    raise ValueError(m)


def reader_decl(d):
    body = "".join(reader_member(m) + "\n" for m in d["ms"])
    if d["kind"] == "error":
        body = "  code 1\n"
    return "%s %s {\n%s}\n" % (d["kind"], d["n"], body)


def reader_files(case):
    """Renders a history of the Reader specification. Files are named so that the tool reads
    them in the order of the history."""
    files = {}
    for e in case["decls"]:
        name = "%s/f%03d.model" % (e["v"], e["f"])
        files[name] = files.get(name, "") + reader_decl(e["d"]) + "\n"
    return files
