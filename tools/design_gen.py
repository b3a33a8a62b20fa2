"""Writes /verif/DESIGN.md: the text of tools/design.md, the findings and the planted changes."""
import glob, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(VERIF)
text = open("tools/design.md").read().rstrip() + "\n\n## Findings\n\n"
text += "Defects of the repository that the checks found. *Fixed* ones have a `fix:` commit in /repo; *known* ones are reported with a\n"
text += "`KNOWN-FINDING` line and not repaired, because the repair changes names or files that users see, or belongs to a library.\n\n"
for kind in ("known", "fixed"):
    for l in open("known-findings.txt"):
        if l.startswith(kind + ":"):
            p, k, t = l.split(None, 3)[1:]
            text += "* *%s* %s (`%s`): %s\n" % (kind, p.split("=")[1], k.split("=")[-1], t.strip())
text += "\n## Planted changes\n\n"
text += open("tools/planted.md").read().rstrip() + "\n\n| change | property | what it needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    text += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m.get("caught", m["property"]))
open("DESIGN.md", "w").write(text)
