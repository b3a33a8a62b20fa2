"""Writes /verif/MANIFEST.json. The checks are the properties that have an entry in CHECKS."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts TLC and the rendering of abstract cases by the harness; bounded as the evidence file says."
CLI = "TLA+ spec %s checked with TLC; every case TLC emits is replayed into the tool built from /repo and the verdict compared"
GEN = "TLA+ spec %s checked with TLC; models and predictions it emits are given to the generators built from /repo and the output compared"
RUN = "TLA+ spec %s checked with TLC; behaviours it emits are replayed into the Go code generated from /repo and every observation compared"
CHECKS = {
    "M01": ("m01.py", CLI % "Reader", "Exhaustive up to the declared number of declarations, simulated beyond it."),
    "M02": ("m02.py", CLI % "Signatures", "Exhaustive for small edits around each legal signature, simulated beyond it."),
    "M03": ("m03.py", CLI % "Locators", "Exhaustive for small graphs, simulated for bigger ones."),
    "M05": ("m05.py", CLI % "Grammar", "Exhaustive for short viable prefixes, simulated and mutated files beyond them."),
}
# Added by later milestones:
CHECKS.update({
    "M06": ("m06.py", GEN % "Words (with Names)", "Exhaustive for short identifiers over all character classes, simulated for long ones."),
    "M09": ("m09.py", GEN % "Refs", "Exhaustive for two versions with two classes, simulated for three versions and five types."),
    "M08": ("m08.py", GEN % "Comments", "Exhaustive for short line sequences, simulated for longer files."),
})
API = GEN % "Api (with ModelGen and Meta)"
SIM = "All the models of a few steps, simulated for bigger ones."
CHECKS.update({
    "H03": ("api.py", API, SIM),
    "H04": ("api.py", API, SIM),
    "H05": ("api.py", API, SIM),
    "H06": ("api.py", API, SIM),
})
CHECKS.update({
    "M04": ("runs.py", GEN % "Runs (with ModelGen and Meta)", "Simulated models, each with several layouts."),
    "G03": ("runs.py", GEN % "Runs (with ModelGen and Meta)", "Simulated models, each in several environments."),
    "G01": ("code.py", "TLA+ spec Code (with GoApi, ModelGen and Meta) and Refs checked with TLC; the code generated from /repo for the models they emit is compiled", SIM),
})

OBJ = RUN % "Objects (with GoApi, ModelGen and Meta)"
HIST = "All the short histories of a small model, simulated histories of up to 40 calls on generated models."
CHECKS.update({p: ("objects.py", OBJ, HIST) for p in ("D01", "D02", "D03")})
CHECKS.update({p: ("documents.py", RUN % "Documents (with Objects, GoApi, ModelGen and Meta)",
               "Simulated histories of up to 90 calls on generated models" + (", and all the documents with one wrong token." if p == "D06" else "."))
               for p in ("D04", "D05", "D06")})
CHECKS.update({p: ("client.py", RUN % "Client (with Documents, Objects, GoApi, ModelGen and Meta)", "Simulated histories of 50 to 60 calls on generated models.") for p in ("H01", "H02")})
CHECKS.update({
    "H07": ("poll.py", RUN % "Poll (with Client, Documents, Objects, GoApi, ModelGen and Meta)", "All the polls with a few values per parameter, simulated histories of 60 calls, in virtual time."),
    "H08": ("query.py", RUN % "Query", "All the histories of a few calls with one name, simulated histories of 40 calls."),
    "M07": ("m07.py", "TLA+ specs Annotated and Client (with GoApi, ModelGen and Meta) checked with TLC; the annotated models and histories they emit are given to the generators built from /repo and to the Go code generated from them, and every name compared", "All the single annotations of a model with all the kinds of elements, simulated for pairs and for models with up to 40 annotations."),
    "G02": ("docs.py", GEN % "Docs (with ModelGen and Meta)", SIM),
    "D07": ("errors.py", RUN % "Errors (with Documents)", "All the combinations of fields and all the short histories, simulated histories of 40 calls."),
})
CHECKS["G04"] = ("output.py", "TLA+ spec Output checked with TLC; the output directories and faults it emits are prepared for the generators built from /repo, and the result and the files compared", "All the combinations for up to three files, sampled over the files of generated models; each file of a small model with each fault.")

props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
manifest = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        script, technique, note = CHECKS[p]
        manifest["checks"].append(dict(
            property=p, quick_cmd="python3 harness/%s %s quick" % (script, p),
            thorough_cmd="python3 harness/%s %s thorough" % (script, p),
            technique=technique, level="model_checking", level_note=note + TRUST))
    else:
        manifest["not_applicable"].append(dict(property=p, reason="its check isn't built yet"))
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
