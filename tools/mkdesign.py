"""Regenerates DESIGN.md from tools/design.md (text), properties.jsonl (titles) and known_findings.json (findings)."""
import json
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
M = json.load(open("/verif/MANIFEST.json"))
F = json.load(open("/verif/known_findings.json"))["findings"]
notes = {c["property"]: c["level_note"] for c in M["checks"]}
na = {c["property"]: c["reason"] for c in M["not_applicable"]}
why = json.load(open("/verif/tools/design_why.json"))
out = [open("/verif/tools/design.md").read().rstrip(), "", "## Properties, one by one", ""]
for p in P:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    if i in notes:
        out.append("*Specified, compared, bounds.* " + notes[i])
        if i in why: out.append("*Oracle, cost, reach.* " + why[i])
    else:
        out.append("*Not applicable.* " + na[i])
    out.append("")
out += ["## Findings", "",
        "Known findings (`known_findings.json`; each is replayed by its check from its exact input and reported as KNOWN-FINDING;",
        "the generators of the specifications stay clear of the constructs, or the driver compares against the specified outcome",
        "and only the listed input is excused):", ""]
seen = {}
for f in F:
    if f["status"] == "known": seen.setdefault((f["id"], f["what"]), []).append(f["property"])
for (i, w), ps in seen.items(): out.append("* **%s** (%s) %s" % (i, ", ".join(ps), w))
out += ["", "Repaired (`fix:` commits in /repo):", ""]
seen = {}
for f in F:
    if f["status"] == "fixed":
        e = f["entry"].split(" ", 2)
        c, w = e[2].split(" ", 1)
        seen.setdefault((c, w), []).append(f["property"])
for (c, w), ps in seen.items(): out.append("* `%s` (%s) %s" % (c, ", ".join(ps), w))
out += ["", open("/verif/tools/design_end.md").read()]
open("/verif/DESIGN.md", "w").write("\n".join(out))
