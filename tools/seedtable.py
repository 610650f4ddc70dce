"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "C04-bugsy-reopen-op": "first missed; operators that name the successor by its index were added to the graphs",
    "C06-gend-with-expd": "first missed; both limits at once were added",
    "C13-join-nonroot": "first missed; unions through members that are not roots were added",
    "C29-scen-map": "first missed; the maps of the scenarios got names that begin or end others",
    "C29-zero-listed": "first missed; every entry is listed with a dozen wrong costs",
    "C21-bound-scale": "first missed; maps with a boundary are moved and scaled too",
}
MISSED.update(json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else {})
rows = ["| change | caught by | what it needs | |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + s + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), MISSED.get(s, "")))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
nfix = sum(l.startswith("fixed:") for l in open(V + "/known_findings.txt"))
nseed = len(rows) - 2
t = re.sub(r"All in `known_findings.txt`: \d+ repaired", "All in `known_findings.txt`: %d repaired" % nfix, t)
open(p, "w").write(t)
print(nfix, nseed)
