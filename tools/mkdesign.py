"""DESIGN.md from the hand-written parts below, the property list, the findings and the planted changes."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
seeds = {}
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
findings = json.load(open(ROOT + "/tools/findings.json"))
HEAD = open(ROOT + "/tools/design/head.md").read()
TAIL = open(ROOT + "/tools/design/tail.md").read()
parts = {}
cur = None
for line in open(ROOT + "/tools/design/properties.md"):
    if line.startswith("@"):
        cur = line[1:].strip()
        parts[cur] = ""
    else:
        parts[cur] += line
out = [HEAD.rstrip(), ""]
for p in props:
    i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), "", parts[i].strip(), ""]
    if seeds.get(i):
        out += ["Planted changes caught: " + "; ".join("`%s` (needs: %s)" % (n, m["needs"]) for n, m in seeds[i]) + ".", ""]
out += [TAIL.rstrip(), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
missing = [p["id"] for p in props if not parts.get(p["id"], "").strip()]
print("design written", "missing: %s" % missing if missing else "", sum(map(len, seeds.values())), "seeds")
