"""Fills DESIGN.md's table of planted bugs from seeded/*/meta.json and tools/detected.json (results of tools/plant.py detect)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/detected.json"; d = json.load(open(p)) if os.path.exists(p) else {}
if os.path.exists("/tmp/plants/detect.json"):
    d.update({k: {"caught": v["caught"], "what": v.get("what", "")[:110]} for k, v in json.load(open("/tmp/plants/detect.json")).items() if "/" not in k})
missed = set("c26-english-name c27-index c28-print c08-wrap c20-kdf c13-chain-cache c16-deep c22-u16 c16-clock c20-lazy c27-lockout c06-many c09-many c24-forget c24-many c16-marker c13-cardano-long c24-busy c18-two-nul c01-salt c16-error-loop c06-lang c16-index c23-tired c02-anagram".split()) | set(d.get("missed", []))
d["missed"] = sorted(missed); json.dump(d, open(p, "w"), indent=0, sort_keys=True, ensure_ascii=False)
rows = ["| bug | property | manifests with | reported |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); r = d.get(i, {})
    rows.append("| %s%s | %s | %s | %s |" % (i, "*" if i in missed else "", m["property"], m["needs"].replace("|", "/"), (r.get("what") or "").replace("|", "/").replace("\n", " ") if r.get("caught") else "NOT CAUGHT"))
t = open(V + "/DESIGN.md").read(); i = t.index("<!-- table -->")
open(V + "/DESIGN.md", "w").write(t[:i] + "<!-- table -->\n\n" + "\n".join(rows) + "\n")
