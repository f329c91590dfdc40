#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib.props import PROPS, NOTES
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in ids:
    mod, fn, level, rule, assume, kw = PROPS[p]; tech, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p, "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": level, "level_note": note + " Trusts: " + "; ".join(assume) + "."})
hook = "4f6dadb"
sha = subprocess.run(["git", "-C", "/repo", "rev-parse", hook], capture_output=True, text=True).stdout.strip()
doc = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "keychain_verif_fast_kdf", "enable": 'RUSTFLAGS="--cfg keychain_verif_fast_kdf" when the drivers are built (vlib/build.py); several checks also build without it', "source_commits": [sha]},
       "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. Every check builds the drivers in harness/ against /repo's working tree into /verif/.build."}
json.dump(doc, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
