#!/usr/bin/env python3
"""Writes vlib/literals.json: the literals of the pinned sources (run on the unchanged tree only)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import novel
json.dump(novel.scan(), open(os.path.join(novel.V, "vlib", "literals.json"), "w"), indent=0, sort_keys=True, ensure_ascii=True)
