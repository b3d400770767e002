#!/usr/bin/env python3
"""Writes engine/names.json: the private functions of the crate and their signatures, and engine/types.json: its types and their fields, as the rules know them (run on the unchanged tree)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
from absint import Program
out, types = {}, {}
for c in ("default", "test"):
    d = json.load(open("%s/.cache/dump-%s.json" % (V, c)))
    for (ty, mod), names in Program.signatures(d).items():
        out.setdefault("%s|%s" % (ty or "", mod or ""), {}).update(names)
    for mod, names in Program.shapes(d).items():
        types.setdefault(mod, {}).update(names)
json.dump(types, open(V + "/engine/types.json", "w"), indent=1, sort_keys=True)
json.dump(out, open(V + "/engine/names.json", "w"), indent=1, sort_keys=True)
