#!/usr/bin/env python3
"""Writes contracts/loops.json (the form of the loops for which the contracts give invariants) and contracts/params.txt (the names of
the parameters that the contracts use); to be run on the unchanged tree."""
import glob, json, os, tempfile
import check
check.build_extract()
check.LOOPS = {}
out, params = {}, {}
with tempfile.TemporaryDirectory() as d:
    for f in sorted(glob.glob(f"{check.CON}/*.group")):
        g = check.Group(os.path.basename(f)[:-6], d)
        assert g.extract() is None
        params.update(dict(g.info["params"]))
        out[g.name] = check.loop_shapes(g.info, g.text)
with open(f"{check.CON}/loops.json", "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
with open(f"{check.CON}/params.txt", "w") as f:
    for k in sorted(params):
        f.write(f"{k}={params[k]}\n")
