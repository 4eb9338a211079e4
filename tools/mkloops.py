#!/usr/bin/env python3
"""Records the loops of the functions under contract (spec/loops.json), so that a contract's
loop invariants find their loops again when loops are moved. Run on the tree the contracts fit."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import PROPS
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
out = {}
with tempfile.TemporaryDirectory() as d:
    for k, p in PROPS.items():
        open(d + "/keys", "w").write("\n".join(p["own"] + p["deps"]))
        subprocess.run([V + "/extract/target/debug/extract", "--repo", repo, "--spec", ";;".join(V + "/spec/" + s for s in p["spec"]),
                        "--verify", "@" + d + "/keys", "--out", d + "/g.rs", "--json", d + "/g.json"], check=True)
        for f in json.load(open(d + "/g.json"))["fns"]:
            if f["loop_texts"]:
                assert out.get(f["key"], f["loop_texts"]) == f["loop_texts"], f["key"]
                out[f["key"]] = f["loop_texts"]
open(V + "/spec/loops.json", "w").write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(out[k])) for k in sorted(out)) + "\n}\n")
