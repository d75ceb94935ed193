#!/usr/bin/env python3
"""Record, for the current tree, the goal text hash and loop shape of every
contracted function (used only to tell 'the proof was lost' from 'the goal is
the one that was proved here'). Run by hand after contracts or /repo change."""
import sys, os, json, tempfile, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, props
out = {}
w = tempfile.mkdtemp()
done = {}
for pid, P in props.PROPS.items():
    for g in P["proof"]:
        env = done.setdefault(g["env"], importlib.import_module(g["env"]).make())
        for k, x in drv.gen_closure(env, g["fns"], w, vacuity=False).items():
            if "info" in x:
                out[g["env"] + ":" + k] = {"sha": x["sha"], "shape": x["info"]["shape"]}
            elif "error" in x:
                print("no extraction:", k, x["error"])
shutil.rmtree(w)
json.dump(out, open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
print(len(out), "functions")
