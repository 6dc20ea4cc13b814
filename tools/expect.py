#!/usr/bin/env python3
"""records the obligation labels of every specification on the unchanged tree (vacuity guard)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, driver
from concurrent.futures import ThreadPoolExecutor
pat = sys.argv[1:] 
specs = [s for s in vp.parse_specs() if not pat or s["prop"] in pat or s["file"] in pat or any(s["name"].startswith(p) for p in pat)]
exp = driver.load(driver.EXPECT, {}); names = set(s["name"] for s in vp.parse_specs())
exp = {k: v for k, v in exp.items() if k in names}
mods = sorted(set(m for s in specs for m in vp.ir_modules(s))); vp.engine()
with ThreadPoolExecutor(8) as ex: irs = dict(zip(mods, ex.map(vp.ir, mods)))
def one(s): return vp.run_engine(s, [irs[m][0] for m in vp.ir_modules(s)], "/tmp/exp-%s.json" % s["name"], s["timeout"], 1)
with ThreadPoolExecutor(8) as ex:
    for s, r in zip(specs, ex.map(one, specs)):
        os.path.exists("/tmp/exp-%s.json" % s["name"]) and os.remove("/tmp/exp-%s.json" % s["name"])
        if r["rc"] != 0: print("NOT CLEAN", s["name"], r["rc"], r["errors"][:1], r["refuted"], r["unknown"])
        else: exp[s["name"]] = {l: v[0] for l, v in sorted(r["labels"].items())}
json.dump(dict(sorted(exp.items())), open(driver.EXPECT, "w"), indent=0)
