#!/usr/bin/env python3
"""development: run one spec (or all matching a prefix) and print results"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from concurrent.futures import ThreadPoolExecutor
pat = sys.argv[1]; nat = "-n" in sys.argv; only = "-o" in sys.argv; J = int(os.environ.get("J", "8"))
specs = [s for s in vp.parse_specs() if s["name"].startswith(pat) or s["prop"] == pat or s["file"] == pat]
mods = sorted(set(m for s in specs for m in vp.ir_modules(s)))
t0 = time.time()
if not only:
    vp.engine()
    with ThreadPoolExecutor(J) as ex: irs = dict(zip(mods, ex.map(vp.ir, mods)))
    bad = {m: e for m, (o, e) in irs.items() if o is None}
    for m, e in bad.items(): print(m, e[-3000:])
    if bad: sys.exit(1)
    print("ir %.1fs" % (time.time() - t0))
def one(s):
    out = "/tmp/w/out-%s.json" % s["name"]
    t = time.time()
    r = vp.run_engine(s, [irs[m][0] for m in vp.ir_modules(s)], out, float(os.environ.get("T", s["timeout"])), 1)
    l = ["%-40s rc=%d obl=%d dis=%d ref=%d unk=%d paths=%s %.1fs solver %.1fs" % (s["name"], r["rc"], r["obligations"], r["discharged"], r["refuted"], r["unknown"], r.get("paths"), time.time() - t, r["solver_s"])]
    for e in sorted(set(x[:int(os.environ.get("W", "260"))] for x in r["errors"]))[:3]: l.append("   ERR " + e)
    seen = {}
    for f in r["failed"]:
        k = f["label"] + f["status"]
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 2: l.append("   %s %s [%s] %s ints=%s in=%s" % (f["status"], f["label"], f["backend"], f["detail"][:500], f["ints"], str(f["inputs"])[:300]))
    return "\n".join(l)
if not only:
    with ThreadPoolExecutor(J) as ex:
        for o in ex.map(one, specs): print(o, flush=True)
if nat or only:
    progs = {}
    for s in specs:
        if s["file"] not in progs:
            progs[s["file"]] = vp.native(s)
            if progs[s["file"]][0] is None: print(progs[s["file"]][1][-3000:])
        p = progs[s["file"]][0]
        if p: rc, o = vp.run_native(p, s, int(os.environ.get("N", "200")), 1, None, 30); print("native", s["name"], rc, o[:1800])
