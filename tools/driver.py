"""One check: python3 /verif/check.py <PROPERTY> [--tier quick|thorough] [--spec prefix]

Generates the obligations of the property's contracts from /repo's current
sources, discharges them, replays every refutation on the compiled code.
exit 0: every obligation discharged (or, where the engine gives no verdict,
nothing failed in the bounded native stand-in, recorded as bounded);
exit 1: a contract is broken (VIOLATION line); exit 2: no answer."""
import json, os, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
import vp

LIMIT = 820.0
EXPECT = os.path.join(vp.VERIF, "specs", "expected.json")
KNOWN = os.path.join(vp.VERIF, "known_findings.json")
# exits of a native run that show no failing input (124: out of time)
NOFAIL = (0, 3, 5, 6, 124)
TRUSTED = [
    "engine/ (LLVM IR executor, normaliser) and clang 18's translation of /repo to LLVM IR at -O1",
    "z3 4.8.12 and GMP, for the obligations the normaliser does not close",
    "machine arithmetic is read as exact real arithmetic for double; integers are machine integers; overflow of container sizes beyond the stated configurations is not considered",
    "transcendental functions (sin, cos, exp, cosh, tanh, sqrt, pow) obey their defining identities and derivatives",
    "operator new never fails; exceptions are not modelled (a throwing path is an error, not a proof)",
]


def evidence(prop, tier, seed, level, cov, wall, assumptions, violations):
    d = os.path.join(vp.VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=violations),
              open(os.path.join(d, prop + ".json"), "w"), indent=1)


def load(p, dflt):
    try: return json.load(open(p))
    except Exception: return dflt


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--spec") + 1] if "--spec" in argv else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    left = lambda: LIMIT - (time.time() - t0)
    specs = [s for s in vp.parse_specs() if s["prop"] == prop and s["name"].startswith(only)]
    if tier == "quick": specs = [s for s in specs if "thorough" not in s]
    if not specs: print("no specification for", prop); return 2
    expected = load(EXPECT, {}); known = load(KNOWN, {"findings": []})["findings"]
    mods = sorted(set(m for s in specs for m in vp.ir_modules(s)), key=lambda m: (0 if any(k in m for k in vp.HEAVY) else 1, m))
    vp.overlay()
    with ThreadPoolExecutor(vp.NCPU) as ex:
        fe = ex.submit(vp.engine)
        irs = dict(zip(mods, ex.map(vp.ir, mods)))
        try: fe.result()
        except Exception as e: print("ERROR", e); return 2
    t_ir = time.time() - t0
    tmp = os.path.join(vp.CACHE, "run-%s-%d" % (prop, os.getpid())); os.makedirs(tmp, exist_ok=True)

    def one(s):
        bad = [(m, irs[m][1]) for m in vp.ir_modules(s) if irs[m][0] is None]
        if bad: return dict(spec=s["name"], rc=4, obligations=0, discharged=0, refuted=0, unknown=0, paths=0, errors=["%s does not compile: %s" % (bad[0][0], bad[0][1][-600:])], failed=[], labels={}, functions=[], assumptions=[], backends={}, solver_s=0, stats={})
        tmo = min(s["timeout"] * (3 if tier == "thorough" else 1), max(20.0, left() - 120))
        return vp.run_engine(s, [irs[m][0] for m in vp.ir_modules(s)], os.path.join(tmp, s["name"] + ".json"), tmo, seed)
    with ThreadPoolExecutor(vp.NCPU) as ex: res = list(ex.map(one, specs))
    shutil.rmtree(tmp, ignore_errors=True)
    t_eng = time.time() - t0

    natcache = {}
    def nat(s):
        if s["file"] not in natcache: natcache[s["file"]] = vp.native(s)
        return natcache[s["file"]]

    repdir = os.path.join(vp.VERIF, "evidence", "replay"); os.makedirs(repdir, exist_ok=True)
    violations, knowns, undecided, noanswer, native_runs = [], [], [], [], []

    def is_known(s, label, ints):
        for k in known:
            if k["spec"] == s["name"] and k["label"] == label and all(dict(map(tuple, ints)).get(n) == v for n, v in k.get("ints", {}).items()): return k
        return None

    for s, r in zip(specs, res):
        ref = [f for f in r["failed"] if f["status"] == "refuted"]
        new = []
        for f in ref:
            k = is_known(s, f["label"], f["ints"])
            if k:
                if k["text"] not in knowns: knowns.append(k["text"])
            else: new.append(f)
        exp = expected.get(s["name"], {})
        missing = [l for l in exp if l not in r["labels"]]
        if new:
            # replay on the compiled code: the counterexamples, then random inputs
            prog, err = nat(s)
            confirmed, text = None, ""
            if prog:
                tried = set()
                for f in new:
                    if not f["inputs"] and not f["ints"]: pass
                    if f["label"] in tried or len(tried) >= 6: continue
                    tried.add(f["label"])
                    cf = os.path.join(repdir, "%s.%s.inputs" % (prop, s["name"]))
                    open(cf, "w").write(" ".join("%.17g" % v for _, v in f["inputs"]) + "\n" + " ".join(str(v) for _, v in f["ints"]) + "\n%d\n" % f.get("seq", -1))
                    rc, o = vp.run_native(prog, s, 1, seed, cf, 20)
                    if rc not in NOFAIL: confirmed, text = f, "counterexample of the engine, exit %d\n%s" % (rc, o[:6000]); break
                if not confirmed and left() > 60:
                    rc, o = vp.run_native(prog, s, 2000, seed, None, min(25, left() - 30))
                    if rc not in NOFAIL: confirmed, text = new[0], "random inputs (the engine's own counterexample did not reproduce), exit %d\n%s" % (rc, o[:6000])
                    else: text = o[-500:]
            else: text = "native build failed: " + err[-1500:]
            rp = os.path.join(repdir, "%s.%s.json" % (prop, s["name"]))
            json.dump(dict(property=prop, specification=s["name"], file="specs/%s.cpp" % s["file"], failed_obligations=[dict(label=f["label"], backend=f["backend"], detail=f["detail"], inputs=f["inputs"], ints=f["ints"]) for f in new[:20]],
                           confirmed_on_compiled_code=bool(confirmed), native_output=text, reproduce="python3 /verif/check.py %s --spec %s" % (prop, s["name"])), open(rp, "w"), indent=1)
            violations.append((s, new[0], bool(confirmed), rp))
        elif r["errors"] or r["unknown"] or missing or not r.get("paths"):
            undecided.append((s, r, missing))
    # no verdict from the engine: bounded stand-in on the compiled code
    bounded = []
    for s, r, missing in undecided:
        why = (r["errors"] or ["%d obligations undecided" % r["unknown"] if r["unknown"] else "obligations missing: %s" % missing[:3]])[0]
        prog, err = nat(s)
        if not prog:
            noanswer.append((s["name"], why, err[-800:])); continue
        rc, o = vp.run_native(prog, s, 3000, seed, None, max(5, min(40 if tier == "quick" else 120, left() - 20)))
        bounded.append((s["name"], why, o[:300]))
        if rc not in NOFAIL:
            rp = os.path.join(repdir, "%s.%s.json" % (prop, s["name"]))
            json.dump(dict(property=prop, specification=s["name"], engine=why, failed_obligations=[dict(label=f["label"], detail=f["detail"]) for f in r["failed"][:20]], confirmed_on_compiled_code=True, native_output=o[:6000], reproduce="python3 /verif/check.py %s --spec %s" % (prop, s["name"])), open(rp, "w"), indent=1)
            violations.append((s, dict(label="native stand-in"), True, rp))
    if tier == "thorough":
        done = set(v[0]["name"] for v in violations) | set(b[0] for b in bounded)
        for s in specs:
            if s["name"] in done or left() < 40: continue
            prog, err = nat(s)
            if not prog: continue
            rc, o = vp.run_native(prog, s, 2000, seed, None, max(3, min(20, (left() - 30) / 4)))
            native_runs.append(dict(spec=s["name"], exit=rc, result=o[:160].strip()))
            if rc not in NOFAIL and not any(k["spec"] == s["name"] for k in known):
                rp = os.path.join(repdir, "%s.%s.json" % (prop, s["name"]))
                json.dump(dict(property=prop, specification=s["name"], confirmed_on_compiled_code=True, native_output=o[:6000]), open(rp, "w"), indent=1)
                violations.append((s, dict(label="native run"), True, rp))
    obl = sum(r["obligations"] for r in res); dis = sum(r["discharged"] for r in res)
    fns = sorted(set(f for r in res for f in r["functions"] if "spec_" not in f))
    back = {}
    for r in res:
        for k, v in r["backends"].items(): back[k] = back.get(k, 0) + v
    assum = sorted(set(a for r in res for a in r["assumptions"]))
    cov = dict(obligations=obl, discharged=dis, checker_cmd="python3 /verif/check.py %s --tier %s" % (prop, tier), trusted_base=TRUSTED + sorted(set("assumed contract of a dependency: stubs/%s.cpp" % x for s in specs for x in s["stubs"])),
               specifications=[dict(name=s["name"], obligations=r["obligations"], discharged=r["discharged"], paths=r.get("paths", 0), solver_s=r["solver_s"], by_contract={l: v[1] for l, v in r["labels"].items()}) for s, r in zip(specs, res)],
               functions_under_contract=fns, back_ends=back, solver_s=round(sum(r["solver_s"] for r in res), 3), memory_safety_checks=sum(r.get("memory_checks", 0) for r in res), paths=sum(r.get("paths", 0) or 0 for r in res),
               bounded_stand_ins=[dict(spec=a, engine=b, native=c) for a, b, c in bounded], no_answer=[dict(spec=a, engine=b, native=c) for a, b, c in noanswer], native_validation=native_runs, known_findings=knowns,
               configurations="vector layouts, point counts, joint counts and call histories are enumerated as listed in the specification (vp_choose_); all real quantities are universally quantified", seconds=dict(ir=round(t_ir, 1), engine=round(t_eng - t_ir, 1)))
    evidence(prop, tier, seed, "proof", cov, time.time() - t0, assum, len(violations))
    for k in knowns: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for a, b, c in bounded: print("BOUNDED %s: %s | %s" % (a, b[:300].replace("\n", " "), c.strip().replace("\n", " ")[:200]))
    for a, b, c in noanswer: print("NO ANSWER %s: %s | %s" % (a, b[:600], c))
    print("%s: %d of %d obligations discharged, %d specifications, %d functions, %.0f s" % (prop, dis, obl, len(specs), len(fns), time.time() - t0))
    violations.sort(key=lambda v: not v[2])
    for s, f, conf, rp in violations:
        print("failed obligation: %s: %s" % (s["name"], f["label"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if conf else " no-failing-input-found"))
    if violations: return 1
    if noanswer: return 2
    return 0
