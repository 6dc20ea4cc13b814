"""Build layer: LLVM IR of the repository's current sources, engine, native replays."""
import hashlib, json, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
DEPS = "/opt/vp/deps/idyntree"
NCPU = os.cpu_count() or 4
_locks, _lk = {}, threading.Lock()


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")


def lock(key):
    with _lk:
        return _locks.setdefault(key, threading.Lock())


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]


_fh = {}
def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _fh:
        with open(path, "rb") as f: _fh[k] = hashlib.sha256(f.read()).hexdigest()
    return _fh[k]


# ---- levi overlay: `levi::Scalar` names both a typedef and a template in the
# library; clang refuses it, gcc takes it.  A purely textual rename of the typedef.
def overlay():
    with lock("overlay"):
        src = os.path.join(REPO, "extern/levi/include")
        files = []
        for d, _, fs in os.walk(src):
            for f in sorted(fs): files.append(os.path.join(d, f))
        alt = os.path.join(REPO, "include/DynamicalPlannerPrivate/Utilities/levi")
        key = h("ov4", *[f + fhash(f) for f in sorted(files)])
        out = os.path.join(CACHE, "ov-" + key)
        if os.path.exists(out + "/done"): return out
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        for f in files:
            t = os.path.join(tmp, os.path.relpath(f, src)); os.makedirs(os.path.dirname(t), exist_ok=True)
            s = open(f, encoding="utf8", errors="replace").read()
            if f.endswith("ForwardDeclarations.h"):
                s = re.sub(r"(typedef[^;]*?)\bScalar;", r"\1ScalarAlias_;", s)
            s = re.sub(r"\blevi::Scalar\b", "levi::ScalarAlias_", s)
            # clang wants no "this" in a constant expression
            s = re.sub(r"static_assert\s*\([^;]*;", lambda m: re.sub(r"this->(\w+)", r"std::remove_reference<decltype(*this)>::type::\1", m.group(0)), s)
            open(t, "w").write(s)
        os.makedirs(tmp + "/levi", exist_ok=True)
        open(tmp + "/levi/AutogeneratedPath.h", "w").write("")
        os.makedirs(tmp + "/levi/Autogenerated", exist_ok=True)
        open(tmp + "/done", "w").write("")
        shutil.rmtree(out, ignore_errors=True)
        try: os.rename(tmp, out)
        except OSError: pass
        return out


def incflags():
    ov = overlay()
    return ["-I" + REPO + "/include", "-I" + VERIF + "/specs", "-I" + VERIF + "/shim", "-I" + ov,
            "-I" + REPO + "/extern/levi/deps/zupply/include", "-I" + REPO + "/extern/levi/deps/sharedlibpp/src",
            "-I/usr/include/eigen3", "-isystem", DEPS + "/include"]

DEFS = ["-std=c++14", "-DNDEBUG", "-include", "cstdint", "-w", "-fno-access-control", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_ALIGN",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_NO_DEBUG", "-DEIGEN_NO_CPUID", "-ffp-contract=off"]
IRF = ["-O1", "-emit-llvm", "-c", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
HEAVY = ("DynamicalConstraints", "CoMInBase", "levi", "Expression", "CentroidalMomentum", "ContactPositionConsistency", "FeetLateral", "CoMPosition", "MomentumInBase")


def srcpath(m):
    if m.startswith("stubs:"): return os.path.join(VERIF, "stubs", m[6:] + ".cpp")
    if m.startswith("specs:"): return os.path.join(VERIF, "specs", m[6:] + ".cpp")
    if m.startswith("/"): return m
    return os.path.join(REPO, m)


def compile_cached(src, flags, ext, post=None, tag=""):
    """compile src with flags; cached by the contents of everything it includes."""
    flags = flags + incflags()
    # a source of the repository that mentions the renamed alias is copied with the same rename
    text = open(src, encoding="utf8", errors="replace").read()
    fk = h(src, " ".join(flags), tag, " ".join(post or []))
    with lock(fk):
        depf = os.path.join(CACHE, "dep-" + fk)
        if os.path.exists(depf):
            deps = json.load(open(depf))
            key = h(fk, *[d + fhash(d) for d in deps])
            out = os.path.join(CACHE, key + ext)
            if os.path.exists(out): return out, ""
        os.makedirs(CACHE, exist_ok=True)
        tmp = os.path.join(CACHE, "t%s-%d" % (fk, os.getpid()))
        use = src
        extra = []
        if re.search(r"\blevi::Scalar\b", text):
            d = os.path.join(CACHE, "src-" + fk); os.makedirs(d, exist_ok=True)
            use = os.path.join(d, os.path.basename(src))
            open(use, "w").write(re.sub(r"\blevi::Scalar\b", "levi::ScalarAlias_", text))
            extra = ["-I" + os.path.dirname(src)]
        rc, o = sh(["clang++-18"] + flags + extra + ["-MD", "-MF", tmp + ".d", use, "-o", tmp + ext], timeout=800)
        if rc == 0 and post:
            rc, o = sh(post + [tmp + ext, "-o", tmp + ".p" + ext], timeout=400)
            if rc == 0: os.replace(tmp + ".p" + ext, tmp + ext)
        if rc: return None, o
        d = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
        os.remove(tmp + ".d")
        deps = sorted(set(x for x in [src] + d if x.startswith((REPO + "/", VERIF + "/"))))
        json.dump(deps, open(depf + ".tmp", "w")); os.replace(depf + ".tmp", depf)
        key = h(fk, *[x + fhash(x) for x in deps])
        out = os.path.join(CACHE, key + ext)
        os.replace(tmp + ext, out)
        return out, ""


def ir(m):
    src = srcpath(m)
    if not os.path.exists(src): return None, "no such file " + src
    SH = ["-I" + VERIF + "/shim_ir"]
    if any(k in src for k in HEAVY) and src.startswith(REPO):
        return compile_cached(src, SH + DEFS + IRF + ["-Xclang", "-disable-llvm-passes"], ".bc", ["opt-18", "-passes=function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,dse))", "-inline-threshold=225"], "h")
    # the QR solver of Eigen is replaced by its contract (any exact solution of a full-rank system)
    qr = ["-include", VERIF + "/shim/qr_contract.h"] if src.startswith(REPO) and "HouseholderQr" in open(src, encoding="utf8", errors="replace").read() else []
    return compile_cached(src, SH + DEFS + qr + IRF, ".bc")


ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-O1", "-g1", "-fPIC", "-c"]


def obj(m):
    src = srcpath(m)
    if not os.path.exists(src): return None, "no such file " + src
    return compile_cached(src, DEFS + ASAN, ".o")


def engine():
    d = os.path.join(VERIF, "engine")
    fs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".cpp", ".h")) or f == "Makefile"]
    key = h("eng", *[fhash(f) for f in fs])
    out = os.path.join(CACHE, "eng-" + key)
    if not os.path.exists(out + "/vpsym"):
        tmp = out + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
        rc, o = sh(["make", "-s", "-j%d" % NCPU, "-C", d, "OBJDIR=" + tmp], timeout=600)
        if rc: raise RuntimeError("engine build failed:\n" + o[-3000:])
        shutil.rmtree(out, ignore_errors=True)
        try: os.rename(tmp, out)
        except OSError: pass
    return out + "/vpsym"


def parse_specs():
    specs = []
    d = os.path.join(VERIF, "specs")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".cpp"): continue
        mods, stubs, opts = [], [], {}
        for line in open(os.path.join(d, f)):
            if not line.startswith("//@"): continue
            w = line[3:].split()
            if w[0] == "modules": mods += w[1:]
            elif w[0] == "stubs": stubs += w[1:]
            elif w[0] == "native_stubs": opts["native_stubs"] = w[1:]
            elif w[0] == "spec":
                s = dict(prop=w[1], name=w[2], file=f[:-4], modules=list(mods), stubs=list(stubs), timeout=240, kind="", native_stubs=opts.get("native_stubs", []))
                for x in w[3:]:
                    if "=" in x: k, v = x.split("=", 1); s[k] = v
                    else: s[x] = True
                s["timeout"] = float(s["timeout"]); specs.append(s)
    return specs


def known_sources():
    p = os.path.join(VERIF, "tools", "known_sources.txt")
    return set(open(p).read().split()) if os.path.exists(p) else set()


def new_sources():
    kn = known_sources(); r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".cpp") and p not in kn: r.append(p)
    return sorted(r)


def ir_modules(spec):
    return ["specs:" + spec["file"]] + spec["modules"] + new_sources() + ["stubs:" + s for s in spec["stubs"]]


def run_engine(spec, bcs, out, timeout, seed, extra=()):
    cmd = [engine(), "--spec", spec["name"], "--out", out, "--timeout", str(timeout), "--seed", str(seed)] + list(extra)
    if "paths" in spec: cmd += ["--max-paths", spec["paths"]]
    if "samples" in spec: cmd += ["--samples", spec["samples"]]
    rc, o = sh(["bash", "-c", "ulimit -s unlimited; exec \"$@\"", "x"] + cmd + bcs, timeout=timeout * 1.3 + 20)
    try: r = json.load(open(out))
    except Exception: r = dict(spec=spec["name"], obligations=0, discharged=0, refuted=0, unknown=0, errors=["engine exit %d: %s" % (rc, o[-400:])], failed=[], labels={}, functions=[], assumptions=[], backends={}, solver_s=0, wall_s=0, stats={})
    r["rc"] = rc
    return r


def native(spec):
    """build the native program of a spec file; returns (path, error)"""
    mods = ["specs:" + spec["file"]] + spec["modules"] + new_sources() + ["stubs:" + s for s in spec.get("native_stubs", [])] + [os.path.join(VERIF, "native/runtime.cpp")]
    with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(obj, mods))
    bad = [e for o, e in rs if o is None]
    if bad: return None, bad[0]
    key = h("nat2", *[o for o, _ in rs]); out = os.path.join(CACHE, "nat-" + key)
    with lock(out):
        if not os.path.exists(out):
            libs = [] 
            for l in sorted(os.listdir(DEPS + "/lib")):
                mm = re.match(r"lib(idyntree-(core|model|optimalcontrol|high-level|modelio|modelio-urdf|sensors))\.so$", l)
                if mm: libs.append("-l" + mm.group(1))
            rc, o = sh(["clang++-18", "-fsanitize=address", "-rdynamic", "-o", out + ".tmp"] + [o for o, _ in rs] + ["-L" + DEPS + "/lib", "-Wl,-rpath," + DEPS + "/lib", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--start-group"] + libs + ["-Wl,--end-group", "-ldl", "-lpthread"], timeout=300)
            if rc: return None, o
            os.replace(out + ".tmp", out)
    return out, ""


def run_native(prog, spec, n, seed, cex=None, budget=30):
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:malloc_fill_byte=255:max_malloc_fill_size=1000000000:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"
    env["LD_LIBRARY_PATH"] = DEPS + "/lib"
    st = os.path.join(CACHE, "state-%d-%d" % (os.getpid(), threading.get_ident()))
    args = [prog, spec["name"], str(n), str(seed), cex or "/dev/null" if cex else "-", str(budget), st]
    rc, o = sh(args, timeout=budget * 2 + 60, env=env)
    last = ""
    if rc not in (0, 1, 3, 5, 6, 124) and os.path.exists(st): last = open(st).read()
    try: os.remove(st)
    except OSError: pass
    return rc, o + (("\nlast " + last) if last else "")
