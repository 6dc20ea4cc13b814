#!/usr/bin/env python3
"""plant a bug: mkseed.py ID PROPERTY FILE <<< JSON {old,new,(more edits),needs,breaks,demo(body of main),inc,(std flags)}"""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"
def plant(id, prop, edits, needs, breaks, demo, inc="", libs="-lDynamicalPlannerPrivate -lDynamicalPlanner"):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="vpseed"); files = sorted(set(e[0] for e in edits)); outs = ""
    for f in files:
        for side in "ab":
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); shutil.copy("/repo/" + f, p)
        p = os.path.join(t, "b", f); s = open(p).read()
        for e in edits:
            if e[0] == f:
                assert s.count(e[1]) == (e[3] if len(e) > 3 else 1), (id, f, e[1], s.count(e[1]))
                s = s.replace(e[1], e[2])
        open(p, "w").write(s)
        outs += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE).stdout.decode()
    open(os.path.join(d, "patch.diff"), "w").write(outs); shutil.rmtree(t)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    open(os.path.join(d, "meta.json"), "w").write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    open(os.path.join(d, "demo.cpp"), "w").write("#include <cstdio>\n#include <cmath>\n#include <string>\n#include <vector>\n#include <memory>\n#include <iDynTree/Core/VectorDynSize.h>\n#include <iDynTree/Core/MatrixDynSize.h>\n" + inc + "\nstatic int bad = 0;\nstatic void expect(bool ok, const char* what) { if (!ok) { bad = 1; printf(\"wrong: %s\\n\", what); } }\nstatic bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a)); }\nint main() {\n" + demo + "\n    return bad;\n}\n")
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run in the repository after the build; 0: behaviour as documented
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=/opt/vp/deps/idyntree
g++ -std=c++14 -O1 -include cstdint -w -I"$R/include" -I"$R/extern/levi/include" -I"$R/_build/extern/levi" -I/usr/include/eigen3 -isystem $I/include "$D/demo.cpp" -o "$T/demo" \\
  -L"$R/_build/lib" %s -L$I/lib -lidyntree-optimalcontrol -lidyntree-high-level -lidyntree-model -lidyntree-core -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$T" && LD_LIBRARY_PATH="$R/_build/lib:$I/lib" ./demo
''' % libs)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
