"""newseed.py SPEC.py [--no-check]: write and confirm planted bugs.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, demo (C++ text), srcs (files under src/ the demo compiles),
shim (copy the Adept stand-in beside the demo).  Each is applied to /repo,
built, tested, demonstrated, checked and undone again.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, nonzero if it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export OMPI_MCA_btl=self OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
I="-I$here %(inc)s -Isrc/common -Isrc/common/data -Isrc/physics -Isrc/physics/electromagnetics -Isrc/physics/fluidflow -Isrc/physics/thermal -Isrc/utils -Isrc/utils/mesh_warper"
I="$I -isystem /usr/include/mfem -isystem /usr/include/hypre -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
g++ -std=c++17 -O1 -w %(flags)s $I "$here/demo.cpp" %(srcs)s -o "$t/demo" -lmfem -lHYPRE -lmpi -lmpi_cxx -lpthread %(libs)s || exit 3
cd "$t" && timeout 120 ./demo
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


def one(s, check):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        first = old.startswith("@FIRST@")   # the first of several occurrences
        old = old[7:] if first else old
        if t.count(old) != 1 and not (first and t.count(old)):
            clean()
            return "edit of %s matches %d times" % (f, t.count(old))
        open(p, "w").write(t.replace(old, new, 1))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout)
    clean()
    if s.get("demo_sh"):
        open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
    else:
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        if s.get("shim"):
            for n in ("adept.h", "tinysplinecxx.h"):
                shutil.copy(os.path.join(V, "shim", n), d)
        inc = ""
        if s.get("overlay"):
            shutil.copytree(os.path.join(V, "shim", "overlay"), os.path.join(d, "overlay"), dirs_exist_ok=True)
            inc = "-I$here/overlay"
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(inc=inc, srcs=" ".join("src/" + x for x in s.get("srcs", [])), flags=s.get("flags", ""), libs=s.get("libs", "")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
    if r.returncode != 0:
        return "demo fails on the unchanged tree: %d\n%s" % (r.returncode, r.stdout[-1500:])
    if sh("git", "-C", R, "apply", os.path.join(d, "patch.diff")).returncode:
        return "patch does not apply"
    try:
        r = sh("bash", "/opt/vp/build.sh")
        if r.returncode:
            return "build fails\n" + r.stdout[-1500:]
        r = sh("bash", "/opt/vp/test.sh", "/tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json"))
        if o["failed"] or len(o["passed"]) < 4:
            return "tests fail: %s" % o["failed"]
        r = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
        if r.returncode in (0, 3):
            return "demo does not fail with the patch: %d\n%s" % (r.returncode, r.stdout[-800:])
        res = "demo rc %d" % r.returncode
        if check:
            c = sh("python3", os.path.join(V, "lib", "check.py"), s["property"], "quick", cwd=V)
            keys = [l.strip() for l in c.stdout.splitlines() if l.strip().startswith("key:")]
            res += " CAUGHT " if c.returncode == 1 else " *** MISSED rc=%d " % c.returncode
            res += " ".join(sorted(set(keys)))[:200] if keys else c.stdout[-300:]
        return res
    finally:
        clean()
        sh("bash", "/opt/vp/build.sh")


ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and not sys.argv[2].startswith("--") and s["id"] not in sys.argv[2:]:
        continue
    print(s["id"], s["property"], one(s, "--no-check" not in sys.argv), flush=True)
