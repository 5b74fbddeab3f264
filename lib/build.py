"""Build pieces of /repo's working tree plus the harnesses in /verif.

Objects are cached by content in /verif/.cache (git-ignored): an object is
reused only if the command line and the bytes of every non-system file it was
compiled from are the ones recorded when it was made, so a check always judges
the current working tree.
"""
import hashlib
import json
import os
import shlex
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

MISO_DIRS = ["common", "common/data", "physics", "physics/electromagnetics",
             "physics/fluidflow", "physics/thermal", "utils", "utils/mesh_warper"]
SYS = ["/usr/include/mfem", "/usr/include/hypre",
       "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LAPACK = "/usr/lib/x86_64-linux-gnu/liblapack.so.3"


class BuildError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


def fhash(p, memo={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
        if k not in memo:
            with open(p, "rb") as f:
                memo[k] = sha(f.read())
        return memo[k]
    except OSError:
        return "missing"


def include_flags(overlay):
    inc = ["-I" + os.path.join(VERIF, "mc")]
    if overlay:
        inc.append("-I" + os.path.join(VERIF, "shim", "overlay"))
    inc.append("-I" + os.path.join(VERIF, "shim"))
    inc += ["-I" + os.path.join(REPO, "src", d) for d in MISO_DIRS]
    for s in SYS:
        inc += ["-isystem", s]
    return inc


def base_flags(asan=True, overlay=False, opt="-O1"):
    fl = ["-std=c++17", opt, "-g1", "-DNDEBUG", "-w", "-fno-omit-frame-pointer"]
    if asan:
        fl += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
    return fl + include_flags(overlay)


def compile_one(src, flags, extra=()):
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    cmd = ["g++"] + list(flags) + list(extra) + ["-MMD", "-c", src]
    key = sha(("\0".join(cmd)).encode())[:32]
    obj = os.path.join(CACHE, "obj", key + ".o")
    man = obj + ".json"
    try:
        with open(man) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(fhash(p) == h for p, h in m.items()):
            return obj
    except (OSError, ValueError):
        pass
    dep = obj + ".d"
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run(cmd + ["-MF", dep, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=VERIF)
    if r.returncode != 0:
        raise BuildError("compiling %s failed\n%s" % (src, r.stdout[-6000:]))
    os.replace(tmp, obj)
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    deps = shlex.split(txt.split(":", 1)[1])
    with open(man, "w") as f:
        json.dump({p: fhash(p) for p in sorted(set(deps))}, f)
    return obj


def compile_all(jobs, nproc=None):
    """jobs: list of (src, flags, extra) -> list of objects"""
    with ThreadPoolExecutor(nproc or os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_one, *j) for j in jobs]
        return [f.result() for f in futs]


def link(objs, out, asan=True, libs=()):
    cmd = ["g++"] + (["-fsanitize=address"] if asan else []) + list(objs)
    cmd += ["-o", out, "-lmfem", "-lHYPRE", "-lmpi", "-lmpi_cxx"]
    cmd += list(libs) + ["-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed\n%s" % (out, r.stdout[-6000:]))
    return out


def build_exe(name, harness, repo_srcs, asan=True, overlay=False, opt="-O1",
              extra=(), fallback=None):
    """Compile harness sources and the given /repo sources, link an executable.

    If linking fails (a change moved code to another file), every source file
    in `fallback` is added, so that moving code around is not an error.
    """
    flags = base_flags(asan, overlay, opt)
    mcflags = ["-std=c++17", "-O2", "-g1", "-w"] + (["-fsanitize=address"] if asan else []) + ["-I" + os.path.join(VERIF, "mc")]
    jobs = [(os.path.join(VERIF, "mc", "mc.cpp"), mcflags, ())]
    jobs += [(os.path.join(VERIF, h), flags, tuple(extra)) for h in harness]
    jobs += [(os.path.join(REPO, "src", s), flags, tuple(extra)) for s in repo_srcs]
    objs = compile_all(jobs)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    out = os.path.join(CACHE, "bin", name)
    try:
        return link(objs, out, asan, [LAPACK])
    except BuildError:
        if not fallback:
            raise
        have = set(repo_srcs)
        more = []
        for s in fallback:
            if s in have:
                continue
            try:
                more.append(compile_one(os.path.join(REPO, "src", s), flags, tuple(extra)))
            except BuildError:
                pass
        return link(objs + more, out, asan, [LAPACK])
