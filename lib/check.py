#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   run the check of one property
check.py --replay FILE                      re-run one recorded case
check.py --build-all                        compile everything (setup)
"""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import REGISTRY

VERIF = build.VERIF
ENV = dict(os.environ,
           OMPI_MCA_btl="self", OMPI_MCA_btl_base_warn_component_unused="0",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_plm_rsh_agent="", OMPI_MCA_ess_singleton_isolated="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:alloc_dealloc_mismatch=0:allocator_may_return_null=1",
           LC_ALL="C.UTF-8")


def all_sources():
    out = []
    root = os.path.join(build.REPO, "src")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def build_part(pid, i, part):
    srcs = [s for s in part.get("repo", []) if os.path.exists(os.path.join(build.REPO, "src", s))]
    return build.build_exe("%s_%d" % (pid, i), part["harness"], srcs,
                           asan=part.get("asan", True), overlay=part.get("overlay", False),
                           opt=part.get("opt", "-O1"), extra=part.get("extra", ()),
                           fallback=all_sources())


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def part_cmd(pid, i, part):
    if part["kind"] == "cpp":
        return [build_part(pid, i, part)]
    if part["kind"] == "py":
        return [sys.executable, os.path.join(VERIF, part["script"])]
    raise SystemExit("unknown part kind")


def run_check(pid, tier):
    t0 = time.time()
    spec = REGISTRY[pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, ".cache", "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = [k for k in known_findings() if k["property"] == pid and k["status"] == "known"]
    kfile = os.path.join(VERIF, ".cache", "known_%s.txt" % pid)
    with open(kfile, "w") as f:
        for k in kf:
            f.write(k["key"] + "\n")
    results, viols, known, errors = [], [], {}, []
    for i, part in enumerate(spec["parts"]):
        out = os.path.join(VERIF, ".cache", "part_%s_%d.json" % (pid, i))
        if os.path.exists(out):
            os.remove(out)
        try:
            cmd = part_cmd(pid, i, part)
        except build.BuildError as e:
            print("ERROR: %s" % e)
            return 2
        cmd += ["--out", out, "--known", kfile, "--replay-dir", rdir]
        if tier == "thorough":
            cmd.append("--thorough")
        for attempt in (1, 2):
            # a run without an answer (e.g. the machine stalled) is started again once
            r = subprocess.run(cmd, env=ENV, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            p = None
            if r.returncode == 0 and os.path.exists(out):
                with open(out, encoding="utf-8", errors="replace") as f:
                    p = json.load(f)
                if not p.get("error") or p["violations"]:
                    break
        if p is None:
            errors.append("part %d exited with %d\n%s" % (i, r.returncode, r.stdout[-3000:]))
            continue
        results.append(p)
        for v in p["violations"]:
            # remember which part has to replay it
            try:
                with open(v["replay"]) as f:
                    body = json.load(f)
                body["part"] = i
                with open(v["replay"], "w") as f:
                    json.dump(body, f)
            except OSError:
                pass
            viols.append(v)
        for k in p["known"]:
            known[k["key"]] = k["msg"]
        if p.get("error"):
            errors.append(p["error"])
        if viols:
            break
    states = sum(int(s.get("states", 0)) for p in results for s in p["scenarios"])
    execs = sum(int(s.get("execs", 0)) for p in results for s in p["scenarios"])
    steps = sum(int(s.get("steps", 0)) for p in results for s in p["scenarios"])
    outc = sum(int(s.get("outcomes", 0)) for p in results for s in p["scenarios"])
    samples = [s for p in results for s in p["samples"]][:24]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": spec["level"],
        "coverage": {
            "states": states,
            "transitions": steps,
            "traces_validated_against_impl": execs,
            "evaluations": execs,
            "distinct_nontrivial": outc,
            "rule": "states: nodes of the explored decision tree; transitions: steps of the real code whose "
                    "result was compared with the oracle; evaluations/traces: complete executions of the real "
                    "code; distinct_nontrivial: distinct observed outcomes. " + spec.get("rule", ""),
            "exhaustive": not viols and not errors,
            "scenarios": [s for p in results for s in p["scenarios"]],
            "samples": samples,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viols),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in kf:
        if k["key"] in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["key"]))
    for e in errors:
        print("ERROR: " + e)
    if viols:
        for v in viols:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
            print("  key:  %s" % v["key"])
            print("  case: %s" % v.get("case", "")[:1500])
            print("  %s" % v["msg"][:1500])
        return 1
    if errors:
        return 2
    print("ok: property=%s tier=%s executions=%d states=%d checked-steps=%d outcomes=%d wall=%.1fs"
          % (pid, tier, execs, states, steps, outc, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        bad = 0
        for pid, spec in REGISTRY.items():
            for i, part in enumerate(spec["parts"]):
                if part["kind"] == "cpp":
                    try:
                        build_part(pid, i, part)
                    except build.BuildError as e:
                        print("ERROR building %s: %s" % (pid, e))
                        bad = 1
        sys.exit(bad)
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            b = json.load(f)
        part = b.get("part", 0)
        spec = REGISTRY[b["property"]]["parts"][part]
        sys.exit(subprocess.run(part_cmd(b["property"], part, spec) + ["--replay", os.path.abspath(a[1])], env=ENV).returncode)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(a[0], "thorough" if tier == "thorough" else "quick"))


if __name__ == "__main__":
    main()
