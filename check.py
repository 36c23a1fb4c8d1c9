#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE] [-v]

Builds eckit from /repo's working tree, builds the harness of property ID, explores, writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Other: the check could not run.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
import build  # noqa: E402
from checks import CHECKS  # noqa: E402


def run_env(cfg, scratch):
    e = build.env()
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=86:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1:"
                         "malloc_context_size=12:quarantine_size_mb=32:check_initialization_order=0:"
                         "detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:" + cfg.get("asan", ""))
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:report_signal_unsafe=0:second_deadlock_stack=1:" + cfg.get("tsan", "")
    e["ECKIT_EXCEPTION_IS_SILENT"] = "1"
    e["ECKIT_ASSERT_FAILED_IS_SILENT"] = "1"
    e["ECKIT_SERIOUS_BUG_IS_SILENT"] = "1"
    e["OMP_NUM_THREADS"] = "2"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["HOME"] = scratch
    e["TMPDIR"] = scratch
    e["TZ"] = "UTC"
    e["ECKIT_GEO_CACHE_PATH"] = os.path.join(scratch, "geocache")
    e["OMPI_ALLOW_RUN_AS_ROOT"] = e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
    e["OMPI_MCA_hwloc_base_binding_policy"] = "none"
    e["OMPI_MCA_btl"] = "self,vader"
    e["OMPI_MCA_plm"] = "isolated"
    e["OMPI_MCA_mpi_yield_when_idle"] = "1"
    e.update(cfg.get("env", {}))
    return e


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    replay = None
    extra = []
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    extra = [a for a in args if a.startswith("--")]
    args = [a for a in args if not a.startswith("--")]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    try:
        exe = build.build_harness(cfg.get("variant", "asan"), cfg["harness"], cfg["libs"], extra=cfg.get("cxxflags", ()),
                                  syslibs=cfg.get("syslibs", ()))
    except build.BuildError as e:
        print(e)
        print("BUILD FAILED: nothing explored")
        return 3
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        e = run_env(cfg, scratch)
        base = [exe, "--scratch=" + scratch, "--case-ms=%d" % cfg.get("case_ms", 60000)]
        if cfg.get("flaky"):
            base.append("--flaky")
        if cfg.get("prefix"):
            base = cfg["prefix"] + base
        if replay:
            r = subprocess.run(base + ["--replay=" + os.path.abspath(replay)], env=e)
            if r.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
            return r.returncode
        # saved minimal failures of defects that were repaired, and the listed findings
        regress = 0
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", pid, "*.replay"))):
            r = subprocess.run(base + ["--replay=" + f], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            regress += 1
            if r.returncode == 1:
                print(r.stdout[-4000:])
                print("VIOLATION property=%s replay=%s" % (pid, f))
                write_evidence(pid, tier, seed, cfg, None, t0, t_build, regress, 1, [])
                return 1
            if r.returncode != 0:
                print(r.stdout[-4000:])
                return 3
        known = []
        for k in known_findings():
            if k["property"] != pid:
                continue
            # each listed finding has its own sub-property (weight 0, fixed input) that fails as long as the defect is there
            kf = os.path.join(scratch, "known.replay")
            with open(kf, "w") as f:
                f.write("sub %s\nkind case\nseed 1\nworkers 8\nguided 50\nthorough 0\nworker 0\ncase 0\ncases 1\nchoices 0\n---\n" % k["sub"])
            r = subprocess.run(base + ["--replay=" + kf], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode not in (0, 1):
                print(r.stdout[-4000:])
                return 3
            if r.returncode == 1:
                known.append(k["id"])
                print("KNOWN-FINDING: property=%s %s %s" % (pid, k["id"], k["what"]), flush=True)
        q = cfg[tier] if tier in cfg else cfg["quick"]
        out = os.path.join(scratch, "out.json")
        rep = os.path.join(rdir, "%s-seed%d-%s.replay" % (pid, seed, tier))
        if os.path.exists(rep):
            os.unlink(rep)
        cmd = base + ["--seed=%d" % seed, "--cases=%d" % q["cases"], "--seconds=%g" % q["seconds"], "--out=" + out, "--replay-out=" + rep,
                      "--workers=%d" % cfg.get("workers", 8), "--guided=%d" % cfg.get("guided", 50)] + extra
        if tier == "thorough":
            cmd.append("--thorough")
        if verbose:
            cmd.append("-v")
        unrep = 0
        while True:
            r = subprocess.run(cmd, env=e)
            if r.returncode == 2 and unrep < 2:  # a failure that did not reproduce: look again with other cases
                unrep += 1
                cmd = [("--seed=%d" % (seed + 1000 * unrep)) if c.startswith("--seed=") else c for c in cmd]
                continue
            break
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        if r.returncode in (0, 1, 2) and res is not None:
            write_evidence(pid, tier, seed, cfg, res, t0, t_build, regress, 1 if r.returncode == 1 or (r.returncode == 2 and cfg.get("flaky")) else 0, known, unrep)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            return 1
        if r.returncode == 2 and cfg.get("flaky"):
            # a check of schedules: each of three separate searches found a failure that needs a rare schedule
            print("failures in three searches, none of which happened again at once; see %s" % rep)
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            return 1
        if r.returncode == 2:
            print("unreproducible failures only; see %s" % rep)
            return 0
        if r.returncode != 0:
            return 3
        if res["cases"] == 0 or res["distinct_nontrivial"] < 2:
            print("nothing non-trivial was explored")
            return 3
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, cfg, res, t0, t_build, regress, violations, known, unrep=0):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": cfg["rule"], "samples": []}
    if res:
        cov = {
            "evaluations": res["cases"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": cfg["rule"],
            "samples": res["samples"][:8],
            "discarded": res["discarded"],
            "labels": res["labels"],
            "coverage_guided_cases": res["guided_cases"],
            "corpus": res["corpus"],
            "edges_of_best_worker": res["edges"],
            "shrink_evaluations": res["shrink_evals"],
        }
    cov["regression_replays"] = regress
    cov["build_s"] = round(t_build, 1)
    cov["known_findings_reproduced"] = known
    cov["unreproduced_failures"] = unrep
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
