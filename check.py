#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [quick|thorough].

Builds the property's harnesses from /repo's working tree, runs them, merges
what the monitors observed into evidence/<ID>.json and prints the verdict.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (build failure, nothing observed).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
import registry
import vbuild

EVIDENCE = os.path.join(HERE, "evidence")
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
                    "detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:print_summary=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:"
                    "history_size=4:suppressions=" +
                    os.path.join(HERE, "lib", "tsan.supp"),
    "GLOG_logtostderr": "1",
    "GLOG_minloglevel": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def crash_key(rc, text):
    """A stable name for an abnormal end: kind plus the first /repo frame."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+(?: [\w-]+)?)", text)
    kind = None
    if m:
        kind = "%s %s" % (m.group(1), m.group(2))
    if kind is None and "runtime error:" in text:
        kind = "UndefinedBehaviorSanitizer " + re.search(
            r"runtime error: ([a-z ]{3,40})", text).group(1).strip() if \
            re.search(r"runtime error: ([a-z ]{3,40})", text) else "UBSan"
    if kind is None and "Check failed" in text:
        kind = "check-failure"
    if kind is None:
        kind = "abnormal exit %d" % rc
    where = ""
    m = re.search(r"(cartographer/[\w/]+\.(?:cc|h))(?::\d+)?", text)
    if m:
        where = " at " + m.group(1)
    return kind + where


def shard_cmd(binary, spec, tier, seed, shard, out, scratch):
    cmd = [binary, "--seed", str(seed), "--tier", tier, "--scale",
           str(spec[tier]), "--shard", str(shard), "--shards",
           str(spec["shards"]), "--out", out, "--scratch", scratch]
    if spec["scenarios"]:
        cmd += ["--scenario", spec["scenarios"]]
    return cmd


def execute(cmd, env, watchdog, log):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=watchdog)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = None
    return rc


def run_shard(binary, spec, tier, seed, shard, tmp):
    out = os.path.join(tmp, "%s.%s.%d.json" %
                       (spec["harness"], spec["flavor"], shard))
    log = out + ".log"
    scratch = out + ".scratch"
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(spec["env"])
    env["TMPDIR"] = scratch
    watchdog = spec["watchdog"] if tier == "quick" else \
        spec["thorough_watchdog"]
    cmd = shard_cmd(binary, spec, tier, seed, shard, out, scratch)
    attempts = 0
    while True:
        attempts += 1
        for f in (out, out + ".progress"):
            if os.path.exists(f):
                os.unlink(f)
        t0 = time.time()
        rc = execute(cmd, env, watchdog, log)
        wall = time.time() - t0
        if rc is None and attempts == 1:
            continue  # maybe only a slow machine: once more
        break
    with open(log, errors="replace") as f:
        text = f.read()
    result = {"evaluations": 0, "counters": {}, "distinct": [],
              "samples": [], "violations": []}
    if os.path.exists(out):
        with open(out) as f:
            result = json.load(f)
    progress = ""
    if os.path.exists(out + ".progress"):
        with open(out + ".progress") as f:
            progress = f.read().split()
    scenario = progress[0] if len(progress) > 1 else ""
    case = int(progress[1]) if len(progress) > 1 else -1
    if rc is None:
        result["violations"].append({
            "key": "hang in " + scenario, "scenario": scenario, "case": case,
            "detail": "no end within %d s, twice" % watchdog})
    elif rc == 3:
        return dict(error="%s: inconclusive\n%s" % (spec["harness"],
                                                    text[-1500:]))
    elif rc not in (0, 1) or (rc == 1 and not result["violations"]):
        first = text.find("WARNING: ThreadSanitizer")
        for pat in ("ERROR: AddressSanitizer", "runtime error:",
                    "Check failed"):
            p = text.find(pat)
            if p >= 0 and (first < 0 or p < first):
                first = p
        excerpt = text[max(0, first - 300):][:6000] if first >= 0 \
            else text[-4000:]
        result["violations"].append({
            "key": crash_key(rc, excerpt), "scenario": scenario, "case": case,
            "detail": excerpt})
    if result["violations"]:
        for v in result["violations"]:
            v["run"] = {"harness": spec["harness"], "flavor": spec["flavor"],
                        "shards": spec["shards"], "tier": tier, "seed": seed,
                        "scale": spec[tier]}
    shutil.rmtree(scratch, ignore_errors=True)
    result["wall"] = wall
    return result


def setup():
    vbuild.generate()
    print("setup done")
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = registry.CHECKS[prop]
    meta = [p for p in props.P if p["id"] == prop][0]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(vbuild.CACHE, exist_ok=True)
    binaries, runs = [], []
    try:
        for spec in sorted(check["runs"],
                           key=lambda r: r["flavor"] == "opt"):
            if (spec["flavor"] == "opt" and runs and tier == "quick" and
                    time.time() - t0 > 400):
                # The additional cases in an optimized build only as long as
                # there is time (slow or busy machine).
                print("[build] %s/opt left out" % spec["harness"])
                continue
            runs.append(spec)
            for var, source in spec["tools"].items():
                spec["env"][var] = vbuild.build(source, spec["flavor"])
            binaries.append(vbuild.build(
                spec["harness"], spec["flavor"],
                extra_sources=spec["sources"], whole=spec["whole"]))
    except vbuild.BuildError as e:
        print("BUILD FAILED (no verdict):", e)
        return 2
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=vbuild.CACHE)
    jobs = []
    for spec, binary in zip(runs, binaries):
        for shard in range(spec["shards"]):
            jobs.append((binary, spec, tier, seed, shard, tmp))
    with concurrent.futures.ThreadPoolExecutor(vbuild.JOBS) as ex:
        results = list(ex.map(lambda j: run_shard(*j), jobs))
    shutil.rmtree(tmp, ignore_errors=True)
    errors = [r["error"] for r in results if "error" in r]
    if errors:
        print("NO VERDICT:", errors[0])
        return 2
    counters, distinct, samples, violations = {}, set(), [], []
    evaluations = 0
    per_flavor = {}
    for job, r in zip(jobs, results):
        evaluations += r["evaluations"]
        fl = job[1]["harness"] + "/" + job[1]["flavor"]
        per_flavor[fl] = per_flavor.get(fl, 0) + r["evaluations"]
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        distinct.update(r["distinct"])
        samples += r["samples"]
        violations += r["violations"]
    if not violations and (evaluations == 0 or not distinct):
        print("NO VERDICT: nothing was observed")
        return 2
    known = known_findings(prop)
    fresh, seen = [], {}
    for v in violations:
        hit = [k for k in known if k["key"] == v["key"]]
        if hit:
            seen[hit[0]["key"]] = hit[0]
        else:
            fresh.append(v)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": check["rule"],
            "samples": samples[:5] or ["(no sample: run ended early)"],
            "observed": counters,
            "evaluations_per_build": per_flavor,
        },
        "assumptions": check.get("assumptions", [
            "executions explored are those of this seed and schedule",
            "third-party libraries (Ceres, protobuf, Eigen) behave as "
            "documented"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s %s seed %d: %d evaluations, %d distinct non-trivial, build "
          "%.0fs, total %.0fs" % (prop, tier, seed, evaluations,
                                  len(distinct), build_s,
                                  time.time() - t0))
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, seen[k]["what"]))
    if not fresh:
        return 0
    replay = os.path.join(EVIDENCE, "%s.replay.json" % prop)
    with open(replay, "w") as f:
        json.dump({"property": prop, "violations": fresh,
                   "how": "python3 replay.py <this file>"}, f, indent=1)
        f.write("\n")
    for v in fresh[:5]:
        print("  %s (scenario %s, case %s): %s" %
              (v["key"], v["scenario"], v["case"],
               v["detail"][:1500].replace("\n", "\n    ")))
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1


if __name__ == "__main__":
    sys.exit(main())
