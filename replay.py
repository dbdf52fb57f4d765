#!/usr/bin/env python3
"""Re-runs the cases recorded in a replay file: replay.py FILE."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import registry
import vbuild
import check

for v in json.load(open(sys.argv[1]))["violations"]:
    r = v["run"]
    spec = [s for p in registry.CHECKS.values() for s in p["runs"]
            if s["harness"] == r["harness"] and s["flavor"] == r["flavor"]][0]
    for var, source in spec["tools"].items():
        spec["env"][var] = vbuild.build(source, spec["flavor"])
    binary = vbuild.build(r["harness"], r["flavor"],
                          extra_sources=spec["sources"], whole=spec["whole"])
    cmd = [binary, "--seed", str(r["seed"]), "--tier", r["tier"], "--scale",
           str(r["scale"])]
    if v["scenario"]:
        cmd += ["--scenario", v["scenario"], "--case", str(v["case"])]
    env = dict(os.environ)
    env.update(check.SAN_ENV)
    env.update(spec["env"])
    print("==", v["key"], ":", " ".join(cmd), flush=True)
    print("== exit", subprocess.run(cmd, env=env).returncode)
