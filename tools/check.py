#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [harness options...]"""
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from props import PROPS, QUICK_SCALE

VERIF = vbuild.VERIF


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    if pid == "--setup":
        # every check builds what it needs; only look whether the tools are there
        ok = True
        for t in ("clang++", "g++", "objcopy", "z3", "flex"):
            if not shutil.which(t):
                print("missing tool", t)
                ok = t == "z3" and ok
        return 0 if ok else 3
    if pid == "--all-builds":
        ok = True
        for p, c in PROPS.items():
            for v in c.get("variants", ["asan"]):
                t = time.time()
                exe = vbuild.build(["pbt.cpp"] + c["sources"], v, p, c.get("mains", ()), c.get("defs", ()))
                print(p, v, "ok" if exe else "FAILED", "%.1fs" % (time.time() - t), flush=True)
                ok = ok and bool(exe)
        return 0 if ok else 3
    c = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in rest:
        i = rest.index("--tier")
        tier = rest[i + 1]
        del rest[i:i + 2]
    if "--seed" in rest:
        i = rest.index("--seed")
        seed = rest[i + 1]
        del rest[i:i + 2]
    try:
        seed = str(int(seed) & 0x7FFFFFFFFFFF)
    except ValueError:
        seed = str(abs(hash(seed)) % 1000003)
    replay = None
    if "--replay" in rest:
        replay = rest[rest.index("--replay") + 1]
    if tier == "quick" and not replay and "--scale" not in rest:
        rest += ["--scale", str(QUICK_SCALE.get(pid, 1))]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=1500:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    variants = c.get("variants", ["asan"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evfile = os.path.join(VERIF, "evidence", pid + ".json")
    if not replay and os.path.exists(evfile):
        os.unlink(evfile)
    rc = 0
    docs = []
    for v in variants:
        t = time.time()
        exe = vbuild.build(["pbt.cpp"] + c["sources"], v, pid, c.get("mains", ()), c.get("defs", ()))
        if not exe:
            print("build failed (%s)" % v)
            return 3
        print("built %s/%s in %.1f s" % (pid, v, time.time() - t), flush=True)
        scratch = os.path.join(vbuild.BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(scratch, exist_ok=True)
        ev = os.path.join(scratch, "ev.json")
        cmd = [exe, "--tier", tier, "--seed", seed, "--evidence", ev,
               "--replay-dir", os.path.join(VERIF, "replays"), "--scratch", scratch] + rest
        try:
            r = subprocess.run(cmd, env=env).returncode
            if os.path.exists(ev):
                d = json.load(open(ev))
                d["coverage"]["variant"] = v
                docs.append(d)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if r == 1:
            rc = 1
            break
        if r != 0:
            print("harness ended with status", r)
            return 3
    if docs and not replay:
        d = docs[0]
        for o in docs[1:]:
            for k in ("evaluations", "distinct_nontrivial", "discarded", "inconclusive_timeouts", "not_reproduced"):
                d["coverage"][k] += o["coverage"][k]
            d["wall_s"] += o["wall_s"]
            d["violations"] += o["violations"]
            d["coverage"]["other_variant_" + o["coverage"]["variant"]] = {
                "sub_checks": o["coverage"]["sub_checks"], "labels": o["coverage"]["labels"]}
        with open(evfile, "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")
    return rc


sys.exit(main())
