#!/usr/bin/env python3
"""Development aid (not used by any check): verifies a planted bug in a scratch copy and runs checks against it.

plant.py <id>... [--checks C01,C02] [--no-demo]   ids are directories of /verif/seeded
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/scr"
CM = ["cmake", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DFOUND_CATCH=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
      "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_C_COMPILER=/usr/bin/gcc"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def build(d):
    rc, log = sh(CM + ["-S", d, "-B", d + "/_build"])
    if rc == 0:
        rc, log = sh(["ninja", "-C", d + "/_build"])
    return rc, log


def prepare(name):
    d = os.path.join(SCR, name)
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()
    if not os.path.isdir(d):
        os.makedirs(SCR, exist_ok=True)
        sh(["git", "clone", "-q", "/repo", d])
    sh(["git", "-C", d, "fetch", "-q", "origin"])
    sh(["git", "-C", d, "checkout", "-q", "-f", head])
    return d


def tests(d):
    rep = tempfile.mkdtemp(prefix="rep", dir=SCR)
    out = rep + ".json"
    open(out, "w").write('{"passed": [], "failed": []}')
    subprocess.run(["python3", "/opt/vp/run_catch.py", d + "/_build/test", rep], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    sh(["bash", "-c", "python3 /opt/vp/results.py %s 'junit:%s/*.xml'" % (out, rep)])
    r = json.load(open(out))
    shutil.rmtree(rep)
    os.unlink(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or []
    missing = [t for t in stable if t not in r["passed"]]
    return missing, len(r["passed"])


def demo(seed, d):
    tmp = tempfile.mkdtemp(prefix="demo", dir=SCR)
    t = os.path.join(tmp, "x")
    shutil.copytree(seed, t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = [x for x in args[i + 1].split(",") if x]
        del args[i:i + 2]
    nodemo = "--no-demo" in args
    if nodemo:
        args.remove("--no-demo")
    base = prepare("base")
    rc, log = build(base)
    assert rc == 0, log
    for s in args:
        seed = os.path.join(VERIF, "seeded", s)
        meta = json.load(open(seed + "/meta.json"))
        mut = prepare("mut")
        rc, log = sh(["git", "-C", mut, "apply", "--check", seed + "/patch.diff"])
        if rc:
            print(s, "PATCH DOES NOT APPLY", log)
            continue
        sh(["git", "-C", mut, "apply", seed + "/patch.diff"])
        if True:
            rc, log = build(mut)
            if rc:
                print(s, "BUILD FAILS", log[-3000:])
                continue
            missing, n = tests(mut)
            if nodemo:
                print(s, "tests passed %d missing %s" % (n, missing[:3]), flush=True)
                if missing: continue
            b, bo = (0, "") if nodemo else demo(seed, base)
            m, mo = (1, "") if nodemo else demo(seed, mut)
            print(s, "tests passed %d missing %s; demo base %d mutant %d" % (n, missing[:3], b, m), flush=True)
            if b:
                print("   demo on base:", bo[-800:])
            if m == 0:
                print("   demo on mutant:", mo[-800:])
        for c in checks if checks is not None else [meta["property"]] if checks is None else []:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=mut, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["python3", VERIF + "/tools/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            tail = [l for l in r.stdout.splitlines() if l.strip()][-1:]
            what = [l for l in r.stdout.splitlines() if l.startswith("failure in")][:1]
            print("  ", s, c, "exit", r.returncode, "%.0fs" % (time.time() - t), what, tail, flush=True)


if __name__ == "__main__":
    main()
