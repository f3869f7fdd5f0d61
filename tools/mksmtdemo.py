#!/usr/bin/env python3
"""Development aid: mksmtdemo.py <seed id> <replay file>... : makes demo.sh from the scripts of replay files"""
import os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(VERIF, "seeded", sys.argv[1])
for i, f in enumerate(sys.argv[2:]):
    t = open(f).read()
    if "--- case ---" in t:
        t = t.split("--- case ---\n")[1].split("\n\n--- ")[0]
    opts = re.findall(r"^; options:(.*)$", t, re.M)
    t = "\n".join(l for l in t.splitlines() if not l.startswith(";")) + "\n"
    z = subprocess.run(["z3", "-in"], input=t.replace("(get-model)", ""), stdout=subprocess.PIPE, text=True).stdout.split()[0]
    open("%s/case%d.smt2" % (d, i), "w").write("; expect %s%s\n" % (z, " " + opts[0].strip() if opts else "") + t)
shutil.copy(os.path.join(VERIF, "tools", "demo_smt.py"), d)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo_smt.py"\n')
