#!/usr/bin/env python3
"""Runs _build/smt on every *.smt2 file next to this program (first line: '; expect sat|unsat [options]') and
compares the answers; a printed model is checked by z3 (declarations replaced by the printed definitions)."""
import glob, os, re, subprocess, sys

here = os.path.dirname(os.path.abspath(__file__))


def sexprs(text):
    out, stack, tok = [], [], re.compile(r'\s+|;[^\n]*|\(|\)|\|[^|]*\||"(?:[^"]|"")*"|[^\s();]+')
    for t in tok.findall(text):
        if not t.strip() or t.startswith(";"):
            continue
        if t == "(":
            stack.append([])
        elif t == ")":
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            (stack[-1] if stack else out).append(t)
    return out


def show(x):
    return x if isinstance(x, str) else "(" + " ".join(map(show, x)) + ")"


bad = 0
for path in sorted(glob.glob(here + "/*.smt2")):
    text = open(path).read()
    head = text.splitlines()[0].split()
    assert head[:2] == [";", "expect"]
    r = subprocess.run(["_build/smt"] + head[3:] + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    got = r.stdout.split("\n")[0].strip()
    if got != head[2]:
        print(os.path.basename(path), "expected", head[2], "got", r.stdout[:300], r.stderr[-300:])
        bad = 1
        continue
    if got == "sat":
        model = sexprs(r.stdout[r.stdout.index("sat") + 3:])
        defs = {}
        for m in model:
            for d in m:
                if isinstance(d, list) and d and d[0] == "define-fun":
                    defs[d[1]] = d
        script = ["(set-logic QF_UFLRA)"]
        for c in sexprs(text):
            if c[0] in ("declare-fun", "declare-const"):
                if c[1] in defs:
                    script.append(show(defs[c[1]]))
                    continue
                script.append(show(c))
            elif c[0] in ("assert", "define-fun"):
                script.append(show(c))
        script.append("(check-sat)")
        z = subprocess.run(["z3", "-in"], input="\n".join(script), stdout=subprocess.PIPE, text=True).stdout.strip()
        if z != "sat":
            print(os.path.basename(path), "model does not satisfy the assertions:", z, r.stdout[:600])
            bad = 1
sys.exit(bad)
