#!/usr/bin/env python3
"""Development aid: mkseed.py <specs.py> [id...]  (specs: BUGS = {id: (property, [(file, old, new)...], needs, breaks)})
Writes seeded/<id>/patch.diff and meta.json; the demonstration is written by hand."""
import json, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "2d2ebc5"
ns = {}
exec(open(sys.argv[1]).read(), ns)
mut = "/tmp/scr/mut"
git = lambda *a: subprocess.check_output(["git", "-C", mut] + list(a), text=True)
if not os.path.isdir(mut):
    subprocess.check_call(["git", "clone", "-q", "/repo", mut])
git("fetch", "-q", "origin")
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
for sid, (prop, edits, needs, breaks) in ns["BUGS"].items():
    if sys.argv[2:] and sid not in sys.argv[2:]:
        continue
    git("checkout", "-q", "-f", head)
    for f, old, new in edits:
        p = os.path.join(mut, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = git("diff")
    # removed lines must be lines of the original repository
    for f in {e[0] for e in edits}:
        d = git("diff", "-U0", f)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n == 0:
                print(sid, "pure insertion in", f)
                continue
            for l in git("blame", "-s", "-L%d,%d" % (a, a + n - 1), "HEAD", "--", f).splitlines():
                c = l.split()[0].lstrip("^")
                anc = subprocess.run(["git", "-C", mut, "merge-base", "--is-ancestor", c, BASE]).returncode == 0
                if not anc:
                    print(sid, "NOT ORIGINAL:", l)
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(sid, "ok")
