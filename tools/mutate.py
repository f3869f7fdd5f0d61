#!/usr/bin/env python3
"""Development aid (no check uses it): mutation testing of the checks.

mutate.py N SEED OUT [file substring...]   makes N random mutants of /repo/src in a scratch clone (with MUT_TESTS=1: N which pass the tests) and runs the checks
that are relevant for the mutated file, the most likely ones first, until one reports a violation.
"""
import json, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get("MUT_DIR", "/tmp/scr/mutclone")
CHECKS = [
    ("lra/Long_fraction", "C06 C18 C01 C17"), ("lra/Fraction", "C06 C01"), ("lra/Rational", "C06"), ("lra/", "C18 C17 C01 C05 C02 C20 C12"),
    ("uf/", "C18 C03 C04 C05 C20"), ("bool/", "C14 C08 C01 C17"), ("variable_order/", "C12 C18 C08 C01 C05"), ("parser/", "C16 C19 C20 C01 C04 C03"),
    ("terms/", "C18 C16 C01 C03 C19 C04"), ("sat_solver", "C07"), ("smt_solver", "C21"), ("Subsumption", "C10 C09 C08"), ("Restart", "C13 C08"), ("Trail", "C11 C18 C15 C14 C17 C01"),
    ("Model", "C11 C14 C01"), ("Conflict_analysis", "C15 C09 C18 C01 C17"), ("Solver", "C18 C08 C09 C14 C20 C17 C01 C11 C12"), ("Theory_combination", "C18 C17 C03 C01 C08 C14"), ("utils/", "C18 C01 C16 C04 C20"),
    ("Yaga", "C22 C18 C21 C05 C16 C01 C03 C04 C20 C08"), ("", "C18 C08 C14 C01 C10 C11 C13 C15 C17 C03 C05"),
]
OPS = [
    (r"(?<![<>=!\-+*/&|])<(?![<=>])(?= )", "<="), (r"(?<= )>(?![>=])(?= )", ">="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>=(?= )", ">"),
    (r"(?<= )==(?= )", "!="), (r"(?<= )!=(?= )", "=="), (r"(?<= )&&(?= )", "||"), (r"(?<= )\|\|(?= )", "&&"),
    (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\+ 1\b", ""), (r"(?<= )- 1\b", ""), (r"\+\+(?=\w)", "--"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""), (r"~(?=[a-z])", ""), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"(?<=if \()(?=.*\)$)", "false && "), (r"(?<=if \()(?=.*\)$)", "true || "),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[( ,])-(?=[a-z])", ""),
    (r"^(\s*)([a-z][\w.\->\[\]()]*(\(|\.|->|\[| = | \+= |\+\+|--).*;)$", r"\1;"), (r"^(\s*)(\+\+|--).*;$", r"\1;"),
    (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"\blower", "upper"), (r"\bupper", "lower"), (r"\bfirst\b", "second"),
    (r"^(\s*)return (.*);$", "RET"),
]
CODE_SKIP = re.compile(r"^\s*(//|/\*|\*|#|assert\(|using |template|namespace|class |struct |public:|private:|enum |case .*:$|default:)")


def mutants(rng, subs):
    files = []
    for root, ds, fs in os.walk(os.path.join(MUT, "src")):
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, os.path.join(MUT, "src"))
            if f in ("lexer_test.cpp", "Fraction.h") or not f.endswith((".cpp", ".h")):
                continue
            if subs and not any(s in rel for s in subs):
                continue
            lines = open(p).read().split("\n")
            inc = False
            cand = []
            for i, l in enumerate(lines):
                if "/*" in l:
                    inc = True
                if "*/" in l:
                    inc = False
                    continue
                if inc or CODE_SKIP.match(l) or not l.strip():
                    continue
                cand.append(i)
            files.append((p, rel, lines, cand))
    weights = [len(f[3]) for f in files]
    seen = set()
    while True:
        p, rel, lines, cand = rng.choices(files, weights)[0]
        i = rng.choice(cand)
        op, new = rng.choice(OPS)
        l = lines[i]
        code = l.split("//")[0]
        ms = list(re.finditer(op, code))
        if not ms or "assert(" in code:
            continue
        m = rng.choice(ms)
        if new == "RET":
            continue
        n = code[:m.start()] + m.expand(new) + code[m.end():]
        if n == code or (p, i, n) in seen:
            continue
        seen.add((p, i, n))
        yield p, rel, i, l, n


def sh(cmd, timeout=900, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def main():
    n, seed, out, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    if not os.path.isdir(MUT):
        sh(["git", "clone", "-q", "/repo", MUT])
    sh(["git", "-C", MUT, "fetch", "-q"])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "-C", MUT, "checkout", "-q", "-f", head])
    rng = random.Random(seed)
    env = dict(os.environ, VERIF_REPO=MUT)
    inc = []
    for root, ds, fs in os.walk(os.path.join(MUT, "src")):
        inc.append("-I" + root)
    done = 0
    for p, rel, i, old, new in mutants(rng, subs):
        if done >= n:
            break
        src = open(p).read().split("\n")
        src[i] = new
        orig = open(p).read()
        open(p, "w").write("\n".join(src))
        t = time.time()
        rec = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
        try:
            tu = p if p.endswith(".cpp") else os.path.join(MUT, "src", "Yaga.cpp")
            rc, log = sh(["g++", "-std=c++20", "-w", "-fsyntax-only"] + inc + [tu])
            if rc:
                continue
            if os.environ.get("MUT_TESTS"):  # only mutants which pass the tests of the repository
                import plant
                rc, log = plant.build(MUT)
                if rc or plant.tests(MUT)[0]:
                    continue
            done += 1
            order = next(c for k, c in CHECKS if k in rel).split()
            rec["res"] = "survived"
            rec["checks"] = order
            for c in order:
                rc, log = sh(["python3", os.path.join(VERIF, "tools/check.py"), c, "--shrink", "0", "--time", "120"], env=env)
                if rc == 1:
                    rec["res"] = "killed"
                    rec["by"] = c
                    break
                if rc == 3 and "build failed" in log:
                    rec["res"] = "nobuild"
                    break
                if rc == 0:
                    try:
                        cov = json.load(open(os.path.join(VERIF, "evidence", c + ".json")))["coverage"]
                    except OSError:
                        cov = {}
                    if cov.get("inconclusive_timeouts", 0) > 20:
                        rec.setdefault("odd", []).append((c, "timeouts", cov["inconclusive_timeouts"]))
                        rec["res"] = "slow"
                        break
                if rc not in (0, 1):
                    rec.setdefault("odd", []).append((c, rc, log[-300:]))
        finally:
            open(p, "w").write(orig)
        rec["s"] = round(time.time() - t)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
        print(rec["res"], rec.get("by", ""), rel, i + 1, "|", rec["old"], "=>", rec["new"], rec["s"], flush=True)


if __name__ == "__main__":
    main()
