"""Which sources make up the harness of each property."""
SMT = ["smt.cpp", "gen.cpp"]


def solve(pid, verdict, model, uf, opts):
    # z3 is slow under the address sanitizer: verdict checks use the optimised build with assertions
    return {"variants": ["dbg"] if verdict else ["asan"], "sources": ["solve.cpp"] + SMT,
            "defs": ['-DPROP_ID="%s"' % pid, "-DPROP_VERDICT=%d" % verdict, "-DPROP_MODEL=%d" % model,
                     "-DPROP_UF=%d" % uf, "-DPROP_OPTS=%d" % opts]}


def one(pid, src, extra=(), **kw):
    d = {"sources": [src] + list(extra), "defs": ['-DPROP_ID="%s"' % pid]}
    d.update(kw)
    return d


PROPS = {
    "C01": solve("C01", 1, 0, 0, 0),
    "C02": solve("C02", 0, 1, 0, 0),
    "C03": solve("C03", 1, 0, 1, 0),
    "C04": solve("C04", 0, 1, 1, 0),
    "C05": solve("C05", 1, 1, 1, 1),
    "C06": one("C06", "rational.cpp"),
    "C07": one("C07", "dimacs.cpp", mains=("sat",)),
    "C08": one("C08", "satcore.cpp"),
    "C09": one("C09", "satcore.cpp"),
    "C10": one("C10", "parts.cpp"),
    "C11": one("C11", "parts.cpp"),
    "C12": one("C12", "parts.cpp"),
    "C13": one("C13", "parts.cpp"),
    "C15": one("C15", "parts.cpp"),
    "C14": one("C14", "satcore.cpp"),
    "C16": one("C16", "surface.cpp", SMT, variants=["dbg"]),
    "C17": one("C17", "lra.cpp", variants=["dbg"]),
    "C18": one("C18", "term.cpp", SMT, variants=["dbg"]),
    "C19": one("C19", "errors.cpp", SMT),
    "C20": one("C20", "incr.cpp", SMT, variants=["dbg"]),
    "C21": one("C21", "cli.cpp", SMT, mains=("smt",)),
    "C22": one("C22", "api.cpp", SMT),
}

# number of cases of the quick tier, relative to the numbers in the harness sources (about a minute on 8 cores)
QUICK_SCALE = {"C01": 2.5, "C02": 2, "C03": 2, "C04": 3, "C05": 2, "C06": 3, "C07": 4, "C08": 4, "C09": 4, "C10": 6, "C11": 8,
               "C12": 6, "C13": 5, "C14": 5, "C15": 8, "C16": 3, "C17": 2, "C18": 1.5, "C19": 1.3, "C20": 3, "C21": 2.5, "C22": 1.5}
