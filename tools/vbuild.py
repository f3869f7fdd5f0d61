#!/usr/bin/env python3
"""Builds d3sformal/yaga from /repo's working tree plus the harness of one property.

Objects are cached in /verif/build/obj under the hash of everything that can influence them
(all headers, the source itself, the flags), so a changed tree is always recompiled.
"""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
HARNESS = os.path.join(VERIF, "harness")

VARIANTS = {
    # assertions on, memory and undefined-behaviour errors fatal
    "asan": ["clang++", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # what a user who builds in Release mode gets
    "rel": ["g++", "-O2", "-DNDEBUG"],
    # assertions on, optimised
    "dbg": ["g++", "-O2", "-D_GLIBCXX_ASSERTIONS"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "rel": [], "dbg": []}


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_files():
    cpps, hdrs, lexers, dirs = [], [], [], []
    for root, ds, files in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        dirs.append(root)
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".cpp", ".cc", ".cxx")):
                cpps.append(p)
            elif f.endswith((".h", ".hpp", ".inc", ".tpp")):
                hdrs.append(p)
            elif f.endswith((".ll", ".l")):
                lexers.append(p)
    return cpps, hdrs, lexers, dirs


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def compile_one(src, flags, key, extra_inputs=(), main_as=None):
    """main_as: new name of the function main (renamed in the object file: only main may end without return)"""
    h = hashlib.sha256()
    h.update(key)
    h.update(repr(flags).encode())
    h.update(src.encode())
    h.update(repr(main_as).encode())
    h.update(read(src))
    for e in extra_inputs:
        h.update(read(e))
    out = os.path.join(OBJ, os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out, 0, ""
    tmp = out + ".%d.tmp" % os.getpid()
    rc, log = sh([flags[0], "-std=c++20"] + flags[1:] + ["-w", "-c", src, "-o", tmp])
    if rc == 0 and main_as:
        rc, log = sh(["objcopy", "--redefine-sym", "main=" + main_as, tmp])
    if rc == 0:
        os.rename(tmp, out)
    return out, rc, log


def build(prop_sources, variant, out_name, mains=(), defs=()):
    """mains: subset of {"sat", "smt"}: link the program's main, renamed, into the harness"""
    os.makedirs(OBJ, exist_ok=True)
    cpps, hdrs, lexers, dirs = repo_files()
    hh = hashlib.sha256()
    for p in hdrs:
        hh.update(p.encode())
        hh.update(read(p))
    lib_key = hh.digest()
    gen = []
    for l in lexers:
        k = hashlib.sha256(read(l)).hexdigest()[:24]
        out = os.path.join(BUILD, "gen-" + k, os.path.splitext(os.path.basename(l))[0] + ".cpp")
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            rc, log = sh(["flex", "-o", out + ".tmp", l])
            if rc:
                print(log)
                return None
            os.rename(out + ".tmp", out)
        gen.append(out)
    inc = ["-I" + d for d in dirs]
    flags = VARIANTS[variant] + inc
    jobs = []
    for c in cpps:
        b = os.path.basename(c)
        if b == "lexer_test.cpp":
            continue
        if b in ("sat_solver.cpp", "smt_solver.cpp"):
            m = b[:3]
            if m in mains:
                jobs.append((c, flags, lib_key, (), "yaga_%s_main" % m))
            continue
        jobs.append((c, flags, lib_key, ()))
    for g in gen:
        jobs.append((g, flags, lib_key, ()))
    har_hdrs = sorted(os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith(".h"))
    for s in prop_sources:
        jobs.append((os.path.join(HARNESS, s), flags + ["-I" + HARNESS] + (list(defs) if s == prop_sources[1] else []), lib_key, har_hdrs))
    # longest first
    prio = {"Linear_arithmetic.cpp": -2, "Solver_wrapper.cpp": -1, "Yaga.cpp": -1, "Smt2_parser.cpp": -1}
    jobs.sort(key=lambda j: (prio.get(os.path.basename(j[0]), 0) - (3 if j[0].startswith(HARNESS) else 0)))
    objs, bad = [], False
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for out, rc, log in ex.map(lambda j: compile_one(*j), jobs):
            if rc:
                bad = True
                print(log[:6000])
            objs.append(out)
    if bad:
        return None
    hb = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, out_name + "-" + variant + "-" + hb)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, log = sh([VARIANTS[variant][0]] + LINK[variant] + objs + ["-o", tmp, "-lz3", "-lgmpxx", "-lgmp", "-lpthread"])
        if rc:
            print(log[:6000])
            return None
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    prune()
    return exe


def prune(limit=3 << 30):
    ents = []
    for d in (OBJ, BUILD):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not f.endswith(".tmp"):
                st = os.stat(p)
                ents.append((st.st_mtime, st.st_size, p))
    total = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if total < limit:
            break
        os.unlink(p)
        total -= s
