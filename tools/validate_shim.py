#!/usr/bin/env python3
"""Validates the stand-ins in /verif/shim: builds and runs helly25/mbo's own
absl/RE2 dependent tests (which this environment's build leaves out) on them.

usage: tools/validate_shim.py [-j N] [--gcc] [test path part...]
"""
import concurrent.futures as cf
import os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from lib import gen_headers
args = [a for a in sys.argv[1:] if not a.startswith("-")]
cxx = "g++-13" if "--gcc" in sys.argv else "clang++"
out = os.environ.get("OUT") or tempfile.mkdtemp(prefix="vshim")
gen = os.path.join(out, "gen"); os.makedirs(gen, exist_ok=True)
gen_headers.generate(REPO, gen)
inc = ["-iquote", REPO, "-iquote", gen, "-I", VERIF + "/shim", "-I", REPO]
flags = ["-std=c++20", "-O0", "-w", "-fno-exceptions", "-ftemplate-backtrace-limit=4"]
if "--san" in sys.argv: flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]
def sh(c, t=600, **k):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace", **k)
    return p.returncode, p.stdout
libs, tests = [], []
for d, _, fs in os.walk(REPO + "/mbo"):
    for f in fs:
        if not f.endswith(".cc"): continue
        p = os.path.join(d, f); r = os.path.relpath(p, REPO)
        if f.endswith("_test.cc"):
            if "fuzz" not in f and (not args or any(a in r for a in args)): tests.append(r)
        elif not re.search(r"_main\.cc|benchmark|_tool\.cc|_gen\.cc", f): libs.append(r)
def comp(r):
    o = os.path.join(out, r.replace("/", "_") + ".o")
    rc, t = sh([cxx] + flags + inc + ["-c", os.path.join(REPO, r), "-o", o])
    return r, rc, t, o
ok = True
with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(comp, libs))
    objs = []
    for r, rc, t, o in res:
        if rc: print("LIB FAIL", r, t[:3000]); ok = False
        else: objs.append(o)
    sf = os.path.join(out, "shim_flags.o"); sh([cxx] + flags + inc + ["-c", VERIF + "/shim/shim_flags.cc", "-o", sf]); objs.append(sf)
    subprocess.run(["ar", "rcs", out + "/lib.a"] + objs)
    def one(r):
        r, rc, t, o = comp(r)
        if rc: return r, "COMPILE", t
        e = o[:-2]
        rc, t = sh([cxx] + (["-fsanitize=address,undefined"] if "--san" in sys.argv else []) + [o, "-o", e, out + "/lib.a", "-lgtest_main", "-lgmock", "-lgtest", "-lpthread"])
        if rc: return r, "LINK", t
        env = dict(os.environ, TEST_TMPDIR=out + "/tmp_" + os.path.basename(e), ASAN_OPTIONS="detect_leaks=0"); os.makedirs(env["TEST_TMPDIR"], exist_ok=True)
        try: rc, t = sh([e], 300, cwd=REPO, env=env)
        except subprocess.TimeoutExpired: return r, "TIMEOUT", ""
        m = re.search(r"\[  PASSED  \] (\d+)", t); fl = re.findall(r"^\[  FAILED  \] (\S+)", t, re.M)
        return r, ("ok" if rc == 0 else "FAIL rc=%d" % rc) + " passed=%s failed=%s" % (m and m.group(1), sorted(set(fl))), t if rc else ""
    for r, st, t in ex.map(one, sorted(tests)):
        print(r, st, flush=True)
        if t: open(os.path.join(out, "log_" + r.replace("/", "_")), "w").write(t)
print("logs in", out)
if not os.environ.get("OUT"): shutil.rmtree(out)
