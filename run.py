#!/usr/bin/env python3
"""Driver: builds one property's harness from the repository's working tree, runs
it, writes evidence/<id>.json and reports violations.

  run.py <property> [quick|thorough]
  run.py --replay <replay file>

Exit 0: held on everything explored (known findings are printed).
Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the check itself could not run (no verdict).
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++"
GCC = "/usr/bin/g++-13"
PYVT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)

from lib import gen_headers  # noqa: E402

BASE = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-w", "-ftemplate-backtrace-limit=3", "-DPBT=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class Internal(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_checks():
    spec = importlib.util.spec_from_file_location("vchecks", os.path.join(VERIF, "checks", "config.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECKS


def known_findings(prop):
    """-> {key: text}. Lines: 'finding: property=<id> key=<key> <what fails>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def sh(cmd, timeout, **kw):
    """-> (rc, output). rc None = timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def compile_cmd(src, obj, incs, cxx, flags):
    return [cxx] + BASE + flags + incs + ["-c", src, "-o", obj]


def shorten(text, n=4000):
    errs = "\n".join(l for l in text.splitlines() if "error" in l or "static assert" in l or "note:" in l)
    return (errs or text)[:n]


class Run:
    sh = staticmethod(sh)
    Internal = Internal

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.seed = seed if seed != 0 else 0x5EED
        self.cfg = load_checks()[prop]
        self.build = os.path.join(VERIF, "build", prop)
        self.gen = os.path.join(self.build, "gen")
        self.replays = os.path.join(VERIF, "build", "replay")
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.gen)
        os.makedirs(self.replays, exist_ok=True)
        gen_headers.generate(REPO, self.gen)
        self.results = []   # prop results
        self.violations = []
        self.findings = {}
        self.ex = cf.ThreadPoolExecutor(8)
        self.assumptions = list(self.cfg.get("assumptions", []))

    def gen_dir(self, b):
        """The generated headers for a binary: the default build settings, or its own `gen` settings."""
        if not b.get("gen"):
            return self.gen
        d = os.path.join(self.build, "gen_" + "_".join("%s%d" % kv for kv in sorted(b["gen"].items())))
        if not os.path.exists(d):
            gen_headers.generate(REPO, d, **b["gen"])
        return d

    def incs(self, shim=True, gen=None):
        gen = gen or self.gen
        inc = ["-iquote", REPO, "-iquote", gen, "-I", os.path.join(VERIF, "lib")]
        if shim:
            inc += ["-I", os.path.join(VERIF, "shim")]
        inc += ["-I", REPO, "-I", gen]
        return inc

    def sub(self, flags):
        return [f.replace("{REPO}", REPO).replace("{VERIF}", VERIF).replace("{GEN}", self.gen) for f in flags]

    # ---- C++ ----
    def start_bin(self, b):
        """Submits the compilations of one binary; returns a record."""
        cxx = {"clang": CLANG, "gcc": GCC}[b.get("cxx", "clang")]
        flags = list(b.get("flags", []))
        flags.append(b.get("opt", "-O1"))
        if b.get("san", True):
            flags += SAN + b.get("san_extra", [])
        flags = self.sub(flags)
        incs = self.incs(b.get("shim", True), self.gen_dir(b)) + self.sub(b.get("incs", []))
        srcs = [("h", s if s.startswith("/") else os.path.join(VERIF, s)) for s in b["srcs"]]
        srcs += [("l", os.path.join(VERIF, "lib", "pbt.cc"))]
        srcs += [("r", os.path.join(REPO, s)) for s in b.get("repo", [])]
        srcs += [("l", os.path.join(VERIF, s)) for s in b.get("extra", [])]
        objs, futs = [], []
        for i, (kind, s) in enumerate(srcs):
            if not os.path.exists(s):
                if kind == "r":
                    raise Internal("missing repository source " + s)
                raise Internal("missing " + s)
            obj = os.path.join(self.build, "%s.%d.o" % (b["name"], i))
            objs.append(obj)
            futs.append((s, self.ex.submit(sh, compile_cmd(s, obj, incs, cxx, flags), 800)))
        return dict(b=b, objs=objs, futs=futs, cxx=cxx, flags=flags, incs=incs)

    def finish_bin(self, rec):
        b = rec["b"]
        for s, f in rec["futs"]:
            rc, out = f.result()
            if rc != 0:
                raise Internal("cannot compile %s:\n%s" % (s, shorten(out)))
        exe = os.path.join(self.build, b["name"])
        link = [rec["cxx"]] + (SAN if b.get("san", True) else []) + rec["objs"] + ["-o", exe] + b.get("libs", []) + ["-lpthread"]
        rc, out = sh(link, 300)
        if rc != 0:
            raise Internal("cannot link %s:\n%s" % (exe, out[-4000:]))
        return exe

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:handle_abort=0:symbolize=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e["VERIF_REPO"] = REPO
        e["LC_ALL"] = "C.UTF-8"
        e["TZ"] = "UTC"
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        return e

    def run_bin(self, b, exe):
        scratch = os.path.join(self.build, "scratch_" + b["name"])
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        cmd = [exe, "--tier", self.tier, "--seed", str(self.seed), "--scratch", scratch]
        if os.environ.get("VERIF_ONLY"):
            cmd += ["--prop", os.environ["VERIF_ONLY"]]
        scale = os.environ.get("VERIF_SCALE")
        if scale:
            cmd += ["--scale", scale]
        rc, out = sh(cmd, 820 if self.tier == "quick" else 6 * 3600, env=self.env())
        rj = os.path.join(scratch, "result.json")
        if not os.path.exists(rj):
            raise Internal("harness %s gave no result (rc=%s)\n%s" % (b["name"], rc, out[-3000:]))
        data = json.load(open(rj))
        bad = []
        for p in data["props"]:
            p["bin"] = b["name"]
            self.results.append(p)
            if p["status"] == "fail":
                self.violation(dict(kind="choices", bin=b["name"], prop=p["name"], choices=p["choices"], message=p["msg"] + "\ncase: " + p.get("notes", "")),
                               p["name"])
            elif p["status"] != "ok":
                bad.append("harness %s/%s: %s %s" % (b["name"], p["name"], p["status"], p.get("msg", out[-2000:])))
        for f in data["findings"]:
            self.findings[f["key"]] = f["present"]
        shutil.rmtree(scratch, ignore_errors=True)
        if bad:
            raise Internal("\n".join(bad))

    def fuzz_bin(self, b):
        """Thorough tier: coverage-guided libFuzzer over the same properties."""
        names = b.get("fuzz", [])
        if not names or self.tier != "thorough" or os.environ.get("VERIF_NOFUZZ"):
            return
        fl = self.sub(list(b.get("flags", []))) + ["-O1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all", "-DPBT_FUZZ"]
        incs = self.incs(b.get("shim", True), self.gen_dir(b)) + self.sub(b.get("incs", []))
        srcs = [os.path.join(VERIF, s) for s in b["srcs"]] + [os.path.join(VERIF, "lib", "pbt.cc")] + \
               [os.path.join(REPO, s) for s in b.get("repo", [])] + [os.path.join(VERIF, s) for s in b.get("extra", [])]
        objs, futs = [], []
        for i, s in enumerate(srcs):
            obj = os.path.join(self.build, "%s.fuzz.%d.o" % (b["name"], i))
            objs.append(obj)
            futs.append(self.ex.submit(sh, compile_cmd(s, obj, incs, CLANG, fl), 800))
        for s, f in zip(srcs, futs):
            rc, out = f.result()
            if rc != 0:
                raise Internal("cannot compile fuzz %s:\n%s" % (s, shorten(out)))
        exe = os.path.join(self.build, b["name"] + ".fuzz")
        rc, out = sh([CLANG, "-fsanitize=fuzzer,address,undefined"] + objs + ["-o", exe] + b.get("libs", []) + ["-lpthread"], 300)
        if rc != 0:
            raise Internal("cannot link fuzz:\n" + out[-3000:])

        def one(args):
            name, runs, k = args
            d = os.path.join(self.build, "corpus_%s_%s_%d" % (b["name"], name, k))
            os.makedirs(d + "/scratch")
            os.makedirs(d + "/c")
            e = self.env()
            e["PBT_PROP"] = name
            e["PBT_SCRATCH"] = d + "/scratch"
            rc, out = sh([exe, "-seed=%d" % (self.seed * 16 + k), "-runs=%d" % runs, "-max_len=2048", "-len_control=20",
                          "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-verbosity=0",
                          "-artifact_prefix=" + d + "/crash-", d + "/c"], 3600, env=e)
            m = re.search(r"number_of_executed_units:\s*(\d+)", out)
            crashes = sorted(f for f in os.listdir(d) if f.startswith("crash-crash-"))
            return name, runs, rc, out, (int(m.group(1)) if m else 0), [os.path.join(d, c) for c in crashes], d

        jobs = [(n, r, k) for n, r in names for k in range(4)]
        for name, runs, rc, out, units, crashes, d in self.ex.map(one, jobs):
            self.results.append(dict(name="fuzz:" + name, bin=b["name"], rule="libFuzzer coverage-guided choice bytes", status="ok",
                                     evaluations=units, nontrivial=len(os.listdir(d + "/c")), distinct_nontrivial=len(os.listdir(d + "/c")),
                                     labels={}, samples=[], wall_s=0))
            for c in crashes[:1]:
                # confirm with the plain binary (and get shrunk choices)
                scratch = d + "/confirm"
                os.makedirs(scratch, exist_ok=True)
                rc2, out2 = sh([os.path.join(self.build, b["name"]), "--prop", name, "--from-bytes", c, "--scratch", scratch], 600, env=self.env())
                m = re.search(r"CHOICES:([\d,]*)", out2)
                if rc2 == 1 and m:
                    ch = [int(x) for x in m.group(1).split(",") if x]
                    self.violation(dict(kind="choices", bin=b["name"], prop=name, choices=ch, message=out2[-3000:]), name)
                else:
                    log("unconfirmed fuzz crash in %s: %s" % (name, out[-1500:]))
            shutil.rmtree(d, ignore_errors=True)

    def violation(self, rec, name):
        path = os.path.join(self.replays, "%s-%s-%d.json" % (self.prop, re.sub(r"\W+", "_", name), len(self.violations)))
        rec = dict(property=self.prop, tier=self.tier, seed=self.seed, **rec)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append((path, rec))

    # ---- compile-time / generated programs ----
    def run_ct(self, fn):
        """fn(run) -> list of result dicts; may call self.violation."""
        for r in fn(self) or []:
            self.results.append(r)

    # ---- Python ----
    def build_so(self, b):
        """A shared library (or with exe=True a program) the Python harness uses; its path goes to VERIF_SO_<name>."""
        cxx = {"clang": CLANG, "gcc": GCC}[b.get("cxx", "gcc")]
        exe = b.get("exe")
        out_so = os.path.join(self.build, b["name"] + ("" if exe else ".so"))
        srcs = [os.path.join(VERIF, s) for s in b["srcs"]] + [os.path.join(REPO, s) for s in b.get("repo", [])]
        rc, out = sh([cxx] + BASE + (["-O1"] if exe else ["-fPIC", "-shared", "-O1"]) + self.sub(b.get("flags", [])) + self.incs(b.get("shim", True)) + srcs + ["-o", out_so] + b.get("libs", []), 600)
        if rc != 0:
            raise Internal("cannot build %s:\n%s" % (b["name"], shorten(out)))
        os.environ["VERIF_SO_" + b["name"]] = out_so

    def run_py(self, mod):
        scratch = os.path.join(self.build, "scratch_py_" + os.path.basename(mod))
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        out_json = os.path.join(scratch, "result.json")
        rc, out = sh([PYVT, os.path.join(VERIF, "lib", "pyrun.py"), os.path.join(VERIF, mod), out_json, scratch],
                     850 if self.tier == "quick" else 6 * 3600, env=self.env(), cwd=scratch)
        if not os.path.exists(out_json):
            raise Internal("python harness %s failed (rc=%s)\n%s" % (mod, rc, out[-4000:]))
        data = json.load(open(out_json))
        bad = []
        for p in data["props"]:
            p["bin"] = mod
            self.results.append(p)
            if p["status"] == "fail":
                self.violation(dict(kind="python", module=mod, prop=p["name"], case=p.get("case"), message=p.get("msg", "")), p["name"])
            elif p["status"] != "ok":
                bad.append("%s/%s: %s\n%s" % (mod, p["name"], p["status"], p.get("msg", "")))
        for f in data.get("findings", []):
            self.findings[f["key"]] = f["present"]
        shutil.rmtree(scratch, ignore_errors=True)
        if bad:
            raise Internal("\n".join(bad))

    def go(self):
        t0 = time.time()
        internal = []
        recs = []
        for job in [self.ex.submit(self.build_so, so) for so in self.cfg.get("so", [])]:
            try:
                job.result()
            except Internal as e:
                internal.append(str(e))
        for b in self.cfg.get("bins", []):
            if self.tier == "quick" and b.get("thorough_only"):
                continue
            recs.append(self.start_bin(b))
        def enough():
            """A violation is known and the time for this check is running out."""
            return self.violations and time.time() - t0 > (250 if self.tier == "quick" else 3600)

        for rec in recs:
            if enough():
                break
            try:
                exe = self.finish_bin(rec)
                self.run_bin(rec["b"], exe)
                self.fuzz_bin(rec["b"])
            except Internal as e:
                internal.append(str(e))
        for mod in self.cfg.get("py", []):
            if enough():
                break
            try:
                self.run_py(mod)
            except Internal as e:
                internal.append(str(e))
        for fn in self.cfg.get("ct", []):
            if enough():
                break
            try:
                self.run_ct(fn)
            except Internal as e:
                internal.append(str(e))
        known = known_findings(self.prop)
        for key, present in sorted(self.findings.items()):
            if not present:
                continue
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
            else:
                self.violation(dict(kind="finding", key=key, message="defect check %s is positive" % key), key)
        wall = time.time() - t0
        ev = sum(r["evaluations"] for r in self.results)
        dn = sum(r["distinct_nontrivial"] for r in self.results)
        rules, samples, per = [], [], []
        for r in self.results:
            rules.append("%s: %s" % (r["name"], r["rule"]))
            samples += ["[%s] %s" % (r["name"], s) for s in r.get("samples", [])[:2]]
            per.append({k: r[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s", "status") if k in r})
        evd = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                   coverage=dict(evaluations=ev, distinct_nontrivial=dn,
                                 rule="Cases are generated from VERIF_SEED as choice sequences; non-trivial per sub-property: " + " | ".join(rules),
                                 samples=samples[:40] or ["none"], per_property=per,
                                 known_findings={k: self.findings.get(k) for k in known},
                                 violation_details=[dict(replay=p, message=r.get("message", "")[:500]) for p, r in self.violations]),
                   wall_s=round(wall, 2),
                   violations=len(self.violations),
                   assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        for r in self.results:
            log("  %-34s %-6s evals=%-9d nontrivial=%-9d distinct=%-9d %ss" % (
                r["name"], r["status"], r["evaluations"], r.get("nontrivial", 0), r["distinct_nontrivial"], r.get("wall_s", "?")))
        if os.environ.get("VERIF_LABELS"):
            for r in self.results:
                log("  labels", r["name"], r.get("labels"))
        for p, r in self.violations:
            log("  ---- %s\n%s" % (p, r.get("message", "")[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("%s %s seed=%d: %.1fs, %d cases, %d distinct non-trivial, %d violations" % (
            self.prop, self.tier, self.seed, wall, ev, dn, len(self.violations)))
        for m in internal:
            log("CHECK ERROR (%s): %s" % (self.prop, m))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.build, ignore_errors=True)
        if self.violations:
            return 1
        if internal:
            return 2
        return 0


def replay(path):
    rec = json.load(open(path))
    r = Run(rec["property"], rec.get("tier", "quick"))
    r.seed = rec.get("seed", 1)
    try:
        if rec["kind"] == "choices":
            b = next(b for b in r.cfg["bins"] if b["name"] == rec["bin"])
            exe = r.finish_bin(r.start_bin(b))
            scratch = os.path.join(r.build, "scratch")
            os.makedirs(scratch)
            rc, out = sh([exe, "--prop", rec["prop"], "--replay", ",".join(map(str, rec["choices"])) or "-", "--scratch", scratch], 300, env=r.env())
            print(out)
            return rc
        if rec["kind"] == "python" and rec.get("case"):
            for so in r.cfg.get("so", []):
                r.build_so(so)
            scratch = os.path.join(r.build, "scratch")
            os.makedirs(scratch)
            rc, out = sh([PYVT, os.path.join(VERIF, "lib", "pyrun.py"), os.path.join(VERIF, rec["module"]), "-", scratch, rec["prop"]] + rec["case"],
                         300, env=r.env(), cwd=scratch)
            print(out)
            return rc
        print(json.dumps(rec, indent=1))
        print("(re-run the check with VERIF_SEED=%d to reproduce)" % rec["seed"])
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(r.build, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        return Run(prop, tier).go()
    except Internal as e:
        log("CHECK ERROR (%s): %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
