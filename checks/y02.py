"""Y02: coverage.py, coverage_sources.py and coverage_index.py on generated reports."""
import contextlib
import fnmatch
import html
import io
import json
import os
import re
import shutil
import subprocess
from fractions import Fraction
from pathlib import Path
import pyrt
from pyrt import prop
from hypothesis import strategies as st

I = st.integers
cov = pyrt.load("tools/coverage.py", "coverage_tool_under_test")
src_tool = pyrt.load("tools/coverage_sources.py", "coverage_sources_under_test")
index = pyrt.load("tools/coverage_index.py", "coverage_index_under_test")
METRICS = ("lines", "functions", "branches")
ENV = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")


def fresh(name):
    d = os.path.join(pyrt.scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return os.path.realpath(d)


def put(root, rel, text):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)


def run(fn, argv, cwd):
    out, err = io.StringIO(), io.StringIO()
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            rc = fn(argv)
    finally:
        os.chdir(old)
    return int(rc), out.getvalue(), err.getvalue()


# ---- sources with markers and their LCOV records ----

@st.composite
def source(draw, tag):
    """Lines of a file; no two lines of the file are equal."""
    lines = []
    for u in range(draw(I(1, 6))):
        kind = draw(st.sampled_from(["plain", "plain", "plain", "excl", "exclbr", "func", "merge", "merge", "func+merge", "both"]))
        n = len(lines)
        mark = {"plain": "", "excl": "  // LCOV_EXCL_LINE", "exclbr": "  // LCOV_EXCL_BR_LINE: why", "func": "  // LCOV_EXCL_FUNC_LINE: why",
                "merge": "  // LCOV_MERGE_FUNC_LINE", "func+merge": "  // LCOV_EXCL_FUNC_LINE LCOV_MERGE_FUNC_LINE", "both": "  // LCOV_EXCL_LINE LCOV_EXCL_BR_LINE"}[kind]
        if "func" in kind or "merge" in kind:
            k = draw(I(0, 2))
            head = ["%s_%d_%d(" % (tag, n, i) for i in range(k)] + ["%s_%d_%d) {" % (tag, n, k)]
            lines += [head[0] + mark] + head[1:]
        else:
            lines.append("%s_%d;%s%s" % (tag, n, draw(st.sampled_from(["", " {", " }"])), mark))
    return lines


def func_region(lines, i, word):
    """The marker line (0-based) whose region covers line i, or None."""
    for m in range(i, -1, -1):
        if word in lines[m]:
            return m if not any("{" in lines[k] for k in range(m, i)) else None
    return None


@st.composite
def record(draw, path, nlines):
    """LCOV data of one file: DA, FN/FNDA and BRDA entries."""
    ln = I(1, nlines + 2)
    da = draw(st.lists(st.tuples(ln, st.sampled_from([0, 0, 1, 3, 1000000])), max_size=8))
    fn = draw(st.lists(st.tuples(ln, st.sampled_from([0, 0, 1, 7])), max_size=6))
    br = draw(st.lists(st.tuples(ln, I(0, 1), I(0, 3), st.sampled_from(["-", "0", "1", "12"])), max_size=8))
    return dict(path=path, da=da, fn=fn, br=br)


def reference(rec, lines):
    """(lines {n: hits}, functions [hit], branches [(n, taken)]) that count."""
    mk = (lambda n, w: 1 <= n <= len(lines) and w in lines[n - 1])
    da = {}
    for n, h in rec["da"]:
        if not mk(n, "LCOV_EXCL_LINE"):
            da[n] = da.get(n, 0) + h
    fns, groups = [], {}
    for n, h in rec["fn"]:
        if 1 <= n <= len(lines):
            if func_region(lines, n - 1, "LCOV_EXCL_FUNC_LINE") is not None:
                continue
            g = func_region(lines, n - 1, "LCOV_MERGE_FUNC_LINE")
            if g is not None:
                groups[g] = groups.get(g, False) or h > 0
                continue
        fns.append(h > 0)
    fns += list(groups.values())
    br = [(n, t not in ("-", "0")) for n, _, _, t in rec["br"] if not mk(n, "LCOV_EXCL_LINE") and not mk(n, "LCOV_EXCL_BR_LINE")]
    return da, fns, br


@st.composite
def lcov(draw, recs, prefix):
    out = []
    for r in recs:
        t = ["TN:"] if draw(st.booleans()) else []
        t.append("SF:" + prefix + r["path"])
        three = draw(I(0, 3)) == 0
        t += ["FN:%d,%s_ZN%dEv" % (n, "%d," % (n + 1) if three else "", i) for i, (n, _) in enumerate(r["fn"])]
        t += ["FNDA:%d,_ZN%dEv" % (h, i) for i, (_, h) in enumerate(r["fn"])]
        t += ["FNF:%d" % len(r["fn"]), "FNH:0"]
        b = ["BRDA:%d,%d,%d,%s" % x for x in r["br"]]
        d = ["DA:%d,%d%s" % (n, h, draw(st.sampled_from(["", "", ",abc="]))) for n, h in r["da"]]
        t += b + d if draw(st.booleans()) else d + b
        t += ["LH:1", "LF:%d" % len(r["da"]), "end_of_record"]
        out += t
    return "\n".join(out) + "\n"


PATHS = ["mbo/file/file.cc", "mbo/file/ini/ini_file.h", "mbo/hash/hash.h", "mbo/hash/hash_test.cc", "mbo/a.cc", "mbo/diff/x_benchmark.cc", "mbo/types/[x].h", "mbo/hash2/h.h"]
OUTSIDE = ["external/absl/strings/str.h", "/usr/include/c++/14/vector", "mboxx/a.h"]
PATTERNS = ["mbo/**", "mbo/file/**", "mbo/hash/**", "mbo/**/*.cc", "mbo/*.cc", "mbo/types/?x?.h", "mbo/types/[[]x].h", "*.h"]


def glob_ref(path, pat):
    """fnmatch: * any text, ? one character, [..] a set."""
    if pat == "":
        return path == ""
    if pat[0] == "*":
        return any(glob_ref(path[i:], pat[1:]) for i in range(len(path) + 1))
    if path == "":
        return False
    if pat[0] == "?":
        return glob_ref(path[1:], pat[1:])
    if pat[0] == "[" and "]" in pat[2:]:
        e = pat.index("]", 2)
        return path[0] in pat[1:e] and glob_ref(path[1:], pat[e + 1:])
    return path[0] == pat[0] and glob_ref(path[1:], pat[1:])


FLOOR = st.sampled_from([0, 1, 25, 33.3, 50, 50.0, 66.6, 75, 99, 100, 40])


@st.composite
def minimum(draw):
    return {m: draw(FLOOR) for m in draw(st.lists(st.sampled_from(METRICS), unique=True))}


@st.composite
def policy(draw):
    p = {}
    if draw(I(0, 3)):
        p["include"] = draw(st.lists(st.sampled_from(PATTERNS[:4] + ["mbo/**"]), min_size=1, max_size=2, unique=True))
    if draw(st.booleans()):
        p["exclude"] = draw(st.lists(st.sampled_from(["mbo/**/*_test.cc", "mbo/**/*_benchmark.cc", "mbo/hash/**", "*.h"]), max_size=2, unique=True))
    if draw(I(0, 3)):
        p["minimum"] = draw(minimum())
    if draw(I(0, 3)):
        p["categories"] = {}
        for name in draw(st.lists(st.sampled_from(["file", "hash", "types", "all"]), max_size=3, unique=True)):
            c = {"include": draw(st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=2, unique=True))}
            if draw(st.booleans()):
                c["minimum"] = draw(minimum())
            p["categories"][name] = c
    if draw(st.booleans()):
        p["patch_minimum"] = {m: draw(FLOOR) for m in ("lines", "branches") if draw(st.booleans())}
    return p


def tally(files, changed=None):
    r = {m: [0, 0] for m in METRICS}
    for path, (da, fns, br) in files.items():
        keep = (lambda n: True) if changed is None else (lambda n: n in changed.get(path, ()))
        for n, h in da.items():
            if keep(n):
                r["lines"][1] += 1
                r["lines"][0] += 1 if h else 0
        if changed is None:
            r["functions"][1] += len(fns)
            r["functions"][0] += sum(fns)
        for n, t in br:
            if keep(n):
                r["branches"][1] += 1
                r["branches"][0] += 1 if t else 0
    return r


def same(c, got, want, what):
    for m in METRICS:
        g, (k, n) = got[m], want[m]
        c.eq((g["covered"], g["total"]), (k, n), "%s %s (covered, total)" % (what, m))
        if n == 0:
            c.eq(g["percent"], None, "%s %s percent" % (what, m))
        else:
            c.check(abs(Fraction(str(g["percent"])) - Fraction(100 * k, n)) <= Fraction(51, 10000), "%s %s percent %r of %d/%d" % (what, m, g["percent"], k, n))


def missed(v, floor):
    """True, False, or None when rounding to two digits could decide either way."""
    k, n = v
    if n == 0:
        return True
    exact = Fraction(100 * k, n)
    f = Fraction(str(floor))
    if exact == f:
        return False
    if abs(exact - f) <= Fraction(1, 100):
        return None
    return exact < f


@prop(1600, 30000, "generated sources with exclusion and merge markers, LCOV data, policies, sometimes a patch in a scratch git repository; non-trivial: some marker applies to some data and at least two files are selected")
def coverage(c):
    root = fresh("cov")
    pol = c.draw(policy())
    paths = c.draw(st.lists(st.sampled_from(PATHS), min_size=1, max_size=4, unique=True))
    patch = c.draw(I(0, 3)) == 0
    recs, srcs, changed = [], {}, {}
    if patch:
        subprocess.run(["git", "init", "-q", "-b", "main", "."], cwd=root, check=True, env=ENV)
    new = {}
    for i, p in enumerate(paths):
        lines = c.draw(source("s%d" % i)) if c.draw(I(0, 7)) else None
        srcs[p] = lines or []
        if lines is not None:
            put(root, p, "\n".join(lines) + "\n")
            new[p] = lines
        recs.append(c.draw(record(p, len(lines or []) + 1)))
    if patch:
        # The base has other lines at some places: those lines are the patch.
        for p, lines in new.items():
            fate = [c.draw(st.sampled_from("kkkan")) for _ in lines]  # keep, added, replaced
            base = []
            if all(f != "k" for f in fate) and c.draw(st.booleans()):
                fate = ["a"] * len(lines)
                os.unlink(os.path.join(root, p))
            else:
                for f, l in zip(fate, lines):
                    if f == "k":
                        base.append(l)
                    elif f == "n":
                        base.append("old " + l)
                    if c.draw(I(0, 9)) == 0:
                        base.append("gone after " + l)
                put(root, p, "".join(l + "\n" for l in base))
            changed[p] = {i + 1 for i, f in enumerate(fate) if f != "k"}
        put(root, "mbo/gone.cc", "bye\n")
        put(root, "README.md", "x\n")
        g = lambda *a: subprocess.run(["git", *a], cwd=root, check=True, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        g("add", "-A")
        g("commit", "-q", "-m", "base")
        g("branch", "base")
        if c.draw(I(0, 2)) == 0:  # the base branch moves on: only the changes since the fork count
            g("checkout", "-q", "base")
            put(root, "mbo/other.cc", "other\n")
            for p in list(new)[:1]:
                put(root, p, "base side\n")
            g("add", "-A")
            g("commit", "-q", "-m", "base moves")
            g("checkout", "-q", "main")
        for p, lines in new.items():
            put(root, p, "".join(l + "\n" for l in lines))
        os.unlink(os.path.join(root, "mbo/gone.cc"))
        g("add", "-A")
        g("commit", "-q", "--allow-empty", "-m", "head")
    for p in c.draw(st.lists(st.sampled_from(OUTSIDE), max_size=1)):
        recs.insert(0, c.draw(record(p, 3)))
    text = c.draw(lcov([r for r in recs if r["path"] in srcs], c.draw(st.sampled_from(["", "", "/proc/self/cwd/", "/home/u/work/mbo/mbo/", "C:\\w\\"]))))
    text = c.draw(lcov([r for r in recs if r["path"] not in srcs], "")) + text
    put(root, "r.lcov", text)
    put(root, "p.json", json.dumps(pol))
    c.case((text, pol, srcs, changed))

    inc, exc = pol.get("include", ["mbo/**"]), pol.get("exclude", [])
    files = {}
    marked = False
    for r in recs:
        p = r["path"]
        if p not in srcs or not any(glob_ref(p, x) for x in inc) or any(glob_ref(p, x) for x in exc):
            continue
        files[p] = reference(r, srcs[p])
        raw = reference(r, [])
        marked = marked or raw != files[p]
    argv = ["--lcov", "r.lcov", "--policy", "p.json", "--json-summary", "out.json", "--summary", "out.md"] + (["--base-ref", "base"] if patch else [])
    rc, out, err = run(cov.main, argv, root)
    if not files:
        c.eq(rc, 2, "exit code without selected files")
        return
    if marked and len(files) > 1:
        c.nontrivial()
    if patch:
        c.label("patch")
    want = {"overall": tally(files)}
    floors = {"overall": pol.get("minimum", {})}
    for name, cat in pol.get("categories", {}).items():
        want[name] = tally({p: d for p, d in files.items() if any(glob_ref(p, x) for x in cat["include"])})
        floors[name] = {**pol.get("minimum", {}), **cat.get("minimum", {})}
    with open(os.path.join(root, "out.json")) as f:
        got = json.load(f)
    c.eq(list(got["measurements"]), list(want), "report rows")
    for name in want:
        same(c, got["measurements"][name], want[name], name)
    c.eq(got["minimums"], floors, "floors")
    c.eq(got["targets"], {n: pol.get("minimum", {}) for n in floors}, "targets")
    # Failures.
    fail, unsure = set(), set()
    for name in want:
        for m, f in floors[name].items():
            x = missed(want[name][m], f)
            (fail if x else unsure if x is None else set()).add((name, m))
    if patch:
        wp = tally(files, changed)
        pm = pol.get("patch_minimum", {})
        if wp["lines"][1] or wp["branches"][1]:
            same(c, got["patch"], wp, "patch")
            bad = [m for m in ("lines", "branches") if wp[m][1] and missed(wp[m], pm.get(m, 0))]
            maybe = [m for m in ("lines", "branches") if wp[m][1] and missed(wp[m], pm.get(m, 0)) is None]
            for m in bad:
                fail.add(("patch", m))
            for m in maybe:
                unsure.add(("patch", m))
            if not maybe:
                ul = sorted("%s:%d" % (p, n) for p, d in files.items() for n, h in d[0].items() if not h and n in changed.get(p, ()))
                ub = sorted({"%s:%d" % (p, n) for p, d in files.items() for n, t in d[2] if not t and n in changed.get(p, ())})
                c.eq(sorted(re.findall(r"^uncovered patch line: (.*)$", err, re.M)), ul if bad else [], "uncovered patch lines")
                c.eq(sorted(re.findall(r"^uncovered patch branch: (.*)$", err, re.M)), ub if bad else [], "uncovered patch branches")
        else:
            c.check("patch" not in got, "a patch without coverable code is reported: %r" % got.get("patch"))
    said = set(re.findall(r"^coverage threshold failed: (\S+) (\S+): ", err, re.M))
    c.check(said - unsure == fail - unsure and fail <= said | unsure and said <= fail | unsure, "floors reported missed: %r, expected %r (borderline %r)" % (sorted(said), sorted(fail), sorted(unsure)))
    if not unsure:
        c.eq(rc, 1 if fail else 0, "exit code")
    # The table shows the same numbers.
    c.eq(open(os.path.join(root, "out.md"), encoding="utf-8").read(), out, "summary file")
    rows = {}
    for l in out.split("###")[0].splitlines():
        f = [x.strip() for x in l.strip().strip("|").split("|")]
        if len(f) == 11:
            rows[f[0]] = f
    for name in want:
        f = rows[name]
        for k, m in enumerate(METRICS):
            c.eq((f[3 + 3 * k], f[4 + 3 * k]), tuple(map(str, want[name][m])), "table %s %s" % (name, m))
            c.eq(f[2 + 3 * k], "n/a" if want[name][m][1] == 0 else "%.2f%%" % got["measurements"][name][m]["percent"], "table percent")
        if not any(u[0] == name for u in unsure):
            mine = {m for n, m in fail if n == name}
            c.eq("FAIL" in f[1] or "NO DATA" in f[1], bool(mine), "status of %s: %s" % (name, f[1]))
            for m in METRICS:
                if m in floors[name]:
                    words = re.findall(r"(NO DATA|FAIL|LOW): ([LFB/]+)", f[1])
                    kinds = {w for w, ls in words if m[0].upper() in ls.split("/")}
                    if want[name][m][1] == 0:
                        c.eq(kinds, {"NO DATA"}, "status of %s %s" % (name, m))
                    elif m in mine:
                        c.eq(kinds, {"FAIL"}, "status of %s %s" % (name, m))
                    else:
                        low = missed(want[name][m], pol.get("minimum", {}).get(m, floors[name][m]))
                        if low is not None:
                            c.eq(kinds, {"LOW"} if low else set(), "status of %s %s" % (name, m))


# ---- coverage_sources ----

@prop(2500, 50000, "reports over several files, policies whose categories partition them or not; non-trivial: at least two sources are kept")
def sources(c):
    root = fresh("src")
    ws = os.path.join(root, "ws")
    out = os.path.join(root, "grouped")
    os.makedirs(ws)
    pol = dict(categories={})
    if c.draw(st.booleans()):
        pol["include"] = c.draw(st.lists(st.sampled_from(["mbo/**", "mbo/file/**", "mbo/hash/**"]), min_size=1, max_size=2, unique=True))
    if c.draw(st.booleans()):
        pol["exclude"] = c.draw(st.lists(st.sampled_from(["**/*_test.cc", "mbo/**/*_benchmark.cc", "mbo/hash2/*"]), max_size=2, unique=True))
    cats = {"file": ["mbo/file/**"], "hash": ["mbo/hash/**", "mbo/hash2/**"], "rest": ["mbo/types/**", "mbo/diff/**", "mbo/*.cc"], "wide": ["mbo/**/*.h"]}
    for n in c.draw(st.lists(st.sampled_from(["file", "hash", "rest", "wide"]), min_size=1, unique=True)):
        pol["categories"][n] = {"include": cats[n]}
    paths = c.draw(st.lists(st.sampled_from(PATHS + OUTSIDE), min_size=1, max_size=5, unique=True))
    text, want, bad = "", [], False
    for p in paths:
        n = c.draw(st.sampled_from([0, 1, 12, 100]))
        field = c.draw(st.sampled_from(["LF", "FNF", "BRF"]))
        absolute = c.draw(I(0, 2)) == 0 and p.startswith("mbo/")
        sf = os.path.join(ws, p) if absolute else p
        body = "DA:1,%d\n%s:%d\n" % (c.draw(I(0, 3)), field, n)
        if field != "LF":
            body += "LF:0\n"
        text += "SF:" + sf + "\n" + body + "end_of_record\n"
        if p.startswith("mbo/"):
            put(ws, p, "source of " + p)
        if n == 0 or not any(glob_ref(p, x) for x in pol.get("include", ["mbo/**"])) or any(glob_ref(p, x) for x in pol.get("exclude", [])):
            continue
        mine = [k for k, v in pol["categories"].items() if any(glob_ref(p, x) for x in v["include"])]
        if len(mine) != 1:
            bad = True
        else:
            want.append((mine[0], p, body))
    c.case((text, pol))
    if len(want) > 1 and not bad:
        c.nontrivial()
    try:
        got = src_tool.grouped(text, pol, Path(out), Path(ws))
    except ValueError:
        c.check(bad, "rejected although every source has one category")
        return
    c.check(not bad, "a source outside exactly one category was accepted")
    c.eq(got, "".join("SF:%s/%s/%s\n%send_of_record\n" % (out, cat, p, body) for cat, p, body in want), "grouped report")
    for cat, p, _ in want:
        f = os.path.join(out, cat, p)
        c.check(os.path.exists(f) and open(f).read() == "source of " + p, "%s does not lead to the source" % f)


# ---- coverage_index ----

def metric(k, n):
    return {"covered": k, "total": n, "percent": round(100.0 * k / n, 2) if n else None}


@st.composite
def summary(draw):
    def row():
        r = {}
        for m in METRICS:
            n = draw(st.sampled_from([0, 1, 2, 3, 8, 100]))
            r[m] = metric(draw(I(0, n)), n)
        return r
    names = ["overall"] + draw(st.lists(st.sampled_from(["file", "hash", "a<b>&c"]), max_size=2, unique=True))
    full = lambda: {m: draw(FLOOR) for m in METRICS}
    mins = {n: full() for n in names}
    targets = {n: full() for n in names}
    s = dict(schema=1, measurements={n: row() for n in names}, minimums=mins, targets=targets)
    if draw(st.booleans()):
        s["patch"] = row()
    return s


TARGETS = ["main", "tag/0.9.0", "tag/0.10.0", "tag/0.10.1", "tag/1.2.3", "pr/9", "pr/42", "pr/100", "pr/420"]


@st.composite
def meta(draw, target=None):
    s = draw(summary())
    day = draw(I(1, 3))
    return index.report_metadata(s, target or draw(st.sampled_from(TARGETS[:5])), "2026-08-%02dT10:0%d:00Z" % (day, draw(I(0, 2))), "2026-08-%02dT10:01:00Z" % day,
                                 draw(st.sampled_from(["2026-08-22T10:01:00Z", "2026-08-22T23:30:00+02:00"])), draw(st.sampled_from([1, 9, 10, 100])), draw(I(1, 12)), draw(st.sampled_from(["abc", "0123456789abcdef"])))


def stamp(v):
    s = v["source"]
    return (s["created_at"], s["run_id"], s["run_attempt"])


@prop(3000, 60000, "lists of report records of few targets in any order; non-trivial: one target has at least two different records")
def newest(c):
    vals = c.draw(st.lists(meta(), max_size=7))
    c.case([(v["target"], stamp(v)) for v in vals])
    got = index.latest_metadata([dict(v) for v in vals])
    by = {}
    for v in vals:
        by.setdefault(v["target"], []).append(v)
    c.eq(set(got), set(by), "targets")
    for t, vs in by.items():
        if len({stamp(v) for v in vs}) > 1:
            c.nontrivial()
        c.eq(stamp(got[t]), max(stamp(v) for v in vs), "newest report of %s" % t)
        c.check(got[t] in vs, "the record changed")
    for a in vals[:3]:
        for b in vals[:3]:
            c.eq(index.is_newer(a, b), stamp(a) >= stamp(b), "is_newer %r %r" % (stamp(a), stamp(b)))


@prop(1200, 20000, "a retained site of up to nine reports; non-trivial: at least three reports of two kinds")
def site(c):
    root = fresh("site")
    targets = c.draw(st.lists(st.sampled_from(TARGETS), max_size=6, unique=True))
    vals = {}
    for t in targets:
        v = c.draw(meta(target=t))
        if c.draw(I(0, 7)) == 0:
            v["source"]["run_id"] = 0
        vals[t] = v
        put(root, t + "/coverage-meta.json", json.dumps(v))
    put(root, "other/x/coverage-meta.json", "{}")
    c.case(vals)
    if len(targets) > 2 and len({t.split("/")[0] for t in targets}) > 1:
        c.nontrivial()
    page = index.render_site(Path(root))
    rows = re.findall(r"<tr>(<td>.*?)</tr>", page, re.S)
    order = sorted(targets, key=lambda t: (0,) if t == "main" else (1,) + tuple(-int(x) for x in t[4:].split(".")) if t[0] == "t" else (2, -int(t[3:])))
    c.eq([re.search(r'href="([^"]*)/"', r).group(1) for r in rows], order, "order of the reports")
    for r, t in zip(rows, order):
        cells = re.findall(r"<td>(.*?)</td>", r, re.S)
        v = vals[t]
        c.eq(cells[-3:], ["n/a" if v["coverage"][m]["percent"] is None else "%.2f%%" % v["coverage"][m]["percent"] for m in METRICS], "rates of " + t)
        if v["source"]["run_id"] == 0:
            c.check("runs/" not in r and "commit/" not in r, "placeholder metadata linked")
        else:
            c.check("/actions/runs/%d\"" % v["source"]["run_id"] in r and "/commit/%s\"" % v["source"]["head_sha"] in r, "run or commit of %s: %s" % (t, r))
            c.eq("(attempt %d)" % v["source"]["run_attempt"] in r, v["source"]["run_attempt"] > 1, "attempt of " + t)
            c.check(("10:01:00 UTC" if v["source"]["completed_at"].endswith("Z") else "21:30:00 UTC") in r, "time of %s: %s" % (t, r))
    c.eq("No coverage reports are available" in page, not targets, "empty note")


@prop(2500, 50000, "summaries with floors and targets; non-trivial: some row fails and some does not")
def report(c):
    s = c.draw(summary())
    t = c.draw(st.sampled_from(TARGETS))
    c.case((s, t))
    page = index.render_report(s, t)
    body = page.split("<tbody>")[1].split("</tbody>")[0]
    rows = re.findall(r"<tr(.*?)>(<td>.*?)</tr>", body)
    c.eq(len(rows), len(s["measurements"]), "rows")
    fails = 0
    for (css, r), (name, ms) in zip(rows, s["measurements"].items()):
        cells = re.findall(r"<td>(.*?)</td>", r)
        c.eq(cells[0], html.escape(name), "name")
        c.eq(cells[2:], [x for m in METRICS for x in ("n/a" if ms[m]["percent"] is None else "%.2f%%" % ms[m]["percent"], str(ms[m]["covered"]), str(ms[m]["total"]))], "numbers of " + name)
        bad = [m for m in METRICS if ms[m]["percent"] is None or ms[m]["percent"] < s["minimums"][name][m]]
        low = [m for m in METRICS if m not in bad and ms[m]["percent"] < s["targets"][name][m]]
        want = "FAIL: " + "/".join(m[0].upper() for m in bad) if bad else "LOW: " + "/".join(m[0].upper() for m in low) if low else "OK"
        c.eq(cells[1], want, "status of " + name)
        c.eq("fail" in css, bool(bad), "highlight of " + name)
        fails += bool(bad)
    if 0 < fails < len(rows):
        c.nontrivial()
    c.eq("Changed coverable lines" in page, "patch" in s, "patch section")
    if "patch" in s:
        tail = page.split("Changed coverable lines")[1]
        c.eq(re.findall(r"<td>(.*?)</td>", tail), ["n/a" if s["patch"][m]["percent"] is None else "%.2f%%" % s["patch"][m]["percent"] for m in ("lines", "branches")], "patch rates")
    c.check('href="%s"' % ("../" * len(t.split("/"))) in page and 'href="lcov/"' in page, "links")
