"""Y03: the repository's lints on generated trees whose violations are known."""
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import pyrt
from pyrt import prop
from hypothesis import strategies as st

I = st.integers
tested = pyrt.load("tools/check_cc_library_tested.py", "check_cc_library_tested")
naming = pyrt.load("tools/check_cc_target_naming.py", "check_cc_target_naming")
claimed = pyrt.load("tools/check_headers_claimed.py", "check_headers_claimed")
status_assert = pyrt.load("tools/check_status_assert.py", "check_status_assert")
cache = pyrt.load("tools/cache_cleanup.py", "cache_cleanup")
guards = pyrt.load(".pre-commit/check_header_guards.py", "check_header_guards")


def run(fn, argv, cwd, stdin=""):
    out, err = io.StringIO(), io.StringIO()
    old, oin = os.getcwd(), sys.stdin
    os.chdir(cwd)
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            rc = fn(argv)
    finally:
        os.chdir(old)
        sys.stdin = oin
    return rc, out.getvalue(), err.getvalue()


def fresh(name="t"):
    d = os.path.join(pyrt.scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return os.path.realpath(d)


def put(root, rel, text):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)


# ---- BUILD files ----

BASE = st.sampled_from(["glob", "ini", "a", "glob_cc", "a_cc", "my-lib_cc", "x.y_cc", "cc", "_cc", "glob_cc_test", "b_cc2", "glob_ccx"])
KINDS = ["cc_library", "cc_library", "cc_library", "cc_test", "cc_test", "cc_binary", "diff_test", "sh_test", "cc_library_headers", "my_cc_library", "test_suite", "filegroup", "genrule"]
PKGS = ["", "mbo", "mbo/file", "mbo/file/ini", "x/glob_cc", "conditions"]


@st.composite
def rule(draw, names, pkg, other):
    kind = draw(st.sampled_from(KINDS))
    name = draw(BASE)
    if draw(I(0, 5)) == 0:
        return dict(kind=kind, name=name, deps=[], lines=['%s(name = "%s")' % (kind, name)])
    attrs, deps = [], []

    def comment(indent):
        return draw(st.sampled_from([[], [], [], [indent + "# a comment"], [indent + '# ":%s",' % draw(BASE)], [indent + "# deps = ["], [indent + '# name = "x_cc",']]))

    def label():
        n = draw(BASE)
        return draw(st.sampled_from([(":" + n, n), (":" + n, n), ("//%s:%s" % (pkg, n), n), ("//%s:%s" % (other, n), None), ("@ext//x:" + n, None), ("@ext//%s:%s" % (pkg, n), None), ("@abseil-cpp//absl/%s" % n, None)]
                                   + ([("//" + pkg, pkg.rsplit("/", 1)[-1])] if pkg else [])))

    def strlist(attr, labels, indent="    "):
        if not labels:
            return [indent + "%s = []," % attr]
        if len(labels) == 1 and draw(st.booleans()):
            return [indent + '%s = ["%s"],' % (attr, labels[0])]
        r = [indent + "%s = [" % attr]
        for l in labels:
            r += comment(indent + "    ")
            r.append(indent + '    "%s",%s' % (l, draw(st.sampled_from(["", "", "", "  # why", '  # not ":glob_cc"']))))
        return r + comment(indent + "    ") + [indent + "],"]

    nattrs = draw(I(0, 3))
    pool = draw(st.lists(st.sampled_from(["srcs", "data", "deps", "implementation_deps", "copts", "tags", "visibility", "select"]), max_size=nattrs + 2, unique=True))
    for a in pool:
        if a in ("deps", "select"):
            if a == "select" and "deps" in pool and pool.index("deps") < pool.index("select"):
                continue
            if any(x in ("deps",) for x in pool) and a == "select":
                continue
            ls = [label() for _ in range(draw(I(0, 3)))]
            deps += [n for _, n in ls if n is not None]
            if a == "deps":
                attrs.append(strlist("deps", [l for l, _ in ls]))
            else:
                r = ["    deps = select({"]
                ls2 = [label() for _ in range(draw(I(0, 2)))]
                deps += [n for _, n in ls2 if n is not None]
                r += ['        "//cfg:fast": ['] + ['            "%s",' % l for l, _ in ls] + ["        ],"]
                r += ['        "//cfg:default": ['] + ['            "%s",' % l for l, _ in ls2] + ["        ],"]
                extra = [label() for _ in range(draw(I(0, 2)))]
                if extra:
                    deps += [n for _, n in extra if n is not None]
                    r += ["    }) + ["] + ['        "%s",' % l for l, _ in extra] + ["    ],"]
                else:
                    r += ["    }),"]
                attrs.append(r)
        elif a in ("data", "implementation_deps"):
            attrs.append(strlist(a, [label()[0] for _ in range(draw(I(0, 2)))]))
        else:
            attrs.append(strlist(a, ["x.cc", "y.h"][: draw(I(0, 2))]))
    lines = ["%s(" % kind] + comment("    ") + ['    name = "%s",' % name]
    for a in attrs:
        lines += comment("    ") + a
    lines += [draw(st.sampled_from([")", ")", ")  # end"]))]
    return dict(kind=kind, name=name, deps=deps, lines=lines)


FILLER = st.sampled_from([["# comment", '# cc_library(name = "nope")'], ['load("@rules_cc//cc:defs.bzl", "cc_library")'], ['load(', '    "@rules_cc//cc:defs.bzl",', '    "cc_library",', ')'],
                          ['package(default_visibility = ["//visibility:public"])'], ["COPTS = [", '    "-Wall",', "]"], ['exports_files(["x.h"])'], ['licenses(["notice"])'], ['"""Docs for this package."""'], [""]])


@st.composite
def build_file(draw, pkg):
    lines, rules = [], []
    other = draw(st.sampled_from([p for p in PKGS if p != pkg]))
    for _ in range(draw(I(0, 5))):
        if draw(I(0, 2)) == 0:
            lines += draw(FILLER) + [""]
        r = draw(rule(None, pkg, other))
        r["line"] = len(lines) + 1
        rules.append(r)
        lines += r["lines"] + ([""] if draw(I(0, 5)) else [])
    return "\n".join(lines) + ("\n" if draw(I(0, 9)) else ""), rules


@prop(6000, 60000, "one to three packages of generated rules, given as arguments or found by the walk, with trees that must be skipped; non-trivial: at least two libraries")
def build_lints(c):
    root = fresh()
    walk = c.draw(st.booleans())
    pk = c.draw(st.lists(st.sampled_from(PKGS), min_size=1, max_size=3, unique=True))
    want_t, want_n, args, texts = [], [], [], []
    libs = 0
    for p in pk:
        text, rules = c.draw(build_file(p))
        fn = os.path.join(p, c.draw(st.sampled_from(["BUILD.bazel", "BUILD.bazel", "BUILD"])))
        put(root, fn, text)
        args.append(fn)
        texts.append((fn, text))
        local = {d for r in rules if r["kind"].endswith("_test") for d in r["deps"]}
        for r in rules:
            if r["kind"] != "cc_library":
                continue
            libs += 1
            if r["name"] not in local and (p, r["name"]) != ("mbo/container", "limited_set_benchmark_cc"):
                want_t.append((fn, r["line"], r["name"]))
            if not r["name"].endswith("_cc"):
                want_n.append((fn, r["line"], r["name"]))
    for skip in c.draw(st.lists(st.sampled_from(["bazel-out/x", "bazel-repo", "third_party/y", "external/z", "mbo/third_party", ".git/q"]), max_size=2, unique=True)):
        put(root, os.path.join(skip, "BUILD.bazel"), 'cc_library(name = "bad")\n')
    c.case(texts)
    if libs > 1:
        c.nontrivial()
    argv = ["prog"] + ([] if walk else [os.path.join(root, a) for a in args] if c.draw(st.booleans()) else args)
    for what, fn, want in (("untested", tested.main, want_t), ("misnamed", naming.main, want_n)):
        rc, out, err = run(fn, argv, root)
        got = re.findall(r"^  (\S+?):(\d+): cc_library '([^']*)'", err, re.M)
        c.eq(sorted((f, int(l), n) for f, l, n in got), sorted(want), "%s libraries reported" % what)
        c.eq(rc, 1 if want else 0, "exit code (%s)" % what)
        if not want:
            c.eq(out + err, "", "output without a violation")
    if not walk and c.draw(I(0, 4)) == 0:
        for fn in (tested.main, naming.main):
            rc, out, err = run(fn, ["prog", os.path.join(root, "nope", "BUILD")], root)
            c.check(rc == 1 and "nope" in err, "an unreadable file passes silently")


# ---- headers claimed ----

DIRS = ["mbo", "mbo/a", "mbo/a/b", "mbo/a/b/c", "mbo/d", "mbo/d/e"]


@prop(1200, 20000, "trees of packages and headers, each listed or not in one of its ancestors; non-trivial: a header in a subdirectory of its package")
def headers_claimed(c):
    root = fresh()
    builds = c.draw(st.lists(st.sampled_from([""] + DIRS), max_size=4, unique=True))
    heads = c.draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(["x.h", "y.h", "xx.h", "x_internal.h", "z-1.h"])), min_size=1, max_size=5, unique=True))
    text = {b: ["cc_library(", '    name = "l_cc",', "    hdrs = ["] for b in builds}
    want = []
    for d, h in heads:
        put(root, d + "/" + h, "")
        own = None
        k = d
        while True:
            if k in builds:
                own = k
                break
            if k == "":
                break
            k = k.rpartition("/")[0]
        if own is None:
            want.append(d + "/" + h)
            continue
        rel = (d + "/" + h)[len(own) + 1 if own else 0:]
        if "/" in rel:
            c.nontrivial()
        how = c.draw(st.sampled_from(["listed", "listed", "absent", "wrong level", "name only", "longer"]))
        if how == "listed":
            text[own].append('        "%s",' % rel)
        else:
            want.append(d + "/" + h)
            if how == "wrong level":
                for b in builds:
                    if b != own and (d + "/").startswith(b + "/" if b else "") and not any(x != h and False for x in ()):
                        text[b].append('        "%s",' % (d + "/" + h)[len(b) + 1 if b else 0:])
            elif how == "longer":
                text[own].append('        "z%s",' % rel)
            elif how == "name only" and "/" in rel:
                text[own].append('        "%s",' % os.path.basename(rel))
    for b in builds:
        put(root, os.path.join(b, "BUILD.bazel"), "\n".join(text[b] + ["    ],", ")", ""]))
    # The decoys above may name another header: the reference reads the final texts.
    final = []
    for d, h in heads:
        k, own = d, None
        while True:
            if k in builds:
                own = k
                break
            if k == "":
                break
            k = k.rpartition("/")[0]
        if own is None or '        "%s",' % (d + "/" + h)[len(own) + 1 if own else 0:] not in text[own]:
            final.append(d + "/" + h)
    c.case((heads, text))
    subprocess.run(["git", "init", "-q", "."], cwd=root, check=True)
    if c.draw(st.booleans()):
        argv = [d + "/" + h for d, h in heads] + c.draw(st.sampled_from([[], ["mbo/a/BUILD.bazel", "README.md"]]))
        consider = final
    else:
        subprocess.run(["git", "add", "-A"], cwd=root, check=True)
        put(root, "mbo/untracked.h", "")
        argv, consider = [], final
    rc, out, err = run(claimed.main, argv, root)
    c.eq(sorted(re.findall(r"^  (\S+) -> ", out, re.M)), sorted(consider), "orphaned headers reported")
    c.eq(rc, 1 if consider else 0, "exit code")


# ---- status assert ----

VARS = ["res", "result", "res_x", "my_res", "x", "value_or"]


@prop(6000, 60000, "test sources with asserted and dereferenced names at various distances; non-trivial: a dereference of an asserted name somewhere after it")
def status_assert_lint(c):
    root = fresh()
    files, want = [], []
    for k in range(c.draw(I(1, 2))):
        lines = []
        mine = c.draw(st.sampled_from([VARS[:1], VARS[:2], VARS]))
        for _ in range(c.draw(I(1, 8))):
            v = c.draw(st.sampled_from(mine))
            w = c.draw(st.sampled_from(VARS))
            lines += c.draw(st.sampled_from([
                ["  ASSERT_THAT(%s, IsOk());" % v], ["  ASSERT_THAT( %s , IsOk() );" % v], ["  if (a) ASSERT_THAT(%s,IsOk()) << 1;" % v],
                ["  EXPECT_THAT(%s, IsOk());" % v], ["  ASSERT_THAT(%s, IsOkAndHolds(1));" % v], ["  ASSERT_THAT(%s.f(), IsOk());" % v], ["  ASSERT_THAT(%s, Not(IsOk()));" % v],
                ["  EXPECT_THAT(*%s, 1);" % v], ["  EXPECT_THAT(%s->size(), 1);" % v], ["  foo(%s.value(), %s);" % (v, w)], ["  use(*%s_y, a%s->b);" % (v, v)], ["  auto y = std::move(*%s);" % v],
                ["  int %s = 1;" % v] * c.draw(st.sampled_from([1, 2, 5, 6, 7, 8, 9])), [""],
                ["  ASSERT_THAT(%s, IsOk());" % v] + ["  f();"] * c.draw(st.sampled_from([0, 1, 4, 6, 7, 8])) + c.draw(st.sampled_from([["  g(*%s);" % v], ["  %s->g();" % v], ["  h(%s);" % v]])),
            ]))
        name = c.draw(st.sampled_from(["a%d_test.cc", "a%d_test.cc", "a%d.cc", "a%d_test.h"])) % k
        put(root, name, "\n".join(lines) + "\n")
        files.append(name)
        if not name.endswith("_test.cc"):
            continue
        for i, l in enumerate(lines):
            m = re.search(r"(?<!\w)ASSERT_THAT\(\s*(\w+)\s*,\s*IsOk\(\)\s*\)", l)
            if not m:
                continue
            ids = lambda t: [(x.group(1), x.group(2), x.group(3)) for x in re.finditer(r"(\*?)(\w+)((?:->)?)", t)]
            rest = [j for j in range(i + 1, len(lines)) if any(n == m.group(1) and (star or arrow) for star, n, arrow in ids(lines[j]))]
            if rest:
                c.nontrivial()
            if rest and rest[0] - i <= 8:
                want.append((name, i + 1))
    c.case([open(os.path.join(root, f)).read() for f in files])
    rc, out, err = run(status_assert.main, files, root)
    c.eq(sorted((f, int(n)) for f, n in re.findall(r"^(\S+?):(\d+):", err, re.M)), sorted(want), "reported asserts")
    c.eq(rc, 1 if want else 0, "exit code")


# ---- cache cleanup ----

@st.composite
def stamp(draw):
    """A UTC time as `gh` prints it (RFC 3339, trailing zeros of the fraction dropped)."""
    s = "2026-%02d-%02dT%02d:%02d:%02d" % (draw(st.sampled_from([1, 9, 10, 12])), draw(st.sampled_from([1, 9, 10])), draw(st.sampled_from([0, 9, 10, 23])), 0, draw(st.sampled_from([0, 5])))
    frac = draw(st.sampled_from([0, 0, 1, 10, 120000, 123000, 123456, 500000, 999999, 12]))
    return s, frac


def gh(t):
    s, frac = t
    f = ("%06d" % frac).rstrip("0")
    return s + ("." + f if f else "") + "Z"


@prop(6000, 150000, "lists of caches of several keys with whole and fractional seconds; non-trivial: at least two matching caches")
def cache_cleanup(c):
    prefix = c.draw(st.sampled_from(["k-main", "k", "k-main-", "linux.*", ""]))
    keys = st.sampled_from(["k-main-1", "k-main", "k-dev-1", "linux.*-x", "linuxab", "xk-main", "K-main"])
    times = c.draw(st.lists(stamp(), max_size=7, unique=True))
    caches = [dict(id=100 + i, key=c.draw(keys), createdAt=gh(t), t=t) for i, t in enumerate(times)]
    c.case((prefix, caches))
    match = [x for x in caches if x["key"][:len(prefix)] == prefix]
    if len(match) > 1:
        c.nontrivial()
    newest = max(match, key=lambda x: x["t"])["id"] if match else None
    want = sorted(x["id"] for x in match if x["id"] != newest)
    doc = json.dumps([{k: v for k, v in x.items() if k != "t"} for x in caches])
    rc, out, err = run(cache.main, ["prog", prefix], pyrt.scratch(), doc)
    c.eq(rc, 0, "exit code")
    c.eq(sorted(int(x) for x in out.split()), want, "expired caches")


# ---- header guards ----

PATHS = st.sampled_from(["mbo/file/file.h", "mbo/digest/digest_md5.h", "a.h", "mbo/x-y/z.inl.h", "mbo/hash/hash_v1.2.h", "third_party/q/A.h", "mbo/é.h"])


@prop(4000, 80000, "headers whose guard, define and closing comment are right, wrong or missing; non-trivial: not all right")
def header_guards(c):
    root = fresh()
    n = c.draw(I(1, 2))
    plan, want = [], {}
    paths = c.draw(st.lists(PATHS, min_size=n, max_size=n, unique=True))
    for p in paths:
        right = "".join(ch.upper() if ch.isalnum() and ch.isascii() else "_" for ch in p) + "_"
        wrong = c.draw(st.sampled_from([right[:-1], right + "_", right.lower(), "X" + right, right.replace("_", "", 1)]))
        g = c.draw(st.sampled_from([right, right, right, wrong, None]))
        d = c.draw(st.sampled_from([g, g, g, wrong, None]))
        e = c.draw(st.sampled_from([g, g, None, wrong]))
        lines = ["// Copyright", ""]
        if g:
            lines.append("#ifndef " + g)
        if d:
            lines.append("#define " + d)
        lines += c.draw(st.sampled_from([[], ["#include <string>"], ["#ifdef NDEBUG", "int x;", "#endif  // NDEBUG"], ["#ifndef OTHER", "# define OTHER", "#endif  // OTHER"] if g else []]))
        lines += ["int y;", "#endif" + ("  // " + e if e else "")]
        lines += c.draw(st.sampled_from([[], ["// the end"]]))
        name = c.draw(st.sampled_from([p, p, p, p[:-2] + ".cc"]))
        put(root, name, "\n".join(lines) + "\n")
        plan.append((name, lines))
        bad = 0
        if g is None:
            bad = 1
        else:
            bad += g != right
            bad += d != g
            bad += e is not None and e != g
        if name.endswith(".h") and bad:
            want[name] = bad
    c.case(plan)
    if want:
        c.nontrivial()
    rc, out, err = run(guards.main, ["prog"] + [p for p, _ in plan], root)
    got = {}
    for l in err.splitlines():
        m = re.match(r"^(\S+?): ", l)
        if m and m.group(1) in paths:
            got[m.group(1)] = got.get(m.group(1), 0) + 1
    c.eq(set(got), set(want), "offending headers")
    c.eq(got, want, "number of complaints per header")
    c.eq(rc, 1 if want else 0, "exit code")
