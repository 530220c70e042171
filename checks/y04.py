"""Y04: the Bazel rules (diff_test, verify_digest_test, mope, mope_test, config_gen) do what their attributes say.

The .bzl files are evaluated by lib/starlark.py, the generated scripts and actions are run with the real tools, and
judged by the tools called directly with every option spelled out, by hashlib, or by the data itself."""
import hashlib
import os
import re
import shutil
import subprocess
import pyrt
from pyrt import prop
from lib import starlark
from hypothesis import strategies as st

TOOLS = {n: os.environ["VERIF_SO_" + n] for n in ("y04_diff", "y04_digest", "y04_mope")}
COUNT = [0]


def world(workspace="_main", package="pkg", repo=""):
    COUNT[0] += 1
    root = os.path.join(pyrt.scratch(), "w")
    shutil.rmtree(root, ignore_errors=True)
    w = starlark.World(pyrt.repo(), os.path.realpath(os.path.dirname(root)) + "/w", workspace, package)
    for label, pkg, name, exe in (("//mbo/diff", "mbo/diff", "diff", "y04_diff"), ("//mbo/digest:digest", "mbo/digest", "digest", "y04_digest"), ("//mbo/mope", "mbo/mope", "mope", "y04_mope")):
        w.tools[label] = starlark.Tool(w, pkg, name, TOOLS[exe], repo)
        w.tools[label + ":" + name] = w.tools[label]
    w.settings["//mbo/mope:clang_format"] = ""
    return w


def direct(tool, args, cwd):
    p = subprocess.run([TOOLS[tool]] + args, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return p.returncode, p.stdout, p.stderr


def undated(text):
    return re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?( [+-]\d{4})?", b"TIME", text)


PACKAGES = st.sampled_from(["pkg", "pkg", "a/b", "", "external_files", "externals/x", "x/external"])
NAMES = st.sampled_from(["old.txt", "new.txt", "sub/a.txt", "a.b.c", "with space.txt", "external.txt", "-dash", "ext@1.txt"])
LINES = st.sampled_from(["a", "b", "c", "A", "a ", " a", "a  b", "a b", "ab", "", "// note", "a // note", "a # x", 'b "// x" c', "'# y'", "x'y", "1", "2", "\t"])
BOOLS = ["ignore_all_space", "ignore_consecutive_space", "ignore_blank_lines", "ignore_case", "ignore_matching_chunks", "ignore_trailing_space",
         "ignore_missing_final_newline", "minimal", "show_chunk_headers", "skip_left_deletions", "strip_parsed_comments"]
DEFAULTS = dict(file_header_use="both", algorithm="myers", context=-1, format="unified", ignore_matching_lines="", regex_replace_lhs="", regex_replace_rhs="",
                strip_comments="", width=-1, **{b: b in ("ignore_matching_chunks", "show_chunk_headers", "strip_parsed_comments") for b in BOOLS})
VALUES = dict(file_header_use=["both", "left", "none", "right"], algorithm=["direct", "myers", "naive"], context=[0, 1, 2, 5], format=["context", "normal", "side-by-side", "unified"],
              ignore_matching_lines=["^a", "b$", "[ab]", "it's|c", "\\$x", "^//"], regex_replace_lhs=["/a/b/", "!b!$!", "/'/\"/"], regex_replace_rhs=["/b/a/", "|x|'|", "/ +/ /"],
              strip_comments=["//", "#", "' '"], width=[20, 40, 81], **{b: [False, True] for b in BOOLS})
THEMES = [[], [], [], ["strip_comments", "strip_parsed_comments"], ["ignore_matching_lines", "ignore_matching_chunks"], ["width"], ["skip_left_deletions", "ignore_blank_lines"], ["regex_replace_lhs", "regex_replace_rhs"]]


@st.composite
def texts(draw):
    base = draw(st.lists(LINES, max_size=8))
    other = list(base)
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(other)))
        k = draw(st.integers(0, 3))
        if k == 0:
            other.insert(i, draw(LINES))
        elif other and k == 1:
            del other[min(i, len(other) - 1)]
        elif other:
            j = min(i, len(other) - 1)
            other[j] = draw(st.sampled_from([other[j].upper(), other[j] + " ", other[j].replace(" ", ""), other[j] + " // x", other[j] + ' "// z"', "'# w' " + other[j], draw(LINES)]))
    ends = [draw(st.sampled_from(["\n", "\n", "\n", ""])) for _ in range(2)]
    return ["\n".join(t) + (e if t else "") for t, e in zip((base, other), ends)]


@prop(1200, 20000, "two texts in source, generated or external files, up to four attributes of diff_test, three ways to find runfiles: the test passes exactly if the diff tool called with all attributes as options finds no difference, and prints the same diff; non-trivial: the texts differ")
def diff_test(c):
    d = c.draw
    package = d(PACKAGES)
    workspace = d(st.sampled_from(["_main", "_main", "my_ws"]))
    old, new = d(texts())
    attrs = {}
    theme = d(st.sampled_from(THEMES))
    if "width" in theme:
        attrs["format"] = "side-by-side"
    if "strip_comments" in theme and d(st.booleans()):
        mark = d(st.sampled_from(["//", "#"]))
        old, new = 'b "%s x" c\n%s' % (mark, old), 'b "%s y" c\n%s' % (mark, d(st.sampled_from([old, new])))
    for k in theme + [k for k in d(st.lists(st.sampled_from(sorted(VALUES)), max_size=3, unique=True)) if k not in theme + list(attrs)]:
        attrs[k] = d(st.sampled_from(VALUES[k]))
    places = [d(st.sampled_from(["source", "source", "generated", "external", "external_generated"])) for _ in range(2)]
    names = [d(NAMES), d(NAMES)]
    mode = d(st.sampled_from(["dir", "dir", "srcdir", "manifest"]))
    note = d(st.sampled_from(["", "", "Please regenerate!", "it's \"$HOME\""]))
    if names[0] == names[1]:
        names[1] = "other/" + names[1]
    if mode == "manifest":
        names = [n.replace(" ", "_") for n in names]
    c.case((package, workspace, old, new, attrs, places, names, mode, note))
    if old != new:
        c.nontrivial()
    for k in attrs:
        c.label(k)
    c.label(mode)
    w = world(workspace, package, d(st.sampled_from(["", "", "helly25_mbo+"])))
    labels = [w.add(n, t.encode(), repo="other_repo" if p.startswith("external") else "", generated=p.endswith("generated")) for n, t, p in zip(names, (old, new), places)]
    if package in ("pkg", "a/b") and not places[0].startswith("external") and d(st.booleans()):
        labels[0] = names[0]
    w.load("mbo/diff/diff.bzl")["diff_test"](name="the_test", file_old=labels[0], file_new=labels[1], **attrs, **({"failure_message": note} if note else {}))
    rc, out, err = w.run_test("the_test", mode)
    files = [w.file(x) for x in labels]
    top = os.path.join(w.root, "runfiles", "the_test")
    paths = [f.abs if mode == "manifest" else os.path.join(top, f.runfile) for f in files]
    opts = dict(DEFAULTS, **attrs)
    args = ["--%s=%s" % (k, {True: "1", False: "0"}.get(v, v) if isinstance(v, bool) else v) for k, v in sorted(opts.items()) if not (k in ("context", "width") and v == -1)]
    want, wout, werr = direct("y04_diff", args + ["--strip_file_header_prefix=external/(com_)?helly25_mbo[^/]*/"] + paths, os.path.join(top, workspace))
    c.eq(rc == 0, want == 0, "the test passes iff there is no difference (the tool exits with %r: %.300r; the test wrote %.600r)" % (want, werr, err))
    c.eq(undated(out), undated(wout), "the printed difference")
    if rc != 0 and note:
        c.check(note in err.decode(), "the failure message is missing in %.500r" % err)


@prop(200, 2000, "bad values and combinations of diff_test attributes; non-trivial: always")
def diff_test_rejects(c):
    k, v = c.draw(st.sampled_from([("algorithm", "fast"), ("format", "html"), ("file_header_use", "all"), ("unknown", 1), ("algorithm", "unified"), ("context", "3")]))
    extra = {"format": c.draw(st.sampled_from(["context", "normal", "side-by-side"]))} if v == "unified" else {}
    c.case((k, v, extra))
    c.nontrivial()
    w = world()
    labels = [w.add(n, b"a\n") for n in ("a.txt", "b.txt")]
    try:
        w.load("mbo/diff/diff.bzl")["diff_test"](name="t", file_old=labels[0], file_new=labels[1], **{k: v}, **extra)
    except (starlark.Failed, TypeError):
        return
    c.check(not w.tests or w.run_test("t")[0] != 0, "a diff_test with %s = %r %r passes" % (k, v, extra))


ALGOS = {"md5": "md5", "sha1": "sha1", "sha256": "sha256", "sha512": "sha512", "sha3-256": "sha3_256", "blake2b": "blake2b"}


@prop(800, 12000, "one to four files verified by sidecars (one or two lines each) or inline digests, some of which do not match, or the file changed or vanished; non-trivial: at least one mismatch")
def verify_digest_test(c):
    d = c.draw
    algo = d(st.sampled_from(["sha256", "sha256"] + sorted(ALGOS)))
    package = d(st.sampled_from(["pkg", "a/b", "", "external_x"]))
    n = d(st.integers(1, 4))
    w = world(d(st.sampled_from(["_main", "my_ws"])), package, d(st.sampled_from(["", "", "helly25_mbo+"])))
    digests, checksums, plan, ok = {}, {}, [], True
    for i in range(n):
        name = "%s%d%s" % (d(st.sampled_from(["f", "sub/g", "h x"])), i, d(st.sampled_from([".txt", "", ".bin"])))
        data = d(st.binary(max_size=40))
        kind = d(st.sampled_from(["good", "good", "good", "bad", "upper"]))
        label = w.add(name, data, generated=d(st.booleans()))
        f = w.file(label)
        good = hashlib.new(ALGOS[algo], data).hexdigest()
        hexd = {"good": good, "upper": good.upper(), "bad": hashlib.new(ALGOS[algo], data + b"!").hexdigest()}[kind]
        ok = ok and kind != "bad"
        inline = d(st.booleans())
        plan.append((name, data, kind, inline))
        if inline:
            checksums[label] = hexd
        else:
            digests[label] = w.add("sums/s%d.sum" % i, ("%s  %s\n" % (hexd, f.short_path)).encode())
    c.case((algo, package, plan))
    if not ok:
        c.nontrivial()
    c.label(algo)
    kw = {}
    if digests or d(st.booleans()):
        kw["digests"] = digests
    if checksums or d(st.booleans()):
        kw["checksums"] = checksums
    if algo != "sha256" or d(st.booleans()):
        kw["algorithm"] = algo
    w.load("mbo/digest/digest.bzl")["verify_digest_test"](name="sums_test", **kw)
    rc, out, err = w.run_test("sums_test", "dir" if d(st.booleans()) else "srcdir")
    c.eq(rc == 0, ok, "the test passes iff all digests match; it wrote %.500r %.500r" % (out, err))


@prop(20, 40, "verify_digest_test without entries; non-trivial: always")
def verify_digest_empty(c):
    kw = c.draw(st.sampled_from([{}, {"digests": {}}, {"checksums": {}}, {"digests": {}, "checksums": {}}]))
    c.case(kw)
    c.nontrivial()
    w = world()
    try:
        w.load("mbo/digest/digest.bzl")["verify_digest_test"](name="t", **kw)
    except starlark.Failed:
        return
    c.check(False, "a verify_digest_test without entries is accepted")


WORD = st.sampled_from(["one", "two", "x y", "3", "", "it's"])
PIECE = st.sampled_from(["text ", "{{k}}", "{{l}}", "{{s:a}}", "\n", "line\n", "{{#s}}[{{a}}]{{/s}}", "{{n=1;3}}{{n}},{{/n}}"])


@prop(500, 8000, "one to three templates with the extensions .mope and .tpl, INI data for some of them, arguments, outputs with and without .gen/.golden: the generated files equal what the tool writes for each, and mope_test passes exactly if the golden files equal that; non-trivial: a template with a tag")
def mope_rules(c):
    d = c.draw
    n = d(st.integers(1, 3))
    as_test = d(st.booleans())
    package = d(st.sampled_from(["pkg", "a/b"]))
    args = ["--set=k=" + d(WORD)] if d(st.booleans()) else []
    items = []
    for i in range(n):
        key = "t%d%s" % (i, d(st.sampled_from(["", ".cc", ".txt", ".x.h"])))
        items.append((key, d(st.sampled_from([".mope", ".tpl"])), "".join(d(st.lists(PIECE, max_size=5))), d(st.sampled_from([None, None, "k=ini\nl=L\n", "l=Q\n[s]\na=1\n"])), d(st.sampled_from(["same", "same", "differs"])), d(st.sampled_from(["", ".golden"]))))
    c.case((package, args, items, as_test))
    if any("{{" in i[2] for i in items):
        c.nontrivial()
    w = world("_main", package)
    want = {}
    for key, ext, text, ini, *unused in items:
        t = w.file(w.add(key + ext, text.encode()))
        cmd = args + ["--template=" + t.path, "--generate=direct.out"]
        cmd.append("--ini=" + (w.file(w.add(key + ".ini", ini.encode())).path if ini is not None else ""))
        out = os.path.join(w.execroot, "direct.out")
        rc = direct("y04_mope", cmd, w.execroot)[0]
        want[key] = open(out, "rb").read() if rc == 0 and os.path.exists(out) else None
        if os.path.exists(out):
            os.remove(out)
    bad = any(v is None for v in want.values())
    data = [key + ".ini" for key, ext, text, ini, *unused in items if ini is not None]
    srcs = [key + ext for key, ext, *unused in items]
    g = w.load("mbo/mope/mope.bzl")
    if not as_test:
        outs = ["out/" + i[0] + d(st.sampled_from(["", ".gen", ".golden"])) for i in items]
        try:
            g["mope"](name="m", srcs=srcs, outs=outs, data=data, args=args)
        except starlark.Failed as e:
            c.check(bad, "the rule failed: %s" % e)
            return
        c.check(not bad, "the rule does not report that the tool failed")
        for (key, *unused), o in zip(items, outs):
            c.eq(open(w.file(o).abs, "rb").read(), want[key], "generated " + o)
        return
    outs, equal = [], True
    for key, ext, text, ini, how, suffix in items:
        golden = (want[key] or b"") + (b"" if how == "same" else b"more\n")
        equal = equal and how == "same"
        outs.append(key + suffix)
        w.add(key + suffix, golden)
    try:
        g["mope_test"](name="gen" + d(st.sampled_from(["_test", "_tests"])), srcs=srcs, outs=outs, **({"data": data} if data else {}), **({"args": args} if args else {}))
    except starlark.Failed as e:
        c.check(bad, "the macro failed: %s" % e)
        return
    c.check(not bad, "the macro does not report that the tool failed")
    c.eq(len(w.suites), 1, "test suites")
    (tests,) = w.suites.values()
    c.eq(sorted(tests), sorted(w.tests), "the suite names all tests")
    c.eq(len(tests), n, "one test per template")
    results = [w.run_test(t.lstrip(":"))[0] == 0 for t in tests]
    c.eq(all(results), equal, "the suite passes iff all golden files are equal (%r)" % (results,))
    c.eq(sum(not r for r in results), sum(i[4] != "same" for i in items), "number of failing tests")


@prop(100, 400, "every unroll capacity of 4..32 with require_throws on and off; non-trivial: not the default")
def config_gen(c):
    unroll, throws = c.draw(st.integers(4, 32)), c.draw(st.booleans())
    c.case((unroll, throws))
    if unroll != 16 or throws:
        c.nontrivial()
    w = world("_main", "mbo/config")
    w.settings["//mbo/config:limited_ordered_max_unroll_capacity"] = unroll
    w.settings["//mbo/config:require_throws"] = throws
    template = open(os.path.join(pyrt.repo(), "mbo/config/internal/config.h.in"), "rb").read()
    w.add("internal/config.h.in", template)
    w.load("mbo/config/internal/config.bzl")["config_gen"](name="config_gen", template="internal/config.h.in", output="config_gen.h")
    header = w.file("config_gen.h").abs
    probe = os.path.join(w.root, "probe.cc")
    for flags, thrown in (([], throws), (["-fno-exceptions"], False)):
        with open(probe, "w") as f:
            f.write('#include "%s"\nstatic_assert(mbo::config::kRequireThrows == %s);\nstatic_assert(mbo::config::kUnrollMaxCapacityDefault == %d);\n' % (header, str(thrown).lower(), unroll))
        p = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", probe] + flags, capture_output=True, text=True, timeout=60)
        c.check(p.returncode == 0, "config for unroll=%d throws=%s %s: %.500s" % (unroll, throws, flags, p.stderr))


@prop(150, 1500, "mope with clang_format and a formatter that writes its options and its input with marked lines, or fails; non-trivial: always")
def mope_clang_format(c):
    d = c.draw
    text = "".join(d(st.lists(PIECE, max_size=5)))
    fails = d(st.sampled_from([False, False, False, True]))
    sort = d(st.sampled_from([None, True, False]))
    out = d(st.sampled_from(["t.h", "t.h.gen", "sub/t.h.gen"]))
    package = d(st.sampled_from(["pkg", "a/b"]))
    c.case((text, fails, sort, out, package))
    c.nontrivial()
    w = world("_main", package)
    w.add(".clang-format", b"BasedOnStyle: Google\n", package="")
    w.files["//:clang-format"] = w.files["//:.clang-format"]
    fmt = os.path.join(w.root, "fmt.sh")
    with open(fmt, "w") as f:
        f.write("#!/bin/bash\n[ \"$1\" = --version ] && { echo fmt; exit 0; }\nprintf '%s\\n' \"$@\"\necho ====\nsed 's/^/F:/'\n" + ("exit 3\n" if fails else ""))
    os.chmod(fmt, 0o755)
    w.tools["@llvm_toolchain_llvm//:bin/clang-format"] = starlark.Tool(w, "", "bin/clang-format", fmt, "llvm_toolchain_llvm")
    w.settings["//mbo/mope:clang_format"] = fmt
    t = w.file(w.add("t.h.mope", text.encode()))
    direct_out = os.path.join(w.execroot, "direct.out")
    rc = direct("y04_mope", ["--set=k=x", "--template=" + t.path, "--generate=direct.out", "--ini="], w.execroot)[0]
    try:
        w.load("mbo/mope/mope.bzl")["mope"](name="m", srcs=["t.h.mope"], outs=[out], clang_format=True, args=["--set=k=x"], **({} if sort is None else {"sort_includes": sort}))
    except starlark.Failed as e:
        c.check(rc != 0 or fails, "the rule failed: %s" % e)
        return
    c.check(rc == 0 and not fails, "the rule does not report that a tool failed")
    plain = open(direct_out, "rb").read()
    want = subprocess.run(["sed", "s/^/F:/"], input=plain, capture_output=True).stdout
    options, _, got = open(w.file(out).abs, "rb").read().partition(b"====\n")
    c.eq(got, want, "formatted output")
    options = options.decode().split("\n")
    c.check("--sort-includes=%d" % (sort is not False) in options, "sort_includes is not passed on: %r" % options)
    c.check("--assume-filename=%s/%s" % (package, out.replace(".gen", "")) in options, "the name is not passed on: %r" % options)
    c.check("--style=file:.clang-format" in options, "the style is not passed on: %r" % options)


@prop(100, 1000, "mope and mope_test with templates and outputs that do not match in number or name, or a test name without _test; non-trivial: always")
def mope_mismatch(c):
    d = c.draw
    names = d(st.lists(st.sampled_from(["a.cc", "b", "c.x.h", "d.txt"]), min_size=1, max_size=3, unique=True))
    how = d(st.sampled_from(["missing", "surplus", "renamed", "name"]))
    macro = "mope_test" if how == "name" else d(st.sampled_from(["mope", "mope_test"]))
    outs = [n + ("" if macro == "mope" else ".golden") for n in names]
    if how == "missing":
        outs.pop()
    elif how == "surplus":
        outs.append("other.cc")
    elif how == "renamed":
        outs[-1] = "x" + outs[-1]
    c.case((names, how, macro))
    c.nontrivial()
    w = world("_main", "pkg")
    for n in names:
        w.add(n + ".mope", b"text\n")
    for o in outs:
        if macro == "mope_test":
            w.add(o, b"text\n")
    try:
        w.load("mbo/mope/mope.bzl")[macro](name="m_test" if how != "name" else d(st.sampled_from(["m", "test_m", "m_test_2"])), srcs=[n + ".mope" for n in names], outs=outs)
    except starlark.Failed:
        return
    c.check(False, "%s accepts templates %r for outputs %r" % (macro, names, outs))
