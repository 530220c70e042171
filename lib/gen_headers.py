"""Renders the two build-generated headers of the repository (what Bazel would
generate) from the working tree, for its default build settings."""
import os
import re


def starlark(path, **extra):
    """Executes a .bzl file that is plain enough to be Python."""
    class Fail(Exception):
        pass

    def fail(msg=""):
        raise Fail(msg)

    class Any:
        def __getattr__(self, _):
            return lambda *a, **k: None

    class Struct:
        def __init__(self, **kw):
            self.__dict__.update(kw)

    env = {
        "load": lambda *a, **k: None, "fail": fail, "rule": lambda **k: (lambda **kk: None), "provider": lambda *a, **k: None,
        "attr": Any(), "Label": lambda x: x, "struct": Struct, "native": Any(), "depset": lambda *a, **k: None,
        "type": lambda x: "string" if isinstance(x, str) else "int" if isinstance(x, int) else type(x).__name__,
        "Fail": Fail,
    }
    env.update(extra)
    src = open(path).read().replace(".elems()", "")
    exec(compile(src, path, "exec"), env)
    return env


def build_setting(repo, pkg, name):
    text = open(os.path.join(repo, pkg, "BUILD.bazel")).read()
    for m in re.finditer(r"\w+\(\s*(.*?)\n\)", text, re.S):
        body = m.group(1)
        if re.search(r'name\s*=\s*"%s"' % re.escape(name), body):
            d = re.search(r"build_setting_default\s*=\s*([^,\n]+),", body)
            if d:
                return eval(d.group(1), {})
    raise RuntimeError("no build setting %s:%s" % (pkg, name))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def mangle_parts(repo):
    bzl = starlark(repo + "/mbo/hash/hash.bzl")
    seedgen = starlark(repo + "/mbo/hash/internal/hash_mangle_seed.bzl", hash=bzl["hash"])
    module = re.sub(r"#.*", "", open(repo + "/MODULE.bazel").read())
    version = re.search(r'module\([^)]*version\s*=\s*"([^"]*)"', module, re.S).group(1)
    return bzl, seedgen, version, build_setting(repo, "mbo/hash", "mangle_seed"), build_setting(repo, "mbo/hash", "mangle_seed_buckets")


def generate(repo, out, unroll=None, throws=None):
    text = open(repo + "/mbo/config/internal/config.h.in").read()
    if unroll is None:
        unroll = build_setting(repo, "mbo/config", "limited_ordered_max_unroll_capacity")
    if throws is None:
        throws = build_setting(repo, "mbo/config", "require_throws")
    text = text.replace("kRequireThrows = false;", "kRequireThrows = %s;" % str(bool(throws)).lower())
    text = text.replace("kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = %d;" % unroll)
    write(out + "/mbo/config/config_gen.h", text)
    bzl, seedgen, version, seed, buckets = mangle_parts(repo)
    c = seedgen["mangle_constant"](version, seed, buckets)
    write(out + "/mbo/hash/hash_mangle_seed_gen.h", seedgen["_HEADER"].replace("@MANGLE_CONSTANT@", "0x%XULL" % c))
