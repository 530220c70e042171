"""What each check builds and runs."""
from lib import h05ct, d01ct, t05ct, t06ct
XXH = ["/usr/lib/x86_64-linux-gnu/libxxhash.so.0"]
GCC2 = dict(cxx="gcc", opt="-O2", san=False, shim=False)
CRYPTO = ["-lcrypto", "/usr/lib/llvm-18/lib/libLLVMSupport.a"]
CRYPTO_A = ["OpenSSL 3 (MD5, SHA-1/2/3, SHAKE, BLAKE2b, HMAC), LLVM's BLAKE3 and Python's hashlib compute the standards' values"]
GCCSAN = dict(shim=False, incs=["-I", "/usr/lib/llvm-18/include"])


def lib(*dirs):
    """The library sources of directories of the repository (no tests, tools, benchmarks)."""
    import glob, os, re
    root = os.environ.get("VERIF_REPO", "/repo")
    return sorted(
        os.path.relpath(p, root)
        for d in dirs
        for p in glob.glob(os.path.join(root, d, "*.cc"))
        if not re.search(r"(_test|_main|_benchmark|_fuzz)\.cc$", p)
    )


FILE = ["mbo/file/file.cc", "mbo/file/artefact.cc", "mbo/log/demangle.cc"]
GLOB = ["mbo/file/glob.cc", "mbo/status/status_builder.cc", "mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc"]
DIFF = lib("mbo/diff", "mbo/diff/impl", "mbo/diff/internal", "mbo/strings") + ["mbo/file/file.cc", "mbo/file/artefact.cc", "mbo/log/demangle.cc"]


def unrolled(c):
    """The ordered containers built with other --//mbo/config:limited_ordered_max_unroll_capacity values (4..32)."""
    return [dict(name="%s_u%d_%d" % (c, u, p), srcs=["checks/%s.cc" % c], repo=["mbo/log/demangle.cc"], opt="-O0", gen=dict(unroll=u),
                 flags=["-D%s_PART=%d" % (c.upper(), p)], thorough_only=(u, p) not in ((4, 0), (32, 1)))
            for u in (4, 17, 32) for p in range(4)]


CHECKS = {
    "H01": dict(
        bins=[dict(name="h01", srcs=["checks/h01.cc"], libs=XXH, **GCC2)],
        technique="differential property-based testing against published-algorithm references (libxxhash, plain transcriptions)",
        assumptions=["libxxhash.so.0 computes the canonical XXH64/XXH3 values", "the transcriptions of MurmurHash3, SipHash, FNV-1a and rapidhash V3 in lib/ref_hash.h are the published algorithms"],
    ),
    "H02": dict(
        bins=[dict(name="h02", srcs=["checks/h02.cc"], **GCC2)],
        technique="differential property-based testing against plain reference implementations",
        assumptions=["lib/ref_hash.h transcribes the documented construction (it reproduces every pinned vector)"],
    ),
    "H03": dict(
        so=[dict(name="h03", srcs=["checks/h03_so.cc"], shim=False)],
        bins=[dict(name="h03t", srcs=["checks/h03t.cc"])],
        py=["checks/h03.py"],
        technique="differential property-based testing (Hypothesis) of the build-time port against the C++ functions",
        assumptions=["hash.bzl and hash_mangle_seed.bzl use only constructs whose meaning is the same in Python and Starlark (they are executed as Python)"],
    ),
    "H04": dict(
        bins=[dict(name="h04", srcs=["checks/h04.cc"], shim=False)],
        technique="stateful property-based testing of streaming histories against one-shot hashing",
    ),
    "H05": dict(
        bins=[dict(name="h05", srcs=["checks/h05.cc"], shim=False)],
        ct=[h05ct.run],
        technique="metamorphic property-based testing under sanitizers plus generated compile-time programs",
    ),
    "H06": dict(
        bins=[dict(name="h06", srcs=["checks/h06.cc"], shim=False)],
        technique="algebraic-law property-based testing",
    ),
    "D01": dict(
        bins=[dict(name="d01", srcs=["checks/d01.cc"], libs=CRYPTO, opt="-O2", **GCCSAN),
              dict(name="d01h", srcs=["checks/d01h.cc"], libs=CRYPTO, incs=["-I", "/usr/lib/llvm-18/include"], **GCC2)],
        ct=[d01ct.run],
        technique="differential property-based testing against OpenSSL, LLVM's BLAKE3 and hashlib, plus generated compile-time programs",
        assumptions=CRYPTO_A,
    ),
    "D02": dict(
        bins=[dict(name="d02", srcs=["checks/d02.cc"], libs=CRYPTO, incs=["-I", "/usr/lib/llvm-18/include"], **GCC2)],
        technique="stateful property-based testing of streaming histories against one-shot oracle digests",
        assumptions=CRYPTO_A,
    ),
    "D03": dict(
        bins=[dict(name="d03", srcs=["checks/d03.cc"], libs=CRYPTO, opt="-O2", **GCCSAN)],
        technique="differential property-based testing against OpenSSL, LLVM's BLAKE3 and RFC 7693/RFC 2104 transcriptions",
        assumptions=CRYPTO_A,
    ),
    "D04": dict(
        bins=[dict(name="d04", srcs=["checks/d04.cc"], repo=["mbo/digest/checksum.cc", "mbo/strings/indent.cc"], libs=CRYPTO, opt="-O1", incs=["-I", "/usr/lib/llvm-18/include"])],
        technique="property-based testing of generated checksum lines, directories and lists against a model, and differential testing against coreutils",
        assumptions=CRYPTO_A,
    ),
    "C01": dict(
        bins=[dict(name="c01_%d" % p, srcs=["checks/c01.cc"], repo=["mbo/log/demangle.cc"], flags=["-DC01_PART=%d" % p]) for p in range(3)],
        technique="stateful model-based property testing against std::vector with lifetime-audited elements under sanitizers",
    ),
    "C02": dict(
        bins=[dict(name="c02_%d" % p, srcs=["checks/c02.cc"], repo=["mbo/log/demangle.cc"], opt="-O0", flags=["-DC02_PART=%d" % p]) for p in range(4)]
             + unrolled("c02"),
        technique="stateful model-based property testing against std::set with lifetime-audited keys under sanitizers",
    ),
    "C03": dict(
        bins=[dict(name="c03_%d" % p, srcs=["checks/c03.cc"], repo=["mbo/log/demangle.cc"], opt="-O0", flags=["-DC03_PART=%d" % p]) for p in range(4)]
             + unrolled("c03"),
        technique="stateful model-based property testing against std::map with lifetime-audited keys and values under sanitizers",
    ),
    "C04": dict(
        bins=[dict(name="c04_%d" % p, srcs=["checks/c04.cc"], repo=["mbo/log/demangle.cc"], opt="-O0", flags=["-DC04_PART=%d" % p]) for p in range(4)],
        technique="property-based testing of every scan and conversion against plain iteration of the container, under sanitizers",
    ),
    "C05": dict(
        bins=[dict(name="c05_%s" % n, srcs=["checks/c05.cc"], repo=["mbo/log/demangle.cc", "mbo/types/stringify.cc"], opt="-O0", gen=dict(throws=t), flags=["-DC05_THROWS=%d" % t])
              for n, t in (("abort", False), ("throw", True))],
        technique="stateful model-based property testing of operation histories with violated requirements, in both build configurations, with lifetime-audited elements under sanitizers",
    ),
    "S01": dict(
        bins=[dict(name="s01", srcs=["checks/s01.cc"], repo=["mbo/strings/parse.cc"], fuzz=[("differential", 800000)])],
        technique="differential property-based testing and coverage-guided fuzzing against a reference parser, plus round-trips",
    ),
    "L01": dict(
        bins=[dict(name="l01", srcs=["checks/l01.cc", "shim/shim_flags.cc"], repo=["mbo/log/demangle.cc", "mbo/log/log_timing.cc"])],
        technique="property-based testing of random nested stream programs, checks in child processes, generated mangled names and timing logs against reference output",
    ),
    "F01": dict(
        bins=[dict(name="f01", srcs=["checks/f01.cc", "shim/shim_flags.cc"], repo=DIFF)],
        technique="property-based testing: a strict reader and applier, a reference renderer of all formats and GNU patch decide generated text pairs",
    ),
    "F02": dict(
        bins=[dict(name="f02", srcs=["checks/f02.cc", "shim/shim_flags.cc"], repo=DIFF)],
        technique="property-based testing against a reference line normalisation, and metamorphic relations between diffs with and without an option",
    ),
    "F03": dict(
        bins=[dict(name="f03", srcs=["checks/f03.cc", "shim/shim_flags.cc"], repo=DIFF)],
        technique="property-based testing against a dynamic program for the minimal edit count",
    ),
    "P01": dict(
        bins=[dict(name="p01", srcs=["checks/p01.cc"], repo=FILE)],
        technique="stateful model-based property testing of file histories, a reference model of paths, and injected faults",
    ),
    "P02": dict(
        bins=[dict(name="p02", srcs=["checks/p02.cc"], repo=FILE + GLOB)],
        technique="property-based testing: generated glob syntax trees against a direct matcher, with metamorphic escaping and splitting",
    ),
    "P03": dict(
        bins=[dict(name="p03", srcs=["checks/p03.cc", "shim/shim_flags.cc"], repo=FILE + GLOB)],
        technique="property-based testing of walks over generated directory trees against a model of the tree, the pattern and the callback's answers",
    ),
    "I01": dict(
        bins=[dict(name="i01", srcs=["checks/i01.cc"], repo=FILE + ["mbo/file/ini/ini_file.cc"], fuzz=[("parse", 600000)])],
        technique="stateful model-based property testing of documents, round-trips through files, and differential fuzzing against a separate reader",
    ),
    "M01": dict(
        bins=[dict(name="m01", srcs=["checks/m01.cc", "shim/shim_flags.cc"], repo=FILE + ["mbo/file/ini/ini_file.cc", "mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/strings/parse.cc", "mbo/status/status_builder.cc"], fuzz=[("raw", 300000)])],
        technique="property-based testing of documents generated as trees whose meaning is interpreted over a model of the data, and fuzzing of raw templates",
    ),
    "A01": dict(
        bins=[dict(name="a01", srcs=["checks/a01.cc"], repo=["mbo/status/status_builder.cc"])],
        technique="stateful model-based property testing of builder histories, and generated failures in programs made of the macros",
    ),
    "B01": dict(
        bins=[dict(name="b01", srcs=["checks/b01.cc"], repo=lib("mbo/strings") + ["mbo/status/status_builder.cc", "mbo/log/demangle.cc"], libs=["-lgmock", "-lgtest"])],
        technique="property-based testing of matchers over generated values and inner matchers against the plain conditions they describe",
    ),
    "B02": dict(
        bins=[dict(name="b02", srcs=["checks/b02.cc"], repo=FILE + ["mbo/testing/runfiles_dir.cc"])],
        technique="property-based testing of label and path lookups over generated runfiles trees, repository mappings and manifests against the layout",
        assumptions=["shim/rules_cc/cc/runfiles/runfiles.h behaves as the runfiles library of rules_cc"],
    ),
    "J01": dict(
        bins=[dict(name="j01", srcs=["checks/j01.cc"], repo=["mbo/log/demangle.cc", "mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc"])],
        technique="stateful model-based property testing of operation histories, order laws over related values, and serialised text read back by a strict reader",
    ),
    "S02": dict(
        bins=[dict(name="s02", srcs=["checks/s02.cc"], repo=["mbo/strings/parse.cc", "mbo/strings/strip.cc", "mbo/strings/indent.cc", "mbo/log/demangle.cc"])],
        technique="property-based testing against plain re-implementations, exhaustive for 8 and 16 bit numbers",
    ),
    "Y01": dict(
        py=["checks/y01.py"],
        technique="property-based testing (Hypothesis) of generated Markdown documents of known structure",
    ),
    "Y02": dict(
        py=["checks/y02.py"],
        technique="property-based testing (Hypothesis) of generated sources, LCOV reports, policies and scratch git histories against a reference count",
    ),
    "Y03": dict(
        py=["checks/y03.py"],
        technique="property-based testing (Hypothesis) of generated source trees whose violations are known by construction",
    ),
    "Y04": dict(
        so=[dict(name="y04_diff", exe=True, srcs=["shim/shim_flags.cc"], repo=DIFF + ["mbo/diff/diff_main.cc"]),
            dict(name="y04_digest", exe=True, srcs=["shim/shim_flags.cc"], repo=["mbo/digest/digest_main.cc", "mbo/digest/checksum.cc", "mbo/strings/indent.cc"]),
            dict(name="y04_mope", exe=True, srcs=["shim/shim_flags.cc"], repo=FILE + ["mbo/mope/mope_main.cc", "mbo/file/ini/ini_file.cc", "mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/strings/parse.cc", "mbo/status/status_builder.cc"])],
        py=["checks/y04.py"],
        technique="property-based testing (Hypothesis) of generated rule instances whose scripts and actions are run and judged by direct calls of the tools, hashlib and the data",
        assumptions=["the .bzl files use only constructs whose meaning is the same in Python and Starlark; lib/starlark.py evaluates rules as Bazel does for the attributes, files and actions they use"],
    ),
    "T01": dict(
        bins=[dict(name="t01", srcs=["checks/t01.cc"], shim=False, opt="-O0")],
        technique="property-based testing against exact (113-bit) arithmetic, with transitivity and antisymmetry laws",
    ),
    "T02": dict(
        bins=[dict(name="t02", srcs=["checks/t02.cc"], repo=["mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc", "mbo/log/demangle.cc"], opt="-O0")],
        technique="property-based testing of random aggregate values, modes and options against a reference renderer and a strict JSON parser",
    ),
    "T03": dict(
        bins=[dict(name="t03_%d" % p, srcs=["checks/t03.cc"], repo=["mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc", "mbo/log/demangle.cc"], extra=[], opt="-O0", flags=["-DT03_PART=%d" % p]) for p in range(4)]
        + [dict(name="t03g", srcs=["checks/t03.cc"], repo=["mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc", "mbo/log/demangle.cc"], flags=["-DT03_PART=4", "-ftemplate-depth=2000"], cxx="gcc", san=False, opt="-O1")],
        technique="property-based testing of generated structs of 1 to 40 fields against a field-by-field reference comparison, the tuple of their fields and the stringifier",
    ),
    "T04": dict(
        bins=[dict(name="t04", srcs=["checks/t04.cc"], repo=["mbo/log/demangle.cc"])],
        technique="stateful model-based property testing with lifetime-audited values under sanitizers",
    ),
    "T05": dict(
        bins=[dict(name="t05", srcs=["checks/t05.cc"])],
        ct=[t05ct.run],
        technique="differential property-based testing against std::string_view: generated compile-time programs and random run-time arguments",
    ),
    "T06": dict(
        bins=[dict(name="t06", srcs=["checks/t06.cc"]), dict(name="t06g", srcs=["checks/t06g.cc"], **GCC2)],
        ct=[t06ct.run],
        technique="property-based testing with generated programs: random predicates, ranges, case lists, variants and struct shapes evaluated by both compilers against a reference computed by the generator; random view pipelines at run time",
    ),
}
