"""H03: hash.bzl (executed as the Starlark/Python intersection it is) against the C++ functions."""
import ctypes
import os
import pyrt
from pyrt import prop
from hypothesis import strategies as st
from lib import gen_headers

M64 = (1 << 64) - 1
lib = ctypes.CDLL(os.environ["VERIF_SO_h03"])
for a in ("dumbo", "fnv1a", "mumbo"):
    f = getattr(lib, "h_" + a)
    f.restype, f.argtypes = ctypes.c_uint64, [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint64]
    f = getattr(lib, "hd_" + a)
    f.restype, f.argtypes = ctypes.c_uint64, [ctypes.c_char_p, ctypes.c_size_t]
lib.h_mangle.restype = ctypes.c_uint64
bzl, seedgen, VERSION, SEED, BUCKETS = gen_headers.mangle_parts(pyrt.repo())
HASH = bzl["hash"]
mangle = seedgen["mangle_constant"]
BASE, SPREAD = 0x45828334C99AF44F, 0x9E3779B97F4A7C15

LEN = st.one_of(st.integers(0, 20), st.integers(0, 140), st.sampled_from([7, 8, 9, 15, 16, 17, 32, 33, 112, 127, 128, 129, 143, 144, 145, 255, 256, 257, 384, 400]))
SEEDS = st.one_of(st.integers(0, 3), st.integers(0, M64), st.integers(0, 63).map(lambda i: 1 << i), st.just(M64), st.just(5381))


@st.composite
def byte_list(draw):
    n = draw(LEN)
    return draw(st.one_of(st.binary(min_size=n, max_size=n), st.integers(0, 255).map(lambda b: bytes([b]) * n),
                          st.integers(0, 1 << 30).map(lambda r: bytes((r * (i + 7) * 2654435761 >> 13) & 255 for i in range(n)))))


PRINTABLE = st.text(alphabet=[chr(i) for i in range(32, 127)], max_size=60)


@prop(24000, 300000, "algorithm x byte list of length 0..400 biased to the 8/16/128 byte block borders x 64-bit seed (or the default seed); non-trivial: at least one byte")
def port_equals_cpp(c):
    a = c.draw(st.sampled_from(["dumbo", "fnv1a", "mumbo"]))
    b = c.draw(byte_list())
    seed = c.draw(st.one_of(st.none(), SEEDS))
    c.case((a, b, seed))
    if b:
        c.nontrivial()
    c.label(a)
    data = list(b)
    if seed is None:
        c.eq(getattr(HASH, a)(data), getattr(lib, "hd_" + a)(b, len(b)), "default seed %s" % a)
    else:
        c.eq(getattr(HASH, a)(data, seed), getattr(lib, "h_" + a)(b, len(b), seed), "%s seed %#x" % (a, seed))
    c.eq(data, list(b), "input list unchanged")


@prop(12000, 100000, "printable ASCII strings of up to 60 characters, sometimes with one unprintable character inserted; non-trivial: at least one character")
def strings(c):
    a = c.draw(st.sampled_from(["dumbo", "fnv1a", "mumbo"]))
    s = c.draw(PRINTABLE)
    bad = c.draw(st.one_of(st.none(), st.none(), st.sampled_from([chr(i) for i in list(range(32)) + [127, 128, 255, 0x20AC]])))
    if bad is not None:
        k = c.draw(st.integers(0, len(s)))
        s = s[:k] + bad + s[k:]
    c.case((a, s))
    if s:
        c.nontrivial()
    if bad is not None:
        c.label("unprintable")
        try:
            r = getattr(HASH, a)(s)
        except bzl["Fail"]:
            return
        c.check(False, "unprintable character %r accepted (%r)" % (bad, r))
    e = s.encode("ascii")
    c.eq(getattr(HASH, a)(s), getattr(lib, "hd_" + a)(e, len(e)), "string %s" % a)


def want(version, seed, buckets):
    if buckets == 0:
        return 0
    e = (version + "|" + seed).encode()
    return BASE ^ ((lib.h_dumbo(e, len(e), 0) % buckets * SPREAD) & M64)


VERS = st.one_of(st.sampled_from(["", "0.13.0", "0.13.1", "1.0.0"]), st.from_regex(r"\A[0-9]{1,2}\.[0-9]{1,3}\.[0-9]{1,3}\Z"), PRINTABLE)


@prop(12000, 100000, "version x seed string x bucket count (0, 1, small, up to 2^40, negative); non-trivial: at least 2 buckets")
def mangle_constant(c):
    v, s = c.draw(VERS), c.draw(PRINTABLE)
    n = c.draw(st.one_of(st.integers(0, 2), st.integers(0, 64), st.integers(2, 1 << 40), st.integers(-5, -1)))
    c.case((v, s, n))
    if n > 1:
        c.nontrivial()
    if n < 0:
        try:
            r = mangle(v, s, n)
        except seedgen["Fail"]:
            return
        c.check(False, "negative bucket count accepted (%r)" % r)
    got = mangle(v, s, n)
    c.eq(got, want(v, s, n), "mangle_constant")
    c.eq(mangle(v, s, n), got, "repeat")
    if n == 1:
        c.eq(got, BASE, "one bucket pins the constant")
    if n > 0:
        c.check(0 < got <= M64, "non-zero 64-bit constant")


@prop(800, 8000, "for one bucket count 2..12, 150 version/seed pairs: at most that many distinct non-zero constants; non-trivial: at least 2 distinct constants")
def bucket_count(c):
    n = c.draw(st.integers(2, 12))
    k = c.draw(st.integers(0, 1 << 20))
    c.case((n, k))
    got = {mangle("%d.%d.0" % (k % 7, i % 13), "s%d-%d" % (k, i), n) for i in range(150)}
    if len(got) > 1:
        c.nontrivial()
    c.check(0 not in got and len(got) <= n, "%d buckets gave %r" % (n, sorted(got)))


@prop(8, 8, "the build's generated header against the port over the module version and default flags; always non-trivial")
def generated_header(c):
    c.case((VERSION, SEED, BUCKETS))
    c.nontrivial()
    c.eq(lib.h_mangle(), want(VERSION, SEED, BUCKETS), "kMangleConstant")
