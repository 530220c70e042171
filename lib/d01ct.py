"""D01/D03 compile-time half: digests evaluated by the compiler against the
standards' values (hashlib / hmac), and against the run-time value for BLAKE3."""
import hashlib
import hmac
import random
import time
from lib.ctlib import lit, run_programs

H = {"md5": "md5", "sha1": "sha1", "sha224": "sha224", "sha256": "sha256", "sha384": "sha384", "sha512": "sha512",
     "sha512_224": "sha512_224", "sha512_256": "sha512_256", "sha3_224": "sha3_224", "sha3_256": "sha3_256", "sha3_384": "sha3_384", "sha3_512": "sha3_512"}
KINDS = sorted(H) + ["blake2b", "blake2b_256", "blake3", "shake128", "shake256", "hmac_sha256", "hmac_sha512", "kblake2b", "kblake3", "stream_sha256", "stream_blake3", "stream_sha3_256"]


def expr(kind, i):
    d, k = "d%d" % i, "k%d" % i
    if kind in H or kind in ("blake2b", "blake2b_256", "blake3"):
        return "md::%s::Digest(%s)" % (kind, d)
    if kind.startswith("shake"):
        return "md::%s::Digest<48>(%s)" % (kind, d)
    if kind.startswith("hmac_"):
        return "md::Hmac<md::%s::Algorithm>::Digest(%s, %s)" % (kind[5:], k, d)
    if kind == "kblake2b":
        return "md::blake2b::Algorithm::DigestKeyed(%s, %s)" % (k, d)
    if kind == "kblake3":
        return "md::blake3::DigestKeyed(%s, %s)" % (k, d)
    return "StreamT<md::%s::Algorithm>(%s)" % (kind[7:], d)


def want(kind, d, k):
    if kind.startswith("stream_"):
        kind = kind[7:]
    if kind in H:
        return hashlib.new(H[kind], d).digest()
    if kind == "blake2b":
        return hashlib.blake2b(d).digest()
    if kind == "blake2b_256":
        return hashlib.blake2b(d, digest_size=32).digest()
    if kind.startswith("shake"):
        return hashlib.new("shake_" + kind[5:], d).digest(48)
    if kind.startswith("hmac_"):
        return hmac.new(k, d, kind[5:]).digest()
    if kind == "kblake2b":
        return hashlib.blake2b(d, key=k[:64]).digest()
    return None


PRE = """#include "mbo/digest/digest.h"
#include <cstdio>
#include <string_view>
namespace md = mbo::digest;
template<typename A> constexpr auto StreamT(std::string_view d) {
  md::Streamer<A> st; std::size_t t = d.size() / 3;
  st.Update(d.substr(0, t)); st.Update(d.substr(t, t)); st.Update(d.substr(2 * t));
  return st.Finalize();
}
static int bad = 0;
static std::string_view Opaque(std::string_view v) {
  char* p = new char[v.size() + 1]; volatile char* q = p;
  for (std::size_t i = 0; i < v.size(); ++i) q[i] = v[i];
  return {p, v.size()};
}
"""


def gen(rng, cases, ct=True):
    out, body = [PRE], []
    for i, (kind, d, k) in enumerate(cases):
        out.append("static constexpr std::string_view d%d{%s, %d}; static constexpr std::string_view k%d{%s, %d};" % (i, lit(d), len(d), i, lit(k), len(k)))
        e = expr(kind, i)
        if ct:
            out.append("static constexpr auto c%d = %s; // CASE %d" % (i, e, i))
        w = want(kind, d, k)
        t = "  { auto D = Opaque(d%d); auto K = Opaque(k%d); auto r = %s; " % (i, i, e.replace("d%d)" % i, "D)").replace("k%d" % i, "K"))
        if ct:
            t += 'if (r != c%d) { ++bad; std::printf("MISMATCH %d run-time\\n"); } ' % (i, i)
            if w is not None:
                t += 'static const unsigned char w[] = {%s}; if (!std::equal(c%d.begin(), c%d.end(), w, w + sizeof(w))) { ++bad; std::printf("MISMATCH %d standard\\n"); } ' % (
                    ",".join(map(str, w)), i, i, i)
        body.append(t + "}")
    return "\n".join(out).replace("#include <cstdio>", "#include <algorithm>\n#include <cstdio>") + "\nint main() {\n" + "\n".join(body) + '\n  std::printf("DONE\\n"); return bad ? 1 : 0;\n}\n'


def make_cases(rng, n):
    out = []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        block = {"sha512": 128, "sha384": 128, "blake2b": 128, "sha512_224": 128, "sha512_256": 128, "shake128": 168, "shake256": 136, "sha3_256": 136, "sha3_512": 72, "sha3_384": 104, "sha3_224": 144}.get(kind, 64)
        ln = rng.choice([0, 1, 3, block - 1, block, block + 1, block - 8, block - 9, block - 16, block - 17, 2 * block, 2 * block - 9, rng.randrange(300)])
        if "blake3" in kind and rng.random() < 0.3:
            ln = rng.choice([1023, 1024, 1025, 2048, 2049, 3100])
        d = bytes(rng.randrange(256) for _ in range(ln))
        k = bytes(rng.randrange(256) for _ in range(32 if kind == "kblake3" else rng.choice([1, 20, 32, 63, 64] + ([65, 128, 129] if kind.startswith("hmac") else []))))
        out.append((kind, d, k))
    return out


def run(r):
    rng = random.Random(r.seed * 7919 + 13)
    per = 58
    progs = 16 if r.tier == "quick" else 128
    return run_programs(r, rng, per, progs, time.time(), make_cases, gen,
                        "generated translation units (gcc and clang alternating), each with %d digests/MACs evaluated at compile time, compared with hashlib and with the run-time value; non-trivial: at least 1 byte" % per,
                        show=lambda c: "%s len=%d keylen=%d" % (c[0], len(c[1]), len(c[2])), nontrivial=lambda c: len(c[1]) > 0)
