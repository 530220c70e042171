"""H05 (and D01) compile-time half: generated programs whose constants are
evaluated by the compiler and compared with the run-time values."""
import random
import time
from lib.ctlib import lit, run_programs

ALGOS = {
    "mumbo64": ("u", "mbo::hash::mumbo::GetHash64(D, S)"), "mumbo128": ("h", "mbo::hash::mumbo::GetHash128(D, S)"),
    "jumbo128": ("h", "mbo::hash::jumbo::Algorithm::GetHash128(D, S)"), "dumbo": ("u", "mbo::hash::dumbo::GetHash64(D, S)"),
    "fambo": ("u", "mbo::hash::fambo::GetHash64(D, S)"), "fnv1a": ("u", "mbo::hash::fnv1a::GetHash64(D, S)"),
    "murmur3": ("h", "mbo::hash::murmur3::GetHash128(D, S)"), "siphash": ("u", "mbo::hash::siphash::GetHash64(D, S, ~S)"),
    "sip13": ("u", "mbo::hash::siphash::GetHash64Sip13(D, S, S)"), "rapidhash": ("u", "mbo::hash::rapidhash::GetHash64(D, S)"),
    "xxh64": ("u", "mbo::hash::xxh64::GetHash64(D, S)"), "xxh3_64": ("u", "mbo::hash::xxh3::GetHash64(D, S)"),
    "xxh3_128": ("h", "mbo::hash::xxh3::GetHash128(D, S)"), "tembo4_4": ("u", "(mbo::hash::tembo::GetHash64<4, 4, false>(D, S))"),
    "tembo9_11i": ("u", "(mbo::hash::tembo::GetHash64<9, 11, true>(D, S))"), "hash32": ("u", "mbo::hash::GetHash32(D, S)"),
    "synth128": ("h", "mbo::hash::GetHash128<mbo::hash::dumbo::Algorithm>(D, S)"), "mangled": ("u", "mbo::hash::GetHash(D) ^ S"),
    "stream_mumbo": ("u", "StreamT<mbo::hash::mumbo::Algorithm>(D, S)"), "stream_sip": ("u", "StreamT<mbo::hash::siphash::Algorithm>(D, S)"),
    "stream_xxh64": ("u", "StreamT<mbo::hash::xxh64::Algorithm>(D, S)"),
}
PRE = """#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_mangle.h"
#include <cstdio>
#include <cstring>
#include <string>
using mbo::hash::Hash128;
template<typename A> constexpr uint64_t StreamT(std::string_view d, uint64_t s) {
  mbo::hash::Streamer<A> st(s);
  std::size_t third = d.size() / 3;
  st.Update(d.substr(0, third)); st.Update(d.substr(third, third)); st.Update(d.substr(2 * third));
  return st.Finalize();
}
static bool Eq(uint64_t a, uint64_t b) { return a == b; }
static bool Eq(Hash128 a, Hash128 b) { return a.h1 == b.h1 && a.h2 == b.h2; }
static int bad = 0;
// the run-time copies live in heap memory the compiler cannot see through
static std::string_view Opaque(std::string_view v) {
  char* p = new char[v.size() + 1]; volatile char* q = p;
  for (std::size_t i = 0; i < v.size(); ++i) q[i] = v[i];
  return {p, v.size()};
}
"""
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 96, 97, 112, 113, 127, 128, 129, 144, 160, 192, 224, 225, 240, 241, 256, 257, 300, 384, 512, 600, 1024, 1025, 1100]


def gen(rng, cases, ct=True):
    out = [PRE]
    body = []
    for i, (name, data, seed) in enumerate(cases):
        kind, expr = ALGOS[name]
        typ = "uint64_t" if kind == "u" else "Hash128"
        out.append("static constexpr std::string_view d%d{%s, %d};" % (i, lit(data), len(data)))
        e = expr.replace("D", "@D@").replace("S)", "@S@)").replace("S,", "@S@,").replace("^ S", "^ @S@").replace("~S", "~@S@")
        if ct:
            out.append("static constexpr %s c%d = %s; // CASE %d" % (typ, i, e.replace("@D@", "d%d" % i).replace("@S@", "UINT64_C(%d)" % seed), i))
        body.append("  { volatile uint64_t s = UINT64_C(%d); uint64_t sv = s; std::string_view d = Opaque(d%d); auto r = %s; %s }" % (
            seed, i, e.replace("@D@", "d").replace("@S@", "sv"),
            'if (!Eq(r, c%d)) { ++bad; std::printf("MISMATCH %d\\n"); }' % (i, i) if ct else "(void)r;"))
    out.append("int main() {\n%s\n  std::printf(\"DONE\\n\"); return bad ? 1 : 0;\n}" % "\n".join(body))
    return "\n".join(out)


def make_cases(rng, n):
    names = sorted(ALGOS)
    cases = []
    for i in range(n):
        name = names[i % len(names)]
        ln = rng.choice(LENS) if rng.random() < 0.7 else rng.randrange(0, 700)
        kind = rng.randrange(4)
        data = bytes(rng.randrange(256) for _ in range(ln)) if kind else bytes([rng.choice([0, 255, 128])] * ln)
        seed = rng.choice([0, 1, 5381, 2**64 - 1, 2**63, rng.getrandbits(64), rng.getrandbits(64)])
        cases.append((name, data, seed))
    return cases


def run(r):
    t0 = time.time()
    rng = random.Random(r.seed * 7919 + 11)
    per = 160
    progs = 8 if r.tier == "quick" else 64
    return run_programs(r, rng, per, progs, t0, make_cases, gen,
                        "generated translation units (gcc and clang alternating), each with %d constants over random algorithm/length/bytes/seed, compile-time value vs run-time value; non-trivial: at least 1 byte" % per,
                        show=lambda c: "%s len=%d seed=%d" % (c[0], len(c[1]), c[2]), nontrivial=lambda c: len(c[1]) > 0)
