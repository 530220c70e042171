"""T05 compile-time half: generated programs over random compile-time strings."""
import random
import time
from lib.ctlib import lit, run_programs

PRE = r"""#include "mbo/types/tstring.h"
#include <cstdio>
#include <functional>
#include <string>
#include <string_view>
using namespace mbo::types;
using mbo::types::operator""_ts;
static int bad = 0;
template<typename A, typename B> static void Eq(const A& a, const B& b, int i, const char* what) { if (!(a == b)) { ++bad; std::printf("MISMATCH %d %s\n", i, what); } }
static int Sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static std::string_view Sub(std::string_view s, std::size_t p, std::size_t n) { return p >= s.size() ? std::string_view() : s.substr(p, n); }
namespace mbo::types {
"""
# (constant expression, run-time reference)
OPS = [
    ("A::size()", "a.size()"), ("A::length()", "a.size()"), ("A::empty()", "a.empty()"),
    ("A::find(B{})", "a.find(b)"), ("A::rfind(B{})", "a.rfind(b)"), ("A::contains(B{})", "a.find(b) != a.npos"),
    ("A::starts_with(B{})", "a.starts_with(b)"), ("A::ends_with(B{})", "a.ends_with(b)"),
    ("(A{} == B{})", "a == b"), ("(A{} != B{})", "a != b"), ("(A{} < B{})", "a < b"), ("(A{} <= B{})", "a <= b"),
    ("(A{} > B{})", "a > b"), ("(A{} >= B{})", "a >= b"), ("A::is(B{})", "a == b"), ("std::is_same_v<A, B>", "a == b"),
    ("(A{} + B{}).str()", "ab"), ("(A{} + B{}).size()", "ab.size()"), ("std::is_same_v<decltype(A{} + B{}), C>", "true"),
    ("(A::template substr<P, N>()).str()", "Sub(a, P, N)"), ("(A::template substr<P>()).str()", "Sub(a, P, a.npos)"), ("(A::template substr<>()).str()", "a"),
    ("A::substr(P, N)", "Sub(a, P, N)"), ("A::substr(P)", "Sub(a, P, a.npos)"),
    ("A::find_first_of(b, P)", "a.find_first_of(b, P)"), ("A::find_last_of(b, P)", "a.find_last_of(b, P)"),
    ("A::find_first_of(b)", "a.find_first_of(b)"), ("A::find_last_of(b)", "a.find_last_of(b)"),
    ("A::find_first_of(X, P)", "a.find_first_of(X, P)"), ("A::find_last_of(X, P)", "a.find_last_of(X, P)"),
    ("A::find_first_of(X)", "a.find_first_of(X)"), ("A::find_last_of(X)", "a.find_last_of(X)"),
    ("Sgn3(A::compare(b))", "Sgn3(a.compare(b))"), ("A::str()", "a"), ("std::string_view(A{})", "a"),
    ("(A{} == b)", "a == b"), ("(A{} < b)", "a < b"), ("(b < A{})", "b < a"),
    ("std::is_same_v<M, A>", "true"), ("A::StringHash()", "mbo::hash::GetHash64(a)"), ("(A::Hash() == B::Hash())", "a == b"),
]


def gen(rng, cases, ct=True):
    out = [PRE, "static constexpr int Sgn3(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }"]
    calls = []
    for i, (a, b, p, n, x) in enumerate(cases):
        out.append("static void Case%d() {" % i)
        out.append("  using A = decltype(%s_ts); using B = decltype(%s_ts); using C = decltype(%s_ts); using M = decltype(MBO_MAKE_TSTRING(%s));" % (lit(a), lit(b), lit(a + b), lit(a)))
        out.append("  static constexpr std::string_view b{%s, %d};" % (lit(b), len(b)))
        out.append("  [[maybe_unused]] constexpr std::size_t P = %s, N = %s; constexpr char X = char(%d);" % (p, n, x))
        out.append("  const std::string ra(%s, %d), rb(%s, %d), rab = ra + rb; std::string_view a = ra, ab = rab;" % (lit(a), len(a), lit(b), len(b)))
        for k, (e, ref) in enumerate(OPS):
            if ct:
                out.append("  { static constexpr auto c = %s; Eq(c, %s, %d, \"%s\"); } // CASE %d" % (e, ref, i, e.replace('"', "'"), i))
            else:
                out.append("  { auto c = %s; (void)c; (void)(%s); }" % (e, ref))
        out.append("  Eq(std::string(A::c_str()), ra.c_str(), %d, \"c_str\"); Eq(std::string(A::begin(), A::end()), ra, %d, \"iteration\"); Eq(std::string(A::rbegin(), A::rend()), std::string(ra.rbegin(), ra.rend()), %d, \"reverse\");" % (i, i, i))
        if a:
            out.append("  Eq(A::front(), ra.front(), %d, \"front\"); Eq(A::back(), ra.back(), %d, \"back\");" % (i, i))
        if 0 not in a:
            out.append("  static constexpr char kLit[] = %s; Eq(std::is_same_v<decltype(make_tstring<kLit>()), A>, true, %d, \"make_tstring\");" % (lit(a), i))
        out.append("}")
        calls.append("  mbo::types::Case%d();" % i)
    out.append("}\nint main() {\n%s\n  std::printf(\"DONE\\n\"); return bad ? 1 : 0;\n}" % "\n".join(calls))
    return "\n".join(out)


def make_cases(rng, n):
    cases = []
    for i in range(n):
        alpha = rng.choice([b"ab", b"ab", b"abc", b"a", bytes([0, 97, 255]), bytes([0, 65, 127, 128, 255, 34, 92, 10])])
        s = lambda m: bytes(rng.choice(alpha) for _ in range(rng.randrange(m + 1)))
        a = s(9)
        k = rng.randrange(7)
        if k == 0: b = s(4)
        elif k == 1: b = a[:rng.randrange(len(a) + 1)]
        elif k == 2: b = a[rng.randrange(len(a) + 1):]
        elif k == 3:
            lo = rng.randrange(len(a) + 1); b = a[lo:lo + rng.randrange(4)]
        elif k == 4: b = a
        elif k == 5: b = a + s(2)
        else: b = (a[1:] + s(1)) if a else s(2)
        p = rng.choice([str(rng.randrange(len(a) + 3)), "std::string_view::npos", "std::string_view::npos - 1"]) if rng.random() < 0.3 else str(rng.randrange(len(a) + 2))
        nn = "std::string_view::npos" if rng.random() < 0.2 else "std::string_view::npos - 2" if rng.random() < 0.1 else str(rng.randrange(len(a) + 3))
        x = rng.choice(a) if a and rng.random() < 0.8 else rng.randrange(256)
        cases.append((a, b, p, nn, x))
    return cases


def run(r):
    t0 = time.time()
    rng = random.Random(r.seed * 104729 + 5)
    per, progs = (25, 8) if r.tier == "quick" else (60, 48)
    return run_programs(r, rng, per, progs, t0, make_cases, gen,
                        "generated translation units (gcc and clang alternating) of %d string pairs each, every operation evaluated by the compiler and compared with std::string_view; non-trivial: both strings non-empty" % per,
                        show=lambda c: "a=%r b=%r pos=%s count=%s char=%d" % c, nontrivial=lambda c: c[0] and c[1],
                        label=lambda c: "b within a" if c[1] in c[0] else "b not within a")
