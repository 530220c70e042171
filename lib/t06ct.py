"""T06: generated programs over random predicates, case lists, variants and struct shapes."""
import random
import time
from lib.ctlib import run_programs

PRE = r"""#include "mbo/types/cases.h"
#include "mbo/types/template_search.h"
#include "mbo/types/traits.h"
#include "mbo/types/tuple.h"
#include "mbo/types/tuple_extras.h"
#include "mbo/types/variant.h"
#include <array>
#include <complex>
#include <cstdio>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
static int bad = 0;
static void Chk(bool ok, int i, const char* what) { if (!ok) { ++bad; std::printf("MISMATCH %d %s\n", i, what); } }
template<int> struct Tag {};
template<int> struct E0 {};            // empty struct (base or field)
struct Agg2 { int x; std::string y; };
struct Agg1 { int x; };
struct NonAgg { explicit NonAgg(int v) : v(v) {} int v; bool operator==(const NonAgg&) const = default; };
struct NoMove { NoMove() = default; NoMove(int v) : v(v) {} NoMove(const NoMove&) = delete; int v = 0; };
enum class Enum { kA, kB };
union Uni { int i; float f; };
template<typename T> static bool AddrEq(const T& a, const void* b) { return static_cast<const void*>(std::addressof(a)) == b; }
"""
# type -> value expression
SIMPLE = [("int", "%d"), ("unsigned char", "%d"), ("bool", "%d != 3"), ("double", "%d.5"), ("long long", "%dLL"), ("const char*", '"p%d"'),
          ("Enum", "Enum(%d %% 2)"), ("int*", "(int*)nullptr + %d")]
RICH = [("std::string", 'std::string("a fairly long string to defeat the small buffer %d")'), ("std::string_view", '"sv%d"'),
        ("std::unique_ptr<int>", "std::make_unique<int>(%d)"), ("std::vector<int>", "std::vector<int>{%d, 2}"),
        ("std::optional<int>", "std::optional<int>(%d)"), ("std::map<int, int>", "std::map<int, int>{{%d, 1}}"),
        ("std::pair<int, std::string>", 'std::pair<int, std::string>(%d, "s")'), ("std::tuple<int, std::string>", 'std::tuple<int, std::string>(%d, "t")'),
        ("NonAgg", "NonAgg(%d)"), ("std::complex<double>", "std::complex<double>(%d, 1)"), ("std::shared_ptr<int>", "std::make_shared<int>(%d)")]
AGG = [("Agg1", "Agg1{%d}"), ("Agg2", 'Agg2{%d, "agg two with a long enough string"}')]
ARR = [("std::array<int, 3>", "std::array<int, 3>{%d, 1, 2}")]
VAR = [("std::variant<int, std::string>", "std::variant<int, std::string>(%d)")]
UNI = [("Uni", "Uni{%d}")]
EMP = [("E0<7>", "E0<7>{} /* %d */")]


SIZE = {"int": 4, "unsigned char": 1, "bool": 1, "Enum": 4, "Agg1": 4, "E0<7>": 1, "Uni": 4, "std::string": 32, "Agg2": 40, "std::map<int, int>": 48,
        "std::vector<int>": 24, "std::pair<int, std::string>": 40, "std::tuple<int, std::string>": 40, "std::variant<int, std::string>": 40, "NonAgg": 4}


def make_struct(rng, gcc=False):
    """gcc counts initialisers by recursing over 8 * sizeof(T) template instantiations: small structs only."""
    while True:
        if gcc or rng.random() < 0.3:
            c = make_struct_any(rng)
        else:  # every supported number of fields comes up
            CYCLE[0] = CYCLE[0] % 40 + 1
            c = make_struct_any(rng, CYCLE[0])
        if gcc and c[1] in ("base_only", "base_and_fields", "two_bases"):  # see known finding gcc_base_with_fields
            c = c[:3] + (c[3][:1],)
        if gcc and c[1] == "empty_bases" and any(t == "NonAgg" for t, _ in c[3]):  # gcc_empty_base_then_no_default_ctor
            continue
        if not gcc or sum(SIZE.get(t, 16) for t, _ in c[3]) <= (48 if rng.random() < 0.9 else 96):
            return c


CYCLE = [0]


def make_struct_any(rng, n=0):
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, rng.randrange(1, 20), rng.randrange(20, 41)])
    if n > 12 and rng.random() < 0.6:
        pool = SIMPLE
    else:
        pool = SIMPLE + RICH
        if rng.random() < 0.3: pool = pool + AGG * 3
        if rng.random() < 0.3: pool = pool + VAR * 3
        if rng.random() < 0.2: pool = pool + EMP * 2
        if rng.random() < 0.2: pool = pool + UNI * 2
    fields = [rng.choice(pool) for _ in range(n)]
    kind = rng.choice(["plain"] * 6 + ["empty_bases"] * 3 + ["base_only", "base_and_fields", "two_bases", "nonagg", "empty"])
    nb = rng.randrange(1, 4) if kind == "empty_bases" else 0
    if kind in ("base_only", "base_and_fields", "two_bases"):
        fields = fields[:6]
    return ("struct", kind, nb, [(t, e % rng.randrange(100)) for t, e in fields])


QUERY = ["int", "char", "std::string", "double", "Agg1", "Tag<1>", "Tag<2>", "const int", "int*", "std::monostate", "long", "int&", "void"]


def make_cases(rng, n, gcc=False):
    out = []
    for i in range(n):
        k = rng.randrange(10)
        if k < 4:
            out.append(make_struct(rng, gcc))
        elif k < 6:
            bits = rng.getrandbits(25) if rng.random() < 0.5 else (~rng.getrandbits(25) | rng.getrandbits(25)) & ((1 << 25) - 1)
            rs = []
            for _ in range(16):
                m = rng.randrange(0, 24) if rng.random() < 0.3 else rng.randrange(0, 9)
                s = rng.randrange(0, m + 1); e = rng.randrange(0, m + 1) if rng.random() < 0.15 else rng.randrange(s, m + 1)
                rs.append((s, e, rng.randrange(0, 26) if rng.random() < 0.3 else rng.randrange(0, 10), rng.choice([None, None, 999, 0, 3])))
            out.append(("search", bits, rs))
        elif k < 8:
            m = rng.randrange(1, 9)
            conds = [rng.random() < 0.3 for _ in range(m)]
            out.append(("cases", conds, rng.random() < 0.5, rng.randrange(m + 1) if rng.random() < 0.2 else None))
        else:
            ts = [rng.choice(["int", "char", "std::string", "double", "Agg1", "Tag<1>", "Tag<2>", "const int", "int*", "std::monostate"]) for _ in range(rng.randrange(1, 7))]
            out.append(("variant", ts, rng.choice(QUERY)))
    return out


def gen(rng, cases, ct=True):
    out = [PRE]
    calls = []
    for i, c in enumerate(cases):
        out.append("namespace case%d { // CASE %d" % (i, i))
        body = []
        def chk(cond, what):
            if ct:
                body.append("  { static constexpr bool ok = (%s); Chk(ok, %d, \"%s\"); } // CASE %d" % (cond, i, what.replace('"', "'"), i))
            else:
                body.append("  { (void)(%s); }" % cond)
        if c[0] == "search":
            _, bits, rs = c
            out.append("template<std::size_t I> struct P : std::bool_constant<((I < 64 ? %dULL >> (I %% 64) : 0) & 1) != 0> {};" % bits)
            for cut in {r[2] for r in rs}:
                out.append("template<std::size_t I> struct M%d : std::bool_constant<(I < %d)> {};" % (cut, cut))
            for s, e, cut, nf in rs:
                rg = range(s, e)
                true = [j for j in rg if (bits >> j) & 1]
                NF = e if nf is None else nf
                sfx = "" if nf is None else ", %d" % nf
                lin = true[0] if true else NF
                rev = true[-1] if true else NF
                mx = NF
                for j in rg:
                    if not (bits >> j) & 1: break
                    mx = j
                mono = [j for j in rg if j < cut]
                bs = mono[-1] if mono else NF
                M = "M%d" % cut
                for nm, p, v in [("LinearSearch", "P", lin), ("ReverseSearch", "P", rev), ("MaxSearch", "P", mx), ("BinarySearch", M, bs), ("LinearSearch", M, mono[0] if mono else NF),
                                 ("ReverseSearch", M, bs), ("MaxSearch", M, bs)]:
                    w = "%s<%s,%d,%d%s>" % (nm, p, s, e, sfx)
                    chk("mbo::types::%sV<%s, %d, %d%s> == %d" % (nm, p, s, e, sfx, v), w)
                    chk("mbo::types::%s<%s, %d, %d%s>::value == %d" % (nm, p, s, e, sfx, v), w + "::value")
        elif c[0] == "cases":
            _, conds, has_else, els = c
            items = ["mbo::types::IfThen<%s, Tag<%d>>" % ("true" if b else "false", j) for j, b in enumerate(conds)]
            want = next(("Tag<%d>" % j for j, b in enumerate(conds) if b), None)
            if els is not None:
                items.insert(els, "mbo::types::IfFalseThenVoid")
            if has_else:
                items.append("mbo::types::IfElse<Tag<100>>")
            want = want or ("Tag<100>" if has_else else "void")
            chk("std::is_same_v<mbo::types::Cases<%s>, %s>" % (", ".join(items), want), "Cases")
            idx = next((j + 1 for j, b in enumerate(conds) if b), 0)
            chk("mbo::types::CaseIndex<%s> == %d" % (", ".join("true" if b else "false" for b in conds), idx), "CaseIndex")
        elif c[0] == "variant":
            _, ts, q = c
            for w in QUERY:
                chk("mbo::types::IsVariantMemberType<std::variant<%s>, %s> == %s" % (", ".join(ts), w, "true" if w in ts else "false"), "IsVariantMemberType")
            chk("mbo::types::IsVariant<std::variant<%s>> && !mbo::types::IsVariant<std::tuple<%s>>" % (", ".join(ts), ", ".join(ts)), "IsVariant")
            chk("mbo::types::IsTuple<std::tuple<%s>> && !mbo::types::IsTuple<std::variant<%s>>" % (", ".join(ts), ", ".join(ts)), "IsTuple")
            h = len(ts) // 2
            chk("std::is_same_v<mbo::types::TupleCat<std::tuple<%s>, std::tuple<%s>>, std::tuple<%s>>" % (", ".join(ts[:h]), ", ".join(ts[h:]), ", ".join(ts)), "TupleCat")
            if q != "void":
                chk("std::is_same_v<mbo::types::TupleAdd<std::tuple<%s>, %s>, std::tuple<%s>>" % (", ".join(ts), q, ", ".join(ts + [q])), "TupleAdd")
        else:
            gen_struct(out, body, chk, i, c)
        out.append("static void Run() {\n%s\n}\n}" % "\n".join(body))
        calls.append("  case%d::Run();" % i)
    out.append("int main() {\n%s\n  std::printf(\"DONE\\n\"); return bad ? 1 : 0;\n}" % "\n".join(calls))
    return "\n".join(out)


def gen_struct(out, body, chk, i, c):
    _, kind, nb, fields = c
    n = len(fields)
    decl = " ".join("%s f%d;" % (t, j) for j, (t, _) in enumerate(fields))
    vals = ", ".join(e for _, e in fields)
    if kind == "nonagg":
        out.append("struct S { %s private: int hidden_ = 0; };" % decl)
        chk("!mbo::types::CanCreateTuple<S> && !mbo::types::IsDecomposable<S>", "not decomposable: private member")
        return
    if kind == "empty":
        out.append("struct S {};")
        chk("mbo::types::CanCreateTuple<S> && std::is_same_v<decltype(mbo::types::StructToTuple(std::declval<S&>())), std::tuple<>>", "empty")
        return
    if kind == "base_and_fields":
        out.append("struct B { %s }; struct S : B { int own; };" % decl)
        chk("!mbo::types::CanCreateTuple<S> && !mbo::types::IsDecomposable<S>", "not decomposable: base and own fields")
        return
    if kind == "two_bases":
        out.append("struct B { %s }; struct C { int c; }; struct S : B, C {};" % decl)
        chk("!mbo::types::CanCreateTuple<S> && !mbo::types::IsDecomposable<S>", "not decomposable: two bases with fields")
        return
    if kind == "base_only":
        out.append("struct B { %s }; struct S : B {};" % decl)
        init = "S{{%s}}" % vals
    elif kind == "empty_bases":
        out.append("struct S : %s { %s };" % (", ".join("E0<%d>" % j for j in range(nb)), decl))
        init = "S{%s%s}" % ("{}, " * nb, vals)
    else:
        out.append("struct S { %s };" % decl)
        init = "S{%s}" % vals
    chk("mbo::types::CanCreateTuple<S>", "CanCreateTuple")
    chk("mbo::types::IsDecomposable<S>", "IsDecomposable")
    chk("mbo::types::DecomposeCountV<S> == %d" % n, "DecomposeCountV")
    ts = [t for t, _ in fields]
    chk("std::is_same_v<decltype(mbo::types::StructToTuple(std::declval<S&>())), std::tuple<%s>>" % ", ".join(t + "&" for t in ts), "lvalue tuple type")
    chk("std::is_same_v<decltype(mbo::types::StructToTuple(std::declval<const S&>())), std::tuple<%s>>" % ", ".join((t if t.endswith("*") else "const " + t) + (" const&" if t.endswith("*") else "&") for t in ts), "const lvalue tuple type")
    chk("std::is_same_v<decltype(mbo::types::StructToTuple(std::declval<S>())), std::tuple<%s>>" % ", ".join(ts), "rvalue tuple type")
    chk("mbo::types::HasUnionMember<S> == %s" % ("true" if "Uni" in ts else "false"), "HasUnionMember")
    chk("mbo::types::HasVariantMember<S> == %s" % ("true" if any(t.startswith("std::variant") for t in ts) else "false"), "HasVariantMember")
    body.append("  S s = %s; const S& cs = s;" % init)
    body.append("  { auto t = mbo::types::StructToTuple(s); %s }" % " ".join('Chk(AddrEq(std::get<%d>(t), std::addressof(s.f%d)), %d, "lvalue field %d");' % (j, j, i, j) for j in range(n)))
    body.append("  { auto t = mbo::types::StructToTuple(cs); %s }" % " ".join('Chk(AddrEq(std::get<%d>(t), std::addressof(s.f%d)), %d, "const field %d");' % (j, j, i, j) for j in range(n)))
    mv = []
    for j, (t, e) in enumerate(fields):
        g = "std::get<%d>(t)" % j
        if t.startswith("std::unique_ptr"): cond = "%s != nullptr && *%s == *(%s) && s.f%d == nullptr" % (g, g, e, j)
        elif t.startswith("std::shared_ptr"): cond = "%s != nullptr && *%s == *(%s) && s.f%d == nullptr" % (g, g, e, j)
        elif t == "Agg1": cond = "%s.x == (%s).x" % (g, e)
        elif t == "Agg2": cond = "%s.x == (%s).x && %s.y == (%s).y" % (g, e, g, e)
        elif t == "Uni": cond = "%s.i == (%s).i" % (g, e)
        elif t.startswith("E0"): cond = "true"
        elif t == "const char*": cond = "std::string(%s) == %s" % (g, e)
        else: cond = "%s == (%s)" % (g, e)
        mv.append('Chk(%s, %d, "moved field %d");' % (cond, i, j))
    body.append("  { auto t = mbo::types::StructToTuple(std::move(s)); %s }" % " ".join(mv))


def show(c):
    return repr(c)[:400]


def run(r):
    t0 = time.time()
    rng = random.Random(r.seed * 7919 + 6)
    per, progs = (30, 32) if r.tier == "quick" else (60, 96)
    turn = [0]
    CYCLE[0] = rng.randrange(40)

    def mk(rng, n):  # run_programs alternates clang (even) and gcc (odd)
        turn[0] += 1
        return make_cases(rng, n, gcc=turn[0] % 2 == 0)

    return run_programs(r, rng, per, progs, t0, mk, gen,
                        "generated translation units (gcc and clang alternating) of %d random predicates/ranges, case lists, variants/tuples and struct shapes each; non-trivial: anything but an empty range, a single case or a one-field struct" % per,
                        show=show,
                        nontrivial=lambda c: not (c[0] == "search" and all(r[0] >= r[1] for r in c[2])) and not (c[0] == "cases" and len(c[1]) == 1) and not (c[0] == "struct" and len(c[3]) < 2),
                        label=lambda c: c[0] + (":" + c[1] if c[0] == "struct" else ""))
