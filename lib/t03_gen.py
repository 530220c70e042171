"""Writes the generated struct zoo for T03 (run through lib/gen_headers-like use: python3 lib/t03_gen.py > checks/t03_structs.inc)."""
KINDS = ["int", "std::string", "double", "bool", "std::optional<int>", "std::vector<int>", "Pair", "Inner", "signed char", "long long"]
out = ["// Generated by lib/t03_gen.py: do not edit."]
def emit(name, ts, base="mbo::types::Extend<%s>"):
    out.append("struct %s : %s {" % (name, base % name))
    for j, t in enumerate(ts):
        out.append("  %s f%d;" % (t, j))
    out.append("  auto Tie() const { return std::tie(%s); }" % ", ".join("f%d" % j for j in range(len(ts))))
    out.append("  using Tup = std::tuple<%s>;" % ", ".join(ts))
    out.append("};")
    out.append("struct Plain%s {" % name)
    for j, t in enumerate(ts):
        out.append("  %s f%d;" % (t, j))
    out.append("  using Tup = std::tuple<%s>;" % ", ".join(ts))
    out.append("};")
for n in range(1, 41):
    g = (n - 1) * 4 // 40
    out.append("#if !defined(T03_PART) || T03_PART == %d" % (n % 4))
    emit("X%d" % n, [KINDS[(n * 7 + j * 3) % len(KINDS)] for j in range(n)])
    out.append("#endif")
for p in range(4):
    out.append("#if !defined(T03_PART) || T03_PART == %d" % p)
    out.append("#define T03_ALL(M) " + " ".join("M(%d)" % n for n in range(1, 41) if n % 4 == p))
    out.append("#endif")
# gcc: small structs only (it counts initialisers by recursing over 8 * sizeof(T) instantiations)
out.append("#if T03_PART == 4")
GCC = [["int"], ["int", "double"], ["bool", "int", "signed char"], ["std::string"], ["std::optional<int>", "int"], ["signed char", "bool", "int", "long long"], ["double", "int", "std::optional<int>"],
       ["std::vector<int>", "int"], ["std::string", "int"], ["int", "int", "int", "int", "int", "int"]]
for k, ts in enumerate(GCC):
    emit("X%d" % (100 + k), ts)
out.append("#define T03_ALL(M) " + " ".join("M(%d)" % (100 + k) for k in range(len(GCC))))
out.append("#endif")
print("\n".join(out))
