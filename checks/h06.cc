// H06: derived API laws.
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include "hash_common.h"
#include "ref_hash.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_mangle.h"
namespace mh = mbo::hash;
using mh::Hash128;
#define RULE "random data, seed and algorithm; non-trivial: at least 1 byte"

// A 128-bit-only policy type, a 64-bit-only one and one with a native 32 bit form.
struct Only128 { static constexpr Hash128 GetHash128(std::string_view d, uint64_t s) noexcept { return mh::jumbo::GetHash128(d, s); } };
struct Only64 { static constexpr uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { return mh::dumbo::GetDumboHash(d, s); } };
struct With32 {
  static constexpr uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { return mh::dumbo::GetDumboHash(d, s); }
  static constexpr uint32_t GetHash32(std::string_view d, uint64_t s) noexcept { return static_cast<uint32_t>(d.size() * 7 + s); }
};
template<typename T> concept Has64 = mh::HasGetHash64<T>;

template<typename A>
static void Laws(pbt::Src& src, const char* name) {
  size_t n = src.Bool() ? src.Draw(24) : HashLen(src);
  std::string s = src.Blob(n);
  uint64_t seed = src.U64();
  if (n) src.NonTrivial();
  src.Label(name);
  PBT_NOTE(name << " len=" << n << " seed=" << seed << " data=" << pbt::Hex(s.substr(0, 40)));
  using H = mh::Hasher<A>;
  uint64_t h64;
  if constexpr (mh::HasGetHash64<A>) h64 = A::GetHash64(s, seed);
  else { Hash128 h = A::GetHash128(s, seed); h64 = ref::Fmix(h.h1 ^ (h.h2 + 0x9e3779b97f4a7c15ULL)); }
  PBT_EQ(H::GetHash64(s, seed), h64);
  PBT_EQ(mh::GetHash64<A>(s, seed), h64);
  Hash128 h128;
  if constexpr (mh::HasGetHash128<A>) h128 = A::GetHash128(s, seed);
  else {
    size_t skip = n < 8 ? n : 8;
    uint64_t head = ref::Le(s, 0, skip);
    h128 = {A::GetHash64(s, seed), A::GetHash64(std::string_view(s).substr(skip), seed ^ 0x9E3779B97F4A7C15ULL ^ head)};
  }
  PBT_CHECK(H::GetHash128(s, seed) == h128, "Hasher::GetHash128");
  PBT_CHECK(mh::GetHash128<A>(s, seed) == h128, "GetHash128<Algo>");
  uint32_t h32;
  if constexpr (mh::HasGetHash32<A>) h32 = A::GetHash32(s, seed);
  else h32 = static_cast<uint32_t>(h64 & 0xffffffffu) ^ static_cast<uint32_t>(h64 >> 32);
  PBT_EQ(H::GetHash32(s, seed), h32);
  PBT_EQ(mh::GetHash32<A>(s, seed), h32);
  // Defaults use the library wide default seed 5381.
  PBT_EQ(H::GetHash64(s), H::GetHash64(s, 5381));
  PBT_EQ(H::GetHash32(s), H::GetHash32(s, 5381));
  PBT_CHECK(H::GetHash128(s) == H::GetHash128(s, 5381), "default seed 128");
  PBT_EQ(mh::GetHash64<A>(s), H::GetHash64(s, 5381));
  // Functors; equal for every string type.
  uint64_t fn = H{}(s);
  PBT_EQ(fn, H::GetHash64(s, 5381));
  PBT_EQ(H{}(std::string_view(s)), fn);
  if (s.find('\0') == std::string::npos) PBT_EQ(H{}(s.c_str()), fn);
  // Mangled = raw ^ constant.
  PBT_EQ(mh::MangledHasher<A>::GetHash(s, seed), h64 ^ mh::kMangleConstant);
  PBT_EQ(mh::MangledHasher<A>::GetHash(s), H::GetHash64(s, 5381) ^ mh::kMangleConstant);
  PBT_EQ(mh::MangledHasher<A>{}(s), H::GetHash64(s, 5381) ^ mh::kMangleConstant);
  PBT_EQ(mh::MangledHasher<A>::GetHash64(s, seed), h64);
  PBT_EQ(mh::GetHash<A>(s), H::GetHash64(s, 5381) ^ mh::kMangleConstant);
  PBT_EQ((mh::GetHash<A, 77>(s)), H::GetHash64(s, 77) ^ mh::kMangleConstant);
  PBT_EQ(mh::HashMangle(h64), h64 ^ mh::kMangleConstant);
  PBT_EQ(mh::HashMangle(mh::HashMangle(h64)), h64);
}
PBT_PROP(hasher_laws, 300000, 4000000, RULE) {
  switch (src.Draw(12)) {
    case 0: Laws<mh::mumbo::Algorithm>(src, "mumbo"); break;
    case 1: Laws<mh::jumbo::Algorithm>(src, "jumbo"); break;
    case 2: Laws<mh::dumbo::Algorithm>(src, "dumbo"); break;
    case 3: Laws<mh::fambo::Algorithm>(src, "fambo"); break;
    case 4: Laws<mh::fnv1a::Algorithm>(src, "fnv1a"); break;
    case 5: Laws<mh::murmur3::Algorithm>(src, "murmur3"); break;
    case 6: Laws<mh::siphash::Algorithm>(src, "siphash"); break;
    case 7: Laws<mh::rapidhash::Algorithm>(src, "rapidhash"); break;
    case 8: Laws<mh::xxh64::Algorithm>(src, "xxh64"); break;
    case 9: Laws<mh::xxh3::Algorithm>(src, "xxh3"); break;
    case 10: Laws<Only128>(src, "only128"); break;
    case 11: Laws<With32>(src, "with32"); break;
    default: Laws<mh::tembo::Algorithm<4, 5>>(src, "tembo"); break;
  }
}
PBT_PROP(defaults, 100000, 1000000, RULE) {
  std::string s = src.Blob(HashLen(src));
  uint64_t seed = src.U64();
  if (s.size()) src.NonTrivial();
  PBT_EQ(mh::GetHash64(s, seed), mh::mumbo::GetHash64(s, seed));
  PBT_CHECK(mh::GetHash128(s, seed) == mh::jumbo::GetHash128(s, seed));
  PBT_EQ(mh::GetHash32(s, seed), mh::Hasher<mh::mumbo::Algorithm>::GetHash32(s, seed));
  PBT_EQ(mh::GetHash(s), mh::GetHash64(s) ^ mh::kMangleConstant);
  PBT_EQ(mh::DefaultHasher{}(s), mh::mumbo::GetHash64(s));
  PBT_EQ(mh::DefaultMangledHasher{}(s), mh::GetHash(s));
}
PBT_PROP(combine_fold, 300000, 3000000, "pairs of 64-bit values (boundary biased); non-trivial: not both zero") {
  uint64_t a = src.U64(), b = src.U64();
  if (a | b) src.NonTrivial();
  PBT_NOTE(a << " " << b);
  PBT_EQ(mh::CombineHashes(a, b), ref::Fmix(a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2))));
  PBT_EQ(mh::Hash128To64({.h1 = a, .h2 = b}), ref::Fmix(a ^ (b + 0x9e3779b97f4a7c15ULL)));
  PBT_EQ(mh::Hash64To32(a), static_cast<uint32_t>(a) ^ static_cast<uint32_t>(a >> 32));
}
struct Sink { std::string s; void Append(std::string_view v) { s += v; } void Append(size_t n, char c) { s.append(n, c); } };
struct HState { std::vector<uint64_t> v; static HState combine(HState h, uint64_t a, uint64_t b) { h.v.push_back(a); h.v.push_back(b); return h; } };
PBT_PROP(hash128, 200000, 2000000, "pairs of 128-bit values with shared halves; non-trivial: values differ") {
  uint64_t w[4];
  w[0] = src.U64(); w[1] = src.U64();
  w[2] = src.Bool() ? w[0] : src.U64(); w[3] = src.Bool() ? w[1] : src.U64();
  Hash128 x{w[0], w[1]}, y{w[2], w[3]};
  auto px = std::pair(w[0], w[1]), py = std::pair(w[2], w[3]);
  if (px != py) src.NonTrivial();
  PBT_NOTE(w[0] << ":" << w[1] << " vs " << w[2] << ":" << w[3]);
  PBT_EQ(x == y, px == py);
  PBT_EQ(x != y, px != py);
  PBT_EQ(x < y, px < py);
  PBT_EQ(x > y, px > py);
  PBT_EQ(x <= y, px <= py);
  PBT_CHECK((x <=> y) == (px <=> py));
  Sink sink;
  AbslStringify(sink, x);
  char buf[64];
  snprintf(buf, sizeof buf, "0x%016llx%016llx", (unsigned long long)w[0], (unsigned long long)w[1]);
  PBT_EQ(sink.s, std::string(buf));
  HState hs = AbslHashValue(HState{}, x);
  PBT_CHECK(hs.v == (std::vector<uint64_t>{w[0], w[1]}), "AbslHashValue combines both halves");
}
PBT_PROP(containers, 20000, 200000, "random key sets in unordered containers with the hashers (transparent lookup); non-trivial: 2 or more keys") {
  std::unordered_map<std::string, int, mh::DefaultHasher, std::equal_to<>> m;
  std::unordered_set<std::string, mh::MangledHasher<mh::xxh64::Algorithm>, std::equal_to<>> st;
  std::vector<std::string> keys;
  for (size_t i = 0, n = src.Draw(30); i < n; ++i) { keys.push_back(src.RawBytes(20)); m[keys.back()] = int(i); st.insert(keys.back()); }
  if (keys.size() > 1) src.NonTrivial();
  for (size_t i = 0; i < keys.size(); ++i) {
    std::string_view v = keys[i];
    PBT_CHECK(m.find(v) != m.end(), "heterogeneous find");
    PBT_CHECK(st.find(v) != st.end(), "heterogeneous find in set");
  }
}
