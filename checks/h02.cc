// H02: in-house hashes against plain references of their documented construction.
#include <array>
#include <tuple>
#include <utility>
#include "hash_common.h"
#include "ref_hash.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_test_vectors.inc"

namespace mh = mbo::hash;
using mh::Hash128;
#define RULE "random length (tier-boundary biased), byte pattern, alignment and 64-bit seed; non-trivial: at least 1 byte"
static std::string Input(pbt::Src& src, uint64_t& seed, size_t& align) {
  size_t n = HashLen(src);
  std::string s = src.Blob(n);
  seed = src.U64();
  align = src.Draw(15);
  src.Label(LenLabel(n));
  if (n) src.NonTrivial();
  PBT_NOTE("len=" << n << " seed=" << seed << " align=" << align << " data=" << pbt::Hex(s.substr(0, 48)));
  return s;
}
static std::string Show128(Hash128 h) { std::ostringstream o; o << std::hex << h.h1 << ":" << h.h2; return o.str(); }
#define EQ128(got, x, y) do { Hash128 g_ = (got); uint64_t x_ = (x), y_ = (y); if (g_.h1 != x_ || g_.h2 != y_) PBT_FAIL(#got " got " << Show128(g_) << " expected " << Show128({x_, y_})); } while (0)

PBT_PROP(mumbo, 800000, 8000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  uint64_t r = ref::Mumbo64(s, seed);
  PBT_EQ(mh::mumbo::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::mumbo::Algorithm::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::jumbo::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::jumbo::Algorithm::GetHash64(e.view(), seed), r);
  if (src.Chance(1, 4)) {
    PBT_EQ(mh::mumbo::GetHash64(e.view()), ref::Mumbo64(s, 5381));
    PBT_EQ(mh::mumbo::Algorithm::GetHash64(e.view()), ref::Mumbo64(s, 5381));
    PBT_EQ(mh::GetHash64(e.view()), ref::Mumbo64(s, 5381));
    PBT_EQ(mh::GetHash64(e.view(), seed), r);
  }
}
PBT_PROP(jumbo, 800000, 8000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  ref::H128 r = ref::Mumbo128(s, seed);
  EQ128(mh::jumbo::GetHash128(e.view(), seed), r.h1, r.h2);
  EQ128(mh::jumbo::Algorithm::GetHash128(e.view(), seed), r.h1, r.h2);
  EQ128(mh::mumbo::GetHash128(e.view(), seed), r.h1, r.h2);
  if (src.Chance(1, 4)) {
    ref::H128 d = ref::Mumbo128(s, 5381);
    EQ128(mh::jumbo::GetHash128(e.view()), d.h1, d.h2);
    EQ128(mh::GetHash128(e.view()), d.h1, d.h2);
  }
}
PBT_PROP(dumbo, 800000, 8000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  uint64_t r = ref::Dumbo(s, seed);
  PBT_EQ(mh::dumbo::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::dumbo::Algorithm::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::dumbo::GetDumboHash(e.view(), seed), r);
  if (src.Chance(1, 4)) { PBT_EQ(mh::dumbo::GetHash64(e.view()), ref::Dumbo(s, 0)); PBT_EQ(mh::dumbo::Algorithm::GetHash64(e.view()), ref::Dumbo(s, 0)); }
}
PBT_PROP(fambo, 800000, 8000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  uint64_t r = ref::Fambo(s, seed);
  PBT_EQ(mh::fambo::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::fambo::Algorithm::GetHash64(e.view(), seed), r);
  if (src.Chance(1, 4)) { PBT_EQ(mh::fambo::GetHash64(e.view()), ref::Fambo(s, 5381)); PBT_EQ(mh::fambo::Algorithm::GetHash64(e.view()), ref::Fambo(s, 0)); }
}

using Fn = uint64_t (*)(std::string_view, uint64_t);
struct Cfg { int lanes, consts; bool init; Fn fn; };
template<int L, int C, bool I> uint64_t Call(std::string_view d, uint64_t s) { return mh::tembo::Algorithm<L, C, I>::GetHash64(d, s); }
template<int L, int... C>
static void AddL(std::vector<Cfg>& v, std::integer_sequence<int, C...>) {
  (v.push_back({L, C + 3, false, &Call<L, C + 3, false>}), ...);
  (v.push_back({L, C + 3, true, &Call<L, C + 3, true>}), ...);
}
// A spread of constant counts (all counts for the small lane numbers would be
// 1140 instantiations; 16 counts x 15 lanes x 2 cover every wrap pattern).
template<int L> static void Add1(std::vector<Cfg>& v) { AddL<L>(v, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 8, 10, 13, 16, 20, 25, 29, 33, 36, 37>{}); }
template<int... L> static std::vector<Cfg> MakeAll(std::integer_sequence<int, L...>) {
  std::vector<Cfg> v;
  (Add1<L + 2>(v), ...);
  return v;
}
#ifndef LANES
#define LANES 15
#endif
PBT_PROP(tembo, 1500000, 16000000, "random tembo configuration (2..16 lanes, 3..40 constants, both init modes), length 0..900 biased to the bulk window of the configuration, seed; non-trivial: more than 16 bytes") {
  static const std::vector<Cfg> all = MakeAll(std::make_integer_sequence<int, LANES>{});
  const Cfg& c = all[src.Draw(all.size() - 1)];
  size_t w = 16 * c.lanes, n = 0;
  switch (src.Draw(3)) {
    case 0: n = src.Draw(40); break;
    case 1: { size_t b = w * (1 + src.Draw(2)), d = src.Draw(40); n = b + d > 20 ? b + d - 20 : 0; break; }
    default: n = src.Draw(900);
  }
  std::string s = src.Blob(n);
  uint64_t seed = src.U64();
  if (n > 16) src.NonTrivial();
  src.Label(n <= 16 ? "small" : n < w ? "ladder" : "bulk");
  PBT_NOTE("lanes=" << c.lanes << " consts=" << c.consts << " init=" << c.init << " len=" << n << " seed=" << seed);
  Exact e(s, src.Draw(7));
  PBT_EQ(c.fn(e.view(), seed), ref::Tembo(c.lanes, c.consts, c.init, s, seed));
}
// The library's own pinned vectors, against the same reference (so the pinned
// file and the reference define one and the same construction).
PBT_PROP(pinned, 104, 104, "the 104 vectors pinned in the repository; all non-trivial") {
  // The case index is not visible here: draw it.
  const auto& v = mh::kat::kVectors[src.Draw(mh::kat::kVectors.size() - 1)];
  std::string s(v.len, '\0');
  for (size_t i = 0; i < v.len; ++i) s[i] = static_cast<char>((i * 131 + 7) % 256);
  src.NonTrivial();
  PBT_NOTE("algo " << int(v.algo) << " len " << v.len << " seed " << v.seed);
  switch (v.algo) {
    case mh::kat::Algo::kMumbo: PBT_EQ(mh::mumbo::GetHash64(s, v.seed), v.low); PBT_EQ(ref::Mumbo64(s, v.seed), v.low); break;
    case mh::kat::Algo::kJumbo: EQ128(mh::jumbo::GetHash128(s, v.seed), v.low, v.high); break;
    case mh::kat::Algo::kDumbo: PBT_EQ(mh::dumbo::GetHash64(s, v.seed), v.low); break;
    case mh::kat::Algo::kFambo: PBT_EQ(mh::fambo::GetHash64(s, v.seed), v.low); break;
  }
}
