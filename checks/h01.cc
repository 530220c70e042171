// H01: published hash algorithms against independent references.
#include <tuple>
#include "hash_common.h"
#include "ref_hash.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"

extern "C" {
unsigned long long XXH64(const void*, size_t, unsigned long long);
unsigned long long XXH3_64bits_withSeed(const void*, size_t, unsigned long long);
struct Xx128 { unsigned long long low, high; };
Xx128 XXH3_128bits_withSeed(const void*, size_t, unsigned long long);
}

using mbo::hash::Hash128;
namespace mh = mbo::hash;

#define RULE "random length (tier-boundary biased), byte pattern, alignment and 64-bit seed; non-trivial: at least 1 byte"

static std::string Input(pbt::Src& src, uint64_t& seed, size_t& align) {
  size_t n = HashLen(src);
  std::string s = src.Blob(n);
  seed = src.U64();
  align = src.Draw(15);
  src.Label(LenLabel(n));
  if (n) src.NonTrivial();
  PBT_NOTE("len=" << n << " seed=" << seed << " align=" << align << " data=" << pbt::Hex(s.substr(0, 48)));
  return s;
}
static std::string Show128(Hash128 h) { std::ostringstream o; o << std::hex << h.h1 << ":" << h.h2; return o.str(); }
#define EQ128(got, x, y) do { Hash128 g_ = (got); uint64_t x_ = (x), y_ = (y); if (g_.h1 != x_ || g_.h2 != y_) PBT_FAIL(#got " got " << Show128(g_) << " expected " << Show128({x_, y_})); } while (0)

PBT_PROP(murmur3, 400000, 6000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  ref::H128 r = ref::Murmur3(s, seed);
  EQ128(mh::murmur3::GetHash128(e.view(), seed), r.h1, r.h2);
  EQ128(mh::murmur3::Algorithm::GetHash128(e.view(), seed), r.h1, r.h2);
  PBT_EQ(mh::murmur3::GetHash64(e.view(), seed), r.h1);
  PBT_EQ(mh::murmur3::Algorithm::GetHash64(e.view(), seed), r.h1);
  if (seed % 8 == 0) { ref::H128 z = ref::Murmur3(s, 0); EQ128(mh::murmur3::GetHash128(e.view()), z.h1, z.h2); PBT_EQ(mh::murmur3::Algorithm::GetHash64(e.view()), z.h1); }
}
PBT_PROP(fnv1a, 200000, 3000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  PBT_EQ(mh::fnv1a::GetHash64(e.view(), seed), ref::Fnv1a(s, seed));
  PBT_EQ(mh::fnv1a::Algorithm::GetHash64(e.view(), seed), ref::Fnv1a(s, seed));
  PBT_EQ(mh::fnv1a::GetHash64(e.view()), ref::Fnv1a(s));
  PBT_EQ(mh::fnv1a::Algorithm::GetHash64(e.view()), ref::Fnv1a(s));
}
PBT_PROP(siphash, 400000, 6000000, RULE) {
  uint64_t k0; size_t al;
  std::string s = Input(src, k0, al);
  uint64_t k1 = src.U64();
  Exact e(s, al);
  PBT_EQ(mh::siphash::GetHash64(e.view(), k0, k1), ref::Sip(2, 4, s, k0, k1));
  PBT_EQ(mh::siphash::GetHash64Sip13(e.view(), k0, k1), ref::Sip(1, 3, s, k0, k1));
  switch (src.Draw(4)) {
    case 0: PBT_EQ((mh::siphash::SipHash<2, 4>(e.view(), k0, k1)), ref::Sip(2, 4, s, k0, k1)); break;
    case 1: PBT_EQ((mh::siphash::SipHash<1, 3>(e.view(), k0, k1)), ref::Sip(1, 3, s, k0, k1)); break;
    case 2: PBT_EQ((mh::siphash::SipHash<4, 8>(e.view(), k0, k1)), ref::Sip(4, 8, s, k0, k1)); break;
    case 3: PBT_EQ((mh::siphash::SipHash<3, 5>(e.view(), k0, k1)), ref::Sip(3, 5, s, k0, k1)); break;
    default: PBT_EQ((mh::siphash::SipHash<1, 1>(e.view(), k0, k1)), ref::Sip(1, 1, s, k0, k1)); break;
  }
  // Documented seed expansion of the policy type: key = (seed, Fmix64(seed)).
  PBT_EQ(mh::siphash::Algorithm::GetHash64(e.view(), k0), ref::Sip(2, 4, s, k0, ref::Fmix(k0)));
}
PBT_PROP(rapidhash, 400000, 6000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  PBT_EQ(mh::rapidhash::GetHash64(e.view(), seed), ref::Rapid(s, seed));
  PBT_EQ(mh::rapidhash::Algorithm::GetHash64(e.view(), seed), ref::Rapid(s, seed));
  PBT_EQ(mh::rapidhash::GetHash64(e.view()), ref::Rapid(s, 0));
}
PBT_PROP(xxh64, 800000, 12000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  Exact e(s, al);
  uint64_t r = XXH64(s.data(), s.size(), seed);
  PBT_EQ(mh::xxh64::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::xxh64::Algorithm::GetHash64(e.view(), seed), r);
  if (seed % 8 == 0) PBT_EQ(mh::xxh64::GetHash64(e.view()), (uint64_t)XXH64(s.data(), s.size(), 0));
}
PBT_PROP(xxh3_64, 800000, 12000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  if (src.Chance(1, 4)) seed = 0;
  Exact e(s, al);
  uint64_t r = XXH3_64bits_withSeed(s.data(), s.size(), seed);
  PBT_EQ(mh::xxh3::GetHash64(e.view(), seed), r);
  PBT_EQ(mh::xxh3::Algorithm::GetHash64(e.view(), seed), r);
  if (seed == 0) PBT_EQ(mh::xxh3::GetHash64(e.view()), r);
}
PBT_PROP(xxh3_128, 800000, 12000000, RULE) {
  uint64_t seed; size_t al;
  std::string s = Input(src, seed, al);
  if (src.Chance(1, 4)) seed = 0;
  Exact e(s, al);
  Xx128 r = XXH3_128bits_withSeed(s.data(), s.size(), seed);
  // Canonical 128-bit value: either half order is a convention of the type; the
  // library documents h1 as the low half.
  EQ128(mh::xxh3::GetHash128(e.view(), seed), r.low, r.high);
  EQ128(mh::xxh3::Algorithm::GetHash128(e.view(), seed), r.low, r.high);
  if (seed == 0) EQ128(mh::xxh3::GetHash128(e.view()), r.low, r.high);
}
// Huge inputs: several XXH3 blocks, length >> 32 irrelevant but many stripes.
PBT_PROP(long_inputs, 600, 8000, "inputs of 10 kB .. 300 kB; every case is non-trivial") {
  size_t n = 10000 + src.Draw(290000);
  std::string s = src.Blob(n);
  uint64_t seed = src.U64();
  src.NonTrivial();
  PBT_NOTE("len=" << n << " seed=" << seed);
  Exact e(s, src.Draw(7));
  PBT_EQ(mh::xxh64::GetHash64(e.view(), seed), (uint64_t)XXH64(s.data(), n, seed));
  PBT_EQ(mh::xxh3::GetHash64(e.view(), seed), (uint64_t)XXH3_64bits_withSeed(s.data(), n, seed));
  Xx128 r = XXH3_128bits_withSeed(s.data(), n, seed);
  EQ128(mh::xxh3::GetHash128(e.view(), seed), r.low, r.high);
  PBT_EQ(mh::rapidhash::GetHash64(e.view(), seed), ref::Rapid(s, seed));
  ref::H128 m = ref::Murmur3(s, seed);
  EQ128(mh::murmur3::GetHash128(e.view(), seed), m.h1, m.h2);
  PBT_EQ(mh::siphash::GetHash64(e.view(), seed, ~seed), ref::Sip(2, 4, s, seed, ~seed));
}
