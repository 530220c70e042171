// H05: purity: no over-read (exact heap buffers under ASan), independence of
// address, alignment, surrounding bytes and call history.
#include <tuple>
#include "hash_common.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
namespace mh = mbo::hash;
struct Out { uint64_t a = 0, b = 0; bool operator==(const Out&) const = default; };
using Fn = Out (*)(std::string_view, uint64_t);
template<typename A> Out H64(std::string_view d, uint64_t s) { return {A::GetHash64(d, s), 0}; }
template<typename A> Out H128(std::string_view d, uint64_t s) { auto h = A::GetHash128(d, s); return {h.h1, h.h2}; }
template<typename A> Out HS128(std::string_view d, uint64_t s) { auto h = mh::Hasher<A>::GetHash128(d, s); return {h.h1, h.h2}; }
struct Named { const char* name; Fn fn; };
static const std::vector<Named> kAll = {
    {"mumbo64", H64<mh::mumbo::Algorithm>}, {"mumbo128", H128<mh::mumbo::Algorithm>}, {"jumbo128", H128<mh::jumbo::Algorithm>},
    {"dumbo", H64<mh::dumbo::Algorithm>}, {"dumbo128", HS128<mh::dumbo::Algorithm>}, {"fambo", H64<mh::fambo::Algorithm>}, {"fambo128", HS128<mh::fambo::Algorithm>},
    {"fnv1a", H64<mh::fnv1a::Algorithm>}, {"fnv1a128", HS128<mh::fnv1a::Algorithm>}, {"murmur3_64", H64<mh::murmur3::Algorithm>}, {"murmur3_128", H128<mh::murmur3::Algorithm>},
    {"siphash", H64<mh::siphash::Algorithm>}, {"siphash128", HS128<mh::siphash::Algorithm>}, {"rapidhash", H64<mh::rapidhash::Algorithm>}, {"rapid128", HS128<mh::rapidhash::Algorithm>},
    {"xxh64", H64<mh::xxh64::Algorithm>}, {"xxh64_128", HS128<mh::xxh64::Algorithm>}, {"xxh3_64", H64<mh::xxh3::Algorithm>}, {"xxh3_128", H128<mh::xxh3::Algorithm>},
    {"tembo2_3", H64<mh::tembo::Algorithm<2, 3>>}, {"tembo4_4", H64<mh::tembo::Algorithm<4, 4>>}, {"tembo5_7i", H64<mh::tembo::Algorithm<5, 7, true>>},
    {"tembo8_40i", H64<mh::tembo::Algorithm<8, 40, true>>}, {"tembo12_9", H64<mh::tembo::Algorithm<12, 9>>}, {"tembo16_40", H64<mh::tembo::Algorithm<16, 40>>}, {"tembo16_3i", H64<mh::tembo::Algorithm<16, 3, true>>},
};
PBT_PROP(pure, 4000000, 40000000, "random algorithm and width, length, bytes, seed; hashed in an exact heap buffer, at another alignment between random bytes, and again after hashing something else; non-trivial: at least 1 byte") {
  const Named& f = kAll[src.Draw(kAll.size() - 1)];
  size_t n = HashLen(src);
  std::string s = src.Blob(n);
  uint64_t seed = src.U64();
  if (n) src.NonTrivial();
  src.Label(f.name);
  src.Label(LenLabel(n));
  PBT_NOTE(f.name << " len=" << n << " seed=" << seed);
  Exact e(s, 0);  // ends exactly at the end of the heap block
  Out r = f.fn(e.view(), seed);
  size_t al = src.Draw(15);
  std::string pad = src.Blob(64);
  std::string around = pad.substr(0, 16 + al) + s + pad.substr(0, 40);
  std::string_view v(around.data() + 16 + al, n);
  PBT_CHECK(f.fn(v, seed) == r, "value depends on address or surrounding bytes");
  Out other = f.fn(std::string_view(around), seed ^ 1);
  (void)other;
  PBT_CHECK(f.fn(e.view(), seed) == r, "value depends on earlier calls");
  if (n == 0) PBT_CHECK(f.fn(std::string_view(), seed) == r, "null view of size 0");
  // The input is not modified.
  PBT_CHECK(e.view() == s && v == s, "input modified");
}
