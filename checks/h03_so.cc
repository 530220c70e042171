// C entry points for the Starlark-port comparison (H03).
#include <cstddef>
#include <cstdint>
#include <string_view>
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_mangle.h"
namespace mh = mbo::hash;
#define FN(A)                                                                                             \
  extern "C" uint64_t h_##A(const char* p, size_t n, uint64_t seed) { return mh::A::Algorithm::GetHash64(std::string_view(p, n), seed); } \
  extern "C" uint64_t hd_##A(const char* p, size_t n) { return mh::A::Algorithm::GetHash64(std::string_view(p, n)); }
FN(dumbo)
FN(fnv1a)
FN(mumbo)
extern "C" uint64_t h_mangle() { return mh::kMangleConstant; }
extern "C" uint64_t h_default_seed() { return mh::kDefaultSeed; }
