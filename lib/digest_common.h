#ifndef VERIF_DIGEST_COMMON_H_
#define VERIF_DIGEST_COMMON_H_
#include "hash_common.h"
#include "mbo/digest/digest.h"
#include "ref_digest.h"
namespace md = mbo::digest;
using RefFn = std::string (*)(std::string_view);
// X(name, Algorithm, oracle expression over `d`)
#define DIGEST_ALGOS(X)                                                             \
  X(md5, md::md5::Algorithm, ref::Evp("MD5", d))                                    \
  X(sha1, md::sha1::Algorithm, ref::Evp("SHA1", d))                                 \
  X(sha224, md::sha224::Algorithm, ref::Evp("SHA224", d))                           \
  X(sha256, md::sha256::Algorithm, ref::Evp("SHA256", d))                           \
  X(sha384, md::sha384::Algorithm, ref::Evp("SHA384", d))                           \
  X(sha512, md::sha512::Algorithm, ref::Evp("SHA512", d))                           \
  X(sha512_224, md::sha512_224::Algorithm, ref::Evp("SHA512-224", d))               \
  X(sha512_256, md::sha512_256::Algorithm, ref::Evp("SHA512-256", d))               \
  X(sha3_224, md::sha3_224::Algorithm, ref::Evp("SHA3-224", d))                     \
  X(sha3_256, md::sha3_256::Algorithm, ref::Evp("SHA3-256", d))                     \
  X(sha3_384, md::sha3_384::Algorithm, ref::Evp("SHA3-384", d))                     \
  X(sha3_512, md::sha3_512::Algorithm, ref::Evp("SHA3-512", d))                     \
  X(blake2b, md::blake2b::Algorithm, ref::Evp("BLAKE2B-512", d))                    \
  X(blake2b_256, md::blake2b_256::Algorithm, ref::Blake2b(32, "", d))               \
  X(blake3, md::blake3::Algorithm, ref::Blake3(d, 32))                              \
  X(shake128_32, md::shake128::Algorithm<32>, ref::Evp("SHAKE128", d, 32))          \
  X(shake256_64, md::shake256::Algorithm<64>, ref::Evp("SHAKE256", d, 64))
// Message lengths around block and padding borders of every algorithm.
inline size_t MsgLen(pbt::Src& src, size_t block) {
  switch (src.Weighted({20, 40, 15, 20, 5})) {
    case 0: return src.Draw(40);
    case 1: { size_t b = block * (src.Draw(4) + 1), d = src.Draw(36); return b + 2 > d ? b + 2 - d : 0; }
    case 2: return src.Draw(600);
    case 3: { size_t b = 1024 * (1 + src.Draw(src.Chance(1, 4) ? 34 : 8)), d = src.Draw(6); return b + 3 - d; }
    default: return src.Draw(40000);
  }
}
#endif
