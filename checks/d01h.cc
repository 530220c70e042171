// D01: one-shot digests of messages whose bit count (thorough: byte count) does not fit 32 bits.
#include <sys/mman.h>
#include <cstring>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <openssl/evp.h>
#include "digest_common.h"
namespace {
template<typename A> std::string Huge(const char* evp, std::string_view msg) {
  unsigned char buf[64] = {};
  unsigned len = 0;
  if (evp) {
    EVP_MD* md = EVP_MD_fetch(nullptr, evp, nullptr);
    EVP_Digest(msg.data(), msg.size(), buf, &len, md, nullptr);
    EVP_MD_free(md);
  } else {
    llvm_blake3_hasher h;
    llvm_blake3_hasher_init(&h);
    llvm_blake3_hasher_update(&h, msg.data(), msg.size());
    llvm_blake3_hasher_finalize(&h, buf, len = 32);
  }
  const std::string got = pbt::Hex(ref::S(A::Digest(msg))), want = pbt::Hex(std::string_view(reinterpret_cast<char*>(buf), len));
  return got == want ? "" : std::string(evp ? evp : "BLAKE3") + ": " + got + " instead of " + want;
}
}  // namespace
PBT_PROP(long_messages, 1, 2, "per algorithm one message of 512 MiB (thorough: 4 GiB) plus up to 300 bytes, zero but for random bytes at both ends and in the middle, so that bit (byte) counts pass 2^32; always non-trivial") {
  const char* tier = getenv("VERIF_TIER");
  const size_t total = (size_t{1} << (tier && std::string_view(tier) == "thorough" ? 32 : 29)) + src.Draw(300);
  std::string pat = src.Blob(3 * 4096);
  src.NonTrivial();
  PBT_NOTE("total " << total);
  void* map = mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (map == MAP_FAILED) return;
  madvise(map, total, MADV_NOHUGEPAGE);
  char* p = static_cast<char*>(map);
  std::memcpy(p, pat.data(), 4096);
  std::memcpy(p + total / 2, pat.data() + 4096, 4096);
  std::memcpy(p + total - 4096, pat.data() + 8192, 4096);
  const std::string_view msg(p, total);
  std::vector<std::string> bad(9);
  std::vector<std::thread> t;
  size_t i = 0, done = 0;
#define T(NS, EVP) t.emplace_back([&, i] { bad[i] = Huge<md::NS::Algorithm>(EVP, msg); __atomic_add_fetch(&done, 1, __ATOMIC_SEQ_CST); }), ++i
  T(md5, "MD5"); T(sha1, "SHA1"); T(sha256, "SHA256"); T(sha224, "SHA224"); T(sha512, "SHA512"); T(sha384, "SHA384"); T(sha3_256, "SHA3-256"); T(blake2b, "BLAKE2B-512"); T(blake3, nullptr);
  while (__atomic_load_n(&done, __ATOMIC_SEQ_CST) < i) { pbt::Progress(); usleep(50000); }
  for (auto& x : t) x.join();
  munmap(map, total);
  for (const std::string& b : bad) PBT_CHECK(b.empty(), "message of ", total, " bytes: ", b);
}
