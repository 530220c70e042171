// Digest oracles: OpenSSL (EVP, HMAC, BLAKE2BMAC), the official BLAKE3 C code as
// shipped in LLVM, and a transcription of RFC 7693 for BLAKE2b at any output size.
#ifndef VERIF_REF_DIGEST_H_
#define VERIF_REF_DIGEST_H_
#include <llvm-c/blake3.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>

#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

namespace ref {
inline std::string Evp(const char* name, std::string_view d, size_t xof = 0) {
  struct C { std::string n; const EVP_MD* md; };
  static std::vector<C> cache;
  const EVP_MD* md = nullptr;
  for (auto& c : cache) if (c.n == name) md = c.md;
  if (!md) {
    md = EVP_MD_fetch(nullptr, name, nullptr);
    if (!md) { std::fprintf(stderr, "no EVP %s\n", name); abort(); }
    cache.push_back({name, md});
  }
  thread_local EVP_MD_CTX* ctx = EVP_MD_CTX_new();
  EVP_DigestInit_ex(ctx, md, nullptr);
  EVP_DigestUpdate(ctx, d.data(), d.size());
  if (xof) {
    std::string out(xof, '\0');
    EVP_DigestFinalXOF(ctx, reinterpret_cast<unsigned char*>(out.data()), xof);
    return out;
  }
  unsigned char buf[EVP_MAX_MD_SIZE];
  unsigned n = 0;
  EVP_DigestFinal_ex(ctx, buf, &n);
  return std::string(reinterpret_cast<char*>(buf), n);
}
inline std::string EvpHmac(const char* name, std::string_view key, std::string_view d) {
  unsigned char buf[EVP_MAX_MD_SIZE];
  unsigned n = 0;
  static const unsigned char kNone = 0;
  HMAC(EVP_get_digestbyname(name), key.data() ? key.data() : reinterpret_cast<const char*>(&kNone), static_cast<int>(key.size()),
       reinterpret_cast<const unsigned char*>(d.data()), d.size(), buf, &n);
  return std::string(reinterpret_cast<char*>(buf), n);
}
// HMAC built from its definition (RFC 2104) over any digest function.
template<typename F>
std::string Hmac(F f, size_t block, std::string key, std::string_view d) {
  if (key.size() > block) key = f(key);
  key.resize(block, '\0');
  std::string i, o;
  for (char c : key) { i += char(c ^ 0x36); o += char(c ^ 0x5C); }
  return f(o + f(i + std::string(d)));
}
inline std::string Blake3(std::string_view d, size_t out) {
  llvm_blake3_hasher h;
  llvm_blake3_hasher_init(&h);
  llvm_blake3_hasher_update(&h, d.data(), d.size());
  std::string r(out, '\0');
  llvm_blake3_hasher_finalize(&h, reinterpret_cast<uint8_t*>(r.data()), out);
  return r;
}
inline std::string Blake3Keyed(std::string_view key32, std::string_view d, size_t out) {
  llvm_blake3_hasher h;
  llvm_blake3_hasher_init_keyed(&h, reinterpret_cast<const uint8_t*>(key32.data()));
  llvm_blake3_hasher_update(&h, d.data(), d.size());
  std::string r(out, '\0');
  llvm_blake3_hasher_finalize(&h, reinterpret_cast<uint8_t*>(r.data()), out);
  return r;
}
inline std::string Blake3Derive(std::string_view ctx, std::string_view d, size_t out) {
  llvm_blake3_hasher h;
  llvm_blake3_hasher_init_derive_key_raw(&h, ctx.data(), ctx.size());
  llvm_blake3_hasher_update(&h, d.data(), d.size());
  std::string r(out, '\0');
  llvm_blake3_hasher_finalize(&h, reinterpret_cast<uint8_t*>(r.data()), out);
  return r;
}
// RFC 7693, appendix C structure.
inline std::string Blake2b(size_t outlen, std::string_view key, std::string_view in) {
  static const uint64_t iv[8] = {0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
                                 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179};
  static const uint8_t sg[12][16] = {
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
      {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
      {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
      {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
      {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}};
  std::string data;
  if (!key.empty()) { data = std::string(key); data.resize(128, '\0'); }
  data += in;
  uint64_t h[8];
  for (int i = 0; i < 8; ++i) h[i] = iv[i];
  h[0] ^= 0x01010000 ^ (uint64_t(key.size()) << 8) ^ outlen;
  auto rot = [](uint64_t x, int n) { return (x >> n) | (x << (64 - n)); };
  size_t blocks = data.empty() ? 1 : (data.size() + 127) / 128;
  for (size_t b = 0; b < blocks; ++b) {
    bool last = b + 1 == blocks;
    uint64_t t = last ? data.size() : (b + 1) * 128, m[16] = {}, v[16];
    std::string blk = data.substr(b * 128, 128);
    blk.resize(128, '\0');
    std::memcpy(m, blk.data(), 128);
    for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = iv[i]; }
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    for (int r = 0; r < 12; ++r) {
      auto G = [&](int a, int bb, int c, int d, uint64_t x, uint64_t y) {
        v[a] += v[bb] + x; v[d] = rot(v[d] ^ v[a], 32); v[c] += v[d]; v[bb] = rot(v[bb] ^ v[c], 24);
        v[a] += v[bb] + y; v[d] = rot(v[d] ^ v[a], 16); v[c] += v[d]; v[bb] = rot(v[bb] ^ v[c], 63);
      };
      const uint8_t* s = sg[r];
      G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]); G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
      G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]); G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  return std::string(reinterpret_cast<char*>(h), 64).substr(0, outlen);
}
inline std::string OsslBlake2bMac(size_t outlen, std::string_view key, std::string_view in) {
  static EVP_MAC* mac = EVP_MAC_fetch(nullptr, "BLAKE2BMAC", nullptr);
  EVP_MAC_CTX* c = EVP_MAC_CTX_new(mac);
  OSSL_PARAM p[] = {OSSL_PARAM_construct_size_t("size", &outlen), OSSL_PARAM_construct_end()};
  EVP_MAC_CTX_set_params(c, p);
  EVP_MAC_init(c, reinterpret_cast<const unsigned char*>(key.data()), key.size(), nullptr);
  EVP_MAC_update(c, reinterpret_cast<const unsigned char*>(in.data()), in.size());
  std::string r(outlen, '\0');
  size_t n = 0;
  EVP_MAC_final(c, reinterpret_cast<unsigned char*>(r.data()), &n, outlen);
  EVP_MAC_CTX_free(c);
  return r;
}
template<size_t N> std::string S(const std::array<uint8_t, N>& a) { return std::string(reinterpret_cast<const char*>(a.data()), N); }
inline std::string HexOf(std::string_view s) {
  std::string r;
  char b[3];
  for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); r += b; }
  return r;
}
}  // namespace ref
#endif
