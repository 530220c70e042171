// D02: streamed digests over arbitrary histories.
#include <thread>
#include "digest_common.h"
#define RULE "history of 1..20 operations (update chunk of size biased to block borders, peek, copy, assign, restart) over up to 3 streams, checked against the oracle digest of the bytes fed; non-trivial: at least 2 non-empty updates and more than one block in total"
template<typename A> static void Run(pbt::Src& src, RefFn ref) {
  struct St { typename A::StreamState st; md::Streamer<A> str; std::string model; };
  auto fresh = [] { return St{A::StreamInit(), md::Streamer<A>(), ""}; };
  std::vector<St> v;
  v.push_back(fresh());
  size_t upd = 0, total = 0, ops = 1 + src.Draw(19);
  const size_t B = A::kBlockSize;
  auto check = [&](const St& s, const char* what) {
    std::string want = ref(s.model);
    PBT_EQ(pbt::Hex(ref::S(A::StreamFinalize(s.st))), pbt::Hex(want), what << " state after " << s.model.size() << " bytes");
    PBT_EQ(pbt::Hex(ref::S(s.str.Finalize())), pbt::Hex(want), what << " Streamer after " << s.model.size() << " bytes");
  };
  for (size_t i = 0; i < ops; ++i) {
    size_t k = src.Draw(v.size() - 1);
    switch (src.Weighted({12, 3, 2, 1, 1})) {
      case 0: {
        size_t n = 0;
        switch (src.Draw(5)) {
          case 0: n = src.Draw(9); break;
          case 1: n = src.Draw(B); break;
          case 2: n = B * src.Draw(3); break;
          case 3: { size_t fill = v[k].model.size() % B; n = B - fill + src.Draw(2); n -= n > 0 ? src.Draw(1) : 0; break; }
          case 4: n = src.Draw(300); break;
          default: n = src.Chance(1, 3) ? 1023 + src.Draw(2100) : 1024 - (v[k].model.size() % 1024) + src.Draw(1); break;
        }
        std::string c = src.Blob(n);
        Exact e(c, src.Draw(7));
        PBT_NOTE("stream " << k << ": update " << n << " bytes at total " << v[k].model.size());
        A::StreamUpdate(v[k].st, e.view());
        auto& r = v[k].str.Update(e.view());
        PBT_CHECK(&r == &v[k].str, "Update returns *this");
        v[k].model += c;
        if (n) { ++upd; total += n; } else src.Label("empty chunk");
        break;
      }
      case 1: PBT_NOTE("peek " << k); src.Label("peek"); check(v[k], "peek"); break;
      case 2: if (v.size() < 3) { PBT_NOTE("copy " << k); src.Label("copy"); St s2 = v[k]; v.push_back(s2); } break;
      case 3: {
        size_t j = src.Draw(v.size() - 1);
        if (j != k) { PBT_NOTE("assign " << k << " = " << j); src.Label("assign"); St t = v[j]; v[k] = t; }
        break;
      }
      default: PBT_NOTE("restart " << k); src.Label("restart"); v[k] = fresh(); break;
    }
  }
  for (const St& s : v) check(s, "final");
  if (upd >= 2 && total > B) src.NonTrivial();
}
#define X(NAME, ALGO, REF) PBT_PROP(NAME, 24000, 600000, RULE) { Run<ALGO>(src, [](std::string_view d) -> std::string { return REF; }); }
DIGEST_ALGOS(X)
#undef X
// HMAC streams and keyed streams have the same histories.
template<typename H, typename Init> static void Keyed(pbt::Src& src, Init init, std::string (*want)(const std::string& key, std::string_view d)) {
  std::string key = src.Blob(src.Draw(64));
  (void)sizeof(H);
  auto st = init(key);
  std::string model;
  size_t n = 2 + src.Draw(8);
  for (size_t i = 0; i < n; ++i) {
    std::string c = src.Blob(src.Draw(src.Chance(1, 5) ? 1500 : 200));
    H::StreamUpdate(st, c);
    model += c;
    if (src.Chance(1, 3)) { auto cp = st; PBT_EQ(pbt::Hex(ref::S(H::StreamFinalize(cp))), pbt::Hex(want(key, model)), "peek"); }
  }
  PBT_NOTE("key len " << key.size() << ", " << model.size() << " bytes in " << n << " chunks");
  if (model.size() > 128) src.NonTrivial();
  PBT_EQ(pbt::Hex(ref::S(H::StreamFinalize(st))), pbt::Hex(want(key, model)), "final");
}
#define RULE2 "key of 0..64 bytes, 2..10 chunks, peeks in between; non-trivial: more than 128 bytes"
PBT_PROP(hmac_sha256, 20000, 300000, RULE2) { using H = md::Hmac<md::sha256::Algorithm>; Keyed<H>(src, [](const std::string& k) { return H::StreamInit(k); }, [](const std::string& k, std::string_view d) { return ref::EvpHmac("SHA256", k, d); }); }
PBT_PROP(hmac_sha512, 20000, 300000, RULE2) { using H = md::Hmac<md::sha512::Algorithm>; Keyed<H>(src, [](const std::string& k) { return H::StreamInit(k); }, [](const std::string& k, std::string_view d) { return ref::EvpHmac("SHA512", k, d); }); }
PBT_PROP(keyed_blake2b, 20000, 300000, RULE2) { using H = md::blake2b::Algorithm; Keyed<H>(src, [](const std::string& k) { return H::StreamInitKeyed(k); }, [](const std::string& k, std::string_view d) { return ref::Blake2b(64, k, d); }); }
PBT_PROP(keyed_blake3, 20000, 300000, RULE2) { using H = md::blake3::Algorithm; Keyed<H>(src, [](const std::string& k) { return H::StreamInitKeyed(k); }, [](std::string const& k, std::string_view d) { std::string p = k.substr(0, 32); p.resize(32, '\0'); return ref::Blake3Keyed(p, d, 32); }); }
// Long messages: bit counts beyond 32 bits (and byte counts beyond 32 bits when
// thorough), where length bookkeeping can overflow.
template<typename A> static void Huge(const std::string& pat, const char* evp, size_t total) {
  auto st = A::StreamInit();
  EVP_MD_CTX* ctx = nullptr;
  llvm_blake3_hasher b3;
  if (evp) { ctx = EVP_MD_CTX_new(); EVP_DigestInit_ex(ctx, EVP_MD_fetch(nullptr, evp, nullptr), nullptr); } else { llvm_blake3_hasher_init(&b3); }
  size_t left = total;
  while (left) {
    size_t n = left < pat.size() ? left : pat.size();
    A::StreamUpdate(st, std::string_view(pat).substr(0, n));
    if (evp) EVP_DigestUpdate(ctx, pat.data(), n); else llvm_blake3_hasher_update(&b3, pat.data(), n);
    left -= n;
    pbt::Progress();
  }
  unsigned char buf[64] = {};
  unsigned len = 0;
  if (evp) { EVP_DigestFinal_ex(ctx, buf, &len); EVP_MD_CTX_free(ctx); } else { len = 32; llvm_blake3_hasher_finalize(&b3, buf, 32); }
  PBT_EQ(pbt::Hex(ref::S(A::StreamFinalize(st))), pbt::Hex(std::string_view(reinterpret_cast<char*>(buf), len)), (evp ? evp : "BLAKE3") << ": long stream of " << total << " bytes");
}
PBT_PROP(long_streams, 1, 2, "per length-counting algorithm one stream of 512 MiB (thorough: 4 GiB) plus a few bytes in 1 MiB chunks, so that bit (byte) counts pass 2^32; always non-trivial") {
  const char* tier = getenv("VERIF_TIER");
  size_t total = (size_t{1} << (tier && std::string_view(tier) == "thorough" ? 32 : 29)) + src.Draw(300);
  std::string pat = src.Blob((1 << 20) + 13);
  src.NonTrivial();
  PBT_NOTE("total " << total);
  std::vector<std::thread> t;
  t.emplace_back([&] { Huge<md::md5::Algorithm>(pat, "MD5", total); });
  t.emplace_back([&] { Huge<md::sha1::Algorithm>(pat, "SHA1", total); });
  t.emplace_back([&] { Huge<md::sha256::Algorithm>(pat, "SHA256", total); });
  t.emplace_back([&] { Huge<md::sha224::Algorithm>(pat, "SHA224", total); });
  t.emplace_back([&] { Huge<md::sha512::Algorithm>(pat, "SHA512", total); });
  t.emplace_back([&] { Huge<md::blake2b::Algorithm>(pat, "BLAKE2B-512", total); });
  t.emplace_back([&] { Huge<md::blake3::Algorithm>(pat, nullptr, total); });
  for (auto& x : t) x.join();
}
