// D03: HMAC, keyed digests, XOFs and key derivation.
#include "digest_common.h"
#define RULE "key length biased to 0, block-1..block+1 and long, message length biased to block borders; non-trivial: non-empty key and message"
static std::string Key(pbt::Src& src, size_t block) {
  size_t n = 0;
  switch (src.Draw(3)) {
    case 0: n = src.Draw(40); break;
    case 1: n = block - 1 + src.Draw(2); break;
    case 2: n = src.Draw(2 * block); break;
    default: n = src.Draw(400); break;
  }
  return src.Blob(n);
}
template<typename A> static void RunHmac(pbt::Src& src, RefFn ref, size_t block, const char* evp) {
  std::string key = Key(src, block), d = src.Blob(MsgLen(src, block) % 3000);
  PBT_NOTE("key len " << key.size() << " msg len " << d.size());
  if (!key.empty() && !d.empty()) src.NonTrivial();
  src.Label(key.size() > block ? "key>block" : key.size() == block ? "key=block" : "key<block");
  PBT_EQ(size_t(A::kBlockSize), block, "block size of the standard");
  Exact ek(key, 0), e(d, 0);
  using H = md::Hmac<A>;
  std::string want = ref::Hmac([&](std::string_view x) { return ref(x); }, block, key, d);
  if (evp) PBT_CHECK(want == ref::EvpHmac(evp, key, d), "oracle disagreement");
  PBT_EQ(pbt::Hex(ref::S(H::Digest(ek.view(), e.view()))), pbt::Hex(want), "HMAC");
  md::HmacStreamer<A> s(ek.view());
  size_t cut = d.empty() ? 0 : src.Draw(d.size());
  s.Update(e.view().substr(0, cut));
  std::string want1 = ref::Hmac([&](std::string_view x) { return ref(x); }, block, key, std::string_view(d).substr(0, cut));
  PBT_EQ(pbt::Hex(ref::S(s.Finalize())), pbt::Hex(want1), "HmacStreamer peek");
  s.Update(e.view().substr(cut));
  PBT_EQ(pbt::Hex(ref::S(s.Finalize())), pbt::Hex(want), "HmacStreamer");
}
#define HM(NAME, ALGO, BLOCK, REF, EVP) PBT_PROP(hmac_##NAME, 12000, 300000, RULE) { RunHmac<ALGO>(src, [](std::string_view d) -> std::string { return REF; }, BLOCK, EVP); }
HM(md5, md::md5::Algorithm, 64, ref::Evp("MD5", d), "MD5")
HM(sha1, md::sha1::Algorithm, 64, ref::Evp("SHA1", d), "SHA1")
HM(sha224, md::sha224::Algorithm, 64, ref::Evp("SHA224", d), "SHA224")
HM(sha256, md::sha256::Algorithm, 64, ref::Evp("SHA256", d), "SHA256")
HM(sha384, md::sha384::Algorithm, 128, ref::Evp("SHA384", d), "SHA384")
HM(sha512, md::sha512::Algorithm, 128, ref::Evp("SHA512", d), "SHA512")
HM(sha512_224, md::sha512_224::Algorithm, 128, ref::Evp("SHA512-224", d), "SHA512-224")
HM(sha512_256, md::sha512_256::Algorithm, 128, ref::Evp("SHA512-256", d), "SHA512-256")
HM(sha3_224, md::sha3_224::Algorithm, 144, ref::Evp("SHA3-224", d), "SHA3-224")
HM(sha3_256, md::sha3_256::Algorithm, 136, ref::Evp("SHA3-256", d), "SHA3-256")
HM(sha3_384, md::sha3_384::Algorithm, 104, ref::Evp("SHA3-384", d), "SHA3-384")
HM(sha3_512, md::sha3_512::Algorithm, 72, ref::Evp("SHA3-512", d), "SHA3-512")
HM(blake2b, md::blake2b::Algorithm, 128, ref::Evp("BLAKE2B-512", d), nullptr)
HM(blake2b_256, md::blake2b_256::Algorithm, 128, ref::Blake2b(32, "", d), nullptr)
HM(blake3, md::blake3::Algorithm, 64, ref::Blake3(d, 32), nullptr)

PBT_PROP(keyed_blake2b, 60000, 1000000, "key of 0..64 bytes (0 = unkeyed), both output sizes, vs RFC 7693 and OpenSSL BLAKE2BMAC; non-trivial: non-empty key") {
  std::string key = src.Blob(src.Chance(1, 4) ? 64 : src.Draw(64)), d = src.Blob(MsgLen(src, 128) % 3000);
  PBT_NOTE("key len " << key.size() << " msg len " << d.size());
  Exact ek(key, 0), e(d, 0);
  if (!key.empty()) { src.NonTrivial(); PBT_CHECK(ref::OsslBlake2bMac(32, key, d) == ref::Blake2b(32, key, d), "oracle disagreement"); }
  auto go = [&]<typename A>(A) {
    std::string want = ref::Blake2b(A::kDigestSize, key, d);
    PBT_EQ(pbt::Hex(ref::S(A::DigestKeyed(ek.view(), e.view()))), pbt::Hex(want), "DigestKeyed " << A::kDigestSize);
    auto st = A::StreamInitKeyed(ek.view());
    size_t cut = d.empty() ? 0 : src.Draw(d.size());
    A::StreamUpdate(st, e.view().substr(0, cut));
    A::StreamUpdate(st, e.view().substr(cut));
    PBT_EQ(pbt::Hex(ref::S(A::StreamFinalize(st))), pbt::Hex(want), "keyed stream " << A::kDigestSize);
  };
  go(md::blake2b::Algorithm{});
  go(md::blake2b_256::Algorithm{});
}
PBT_PROP(keyed_blake3, 40000, 800000, "32-byte keys, messages over the chunk-tree shapes, outputs of 1, 16, 32, 64, 65 and 200 bytes and the keyed stream; non-trivial: at least 1 byte") {
  std::string key = src.Blob(32), d = src.Blob(MsgLen(src, 64));
  PBT_NOTE("msg len " << d.size());
  if (!d.empty()) src.NonTrivial();
  Exact ek(key, 0), e(d, 0);
  std::string w = ref::Blake3Keyed(key, d, 200);
  auto want = [&](size_t n) { return pbt::Hex(w.substr(0, n)); };
  PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed(ek.view(), e.view()))), want(32), "DigestKeyed");
  switch (src.Draw(4)) {
    case 0: PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed<1>(ek.view(), e.view()))), want(1), "1"); break;
    case 1: PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed<16>(ek.view(), e.view()))), want(16), "16"); break;
    case 2: PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed<64>(ek.view(), e.view()))), want(64), "64"); break;
    case 3: PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed<65>(ek.view(), e.view()))), want(65), "65"); break;
    default: PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestKeyed<200>(ek.view(), e.view()))), want(200), "200"); break;
  }
  auto st = md::blake3::Algorithm::StreamInitKeyed(ek.view());
  size_t cut = d.empty() ? 0 : src.Draw(d.size());
  md::blake3::Algorithm::StreamUpdate(st, e.view().substr(0, cut));
  md::blake3::Algorithm::StreamUpdate(st, e.view().substr(cut));
  PBT_EQ(pbt::Hex(ref::S(md::blake3::Algorithm::StreamFinalize(st))), want(32), "keyed stream");
}
PBT_PROP(derive_blake3, 40000, 800000, "context of 0..2100 and material over the chunk-tree shapes, outputs of 16, 32, 64, 129 bytes; non-trivial: non-empty context and material") {
  std::string ctx = src.Blob(src.Chance(1, 4) ? src.Draw(2100) : src.Draw(80)), d = src.Blob(MsgLen(src, 64));
  PBT_NOTE("ctx len " << ctx.size() << " material len " << d.size());
  if (!d.empty() && !ctx.empty()) src.NonTrivial();
  Exact ek(ctx, 0), e(d, 0);
  std::string w = ref::Blake3Derive(ctx, d, 129);
  PBT_EQ(pbt::Hex(ref::S(md::blake3::DeriveKey(ek.view(), e.view()))), pbt::Hex(w.substr(0, 32)), "DeriveKey");
  switch (src.Draw(2)) {
    case 0: PBT_EQ(pbt::Hex(ref::S(md::blake3::DeriveKey<16>(ek.view(), e.view()))), pbt::Hex(w.substr(0, 16)), "16"); break;
    case 1: PBT_EQ(pbt::Hex(ref::S(md::blake3::DeriveKey<64>(ek.view(), e.view()))), pbt::Hex(w.substr(0, 64)), "64"); break;
    default: PBT_EQ(pbt::Hex(ref::S(md::blake3::DeriveKey<129>(ek.view(), e.view()))), pbt::Hex(w), "129"); break;
  }
}
template<size_t N> static void Xof(pbt::Src& src, const std::string& d, const std::string& s128, const std::string& s256, const std::string& b3) {
  PBT_EQ(pbt::Hex(ref::S(md::shake128::Digest<N>(d))), pbt::Hex(s128.substr(0, N)), "shake128 " << N << " bytes of output");
  PBT_EQ(pbt::Hex(ref::S(md::shake256::Digest<N>(d))), pbt::Hex(s256.substr(0, N)), "shake256 " << N << " bytes of output");
  PBT_EQ(pbt::Hex(ref::S(md::blake3::DigestXof<N>(d))), pbt::Hex(b3.substr(0, N)), "blake3 " << N << " bytes of output");
  using A1 = md::shake128::Algorithm<N>;
  using A2 = md::shake256::Algorithm<N>;
  PBT_EQ(pbt::Hex(ref::S(A1::Digest(d))), pbt::Hex(s128.substr(0, N)), "shake128 Algorithm");
  md::Streamer<A2> s;
  size_t cut = d.empty() ? 0 : src.Draw(d.size());
  s.Update(std::string_view(d).substr(0, cut)).Update(std::string_view(d).substr(cut));
  PBT_EQ(pbt::Hex(ref::S(s.Finalize())), pbt::Hex(s256.substr(0, N)), "shake256 stream");
}
PBT_PROP(xof, 60000, 1000000, "messages around rate borders; output lengths 1, 16, 31, 32, 64, 65, 135..137, 167..169, 272, 336, 337, 600 (longer outputs extend shorter ones); non-trivial: at least 1 byte") {
  std::string d = src.Blob(MsgLen(src, src.Bool() ? 168 : 136));
  PBT_NOTE("msg len " << d.size());
  if (!d.empty()) src.NonTrivial();
  std::string a = ref::Evp("SHAKE128", d, 600), b = ref::Evp("SHAKE256", d, 600), c = ref::Blake3(d, 600);
  switch (src.Draw(14)) {
#define C(I, N) case I: Xof<N>(src, d, a, b, c); break;
    C(0, 1) C(1, 16) C(2, 31) C(3, 32) C(4, 64) C(5, 65) C(6, 135) C(7, 136) C(8, 137) C(9, 167) C(10, 168) C(11, 169) C(12, 272) C(13, 337)
    default: Xof<600>(src, d, a, b, c); break;
  }
}
