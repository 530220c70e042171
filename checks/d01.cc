// D01: one-shot digests equal the standards.
#include "digest_common.h"
#define RULE "message length biased to block/padding borders and BLAKE3 chunk-tree shapes (up to 36 KiB), random bytes, exact heap buffer; digest, DigestType size and hex rendering compared with OpenSSL / LLVM BLAKE3 / RFC 7693; non-trivial: at least 1 byte"
template<typename A> static void Run(pbt::Src& src, RefFn ref) {
  size_t n = MsgLen(src, A::kBlockSize);
  std::string s = src.Blob(n);
  Exact e(s, src.Draw(7));
  PBT_NOTE("len=" << n << (n < 64 ? " " + pbt::Hex(s) : std::string()));
  src.Label(LenLabel(n));
  if (n) src.NonTrivial();
  auto got = A::Digest(e.view());
  std::string want = ref(s);
  static_assert(sizeof(got) == A::kDigestSize);
  PBT_EQ(pbt::Hex(ref::S(got)), pbt::Hex(want), "one-shot digest, len " << n);
  PBT_EQ(md::ToHexString(got), ref::HexOf(want), "hex rendering");
  PBT_CHECK(e.view() == s, "input modified");
}
#define X(NAME, ALGO, REF) PBT_PROP(NAME, 30000, 800000, RULE) { Run<ALGO>(src, [](std::string_view d) -> std::string { return REF; }); }
DIGEST_ALGOS(X)
#undef X
// The free functions of each namespace are the same functions.
PBT_PROP(free_functions, 16000, 400000, "every namespace's free Digest function against its Algorithm; non-trivial: at least 1 byte") {
  std::string s = src.Blob(MsgLen(src, 64));
  if (!s.empty()) src.NonTrivial();
  PBT_NOTE("len=" << s.size());
#define F(NS) PBT_EQ(pbt::Hex(ref::S(md::NS::Digest(s))), pbt::Hex(ref::S(md::NS::Algorithm::Digest(s))), #NS)
  F(md5); F(sha1); F(sha224); F(sha256); F(sha384); F(sha512); F(sha512_224); F(sha512_256);
  F(sha3_224); F(sha3_256); F(sha3_384); F(sha3_512); F(blake2b); F(blake2b_256); F(blake3);
}
PBT_PROP(hex, 100000, 1000000, "arrays of random bytes (1, 7, 20 and 64 bytes) rendered as lower-case hex; always non-trivial") {
  src.NonTrivial();
  auto go = [&]<size_t N>(std::array<uint8_t, N> a) {
    std::string b = src.RawBytes(N);
    b.resize(N, '\xF0');
    std::memcpy(a.data(), b.data(), N);
    PBT_EQ(md::ToHexString(a), ref::HexOf(b), "hex");
  };
  switch (src.Draw(3)) {
    case 0: go(std::array<uint8_t, 1>{}); break;
    case 1: go(std::array<uint8_t, 7>{}); break;
    case 2: go(std::array<uint8_t, 20>{}); break;
    default: go(std::array<uint8_t, 64>{}); break;
  }
}
// The oracle validates itself: RFC 7693 transcription vs OpenSSL.
PBT_PROP(oracle_blake2b, 20000, 100000, "RFC 7693 transcription vs OpenSSL BLAKE2b-512 (self-check of the oracle)") {
  std::string s = src.Blob(MsgLen(src, 128));
  if (!s.empty()) src.NonTrivial();
  PBT_CHECK(ref::Blake2b(64, "", s) == ref::Evp("BLAKE2B-512", s), "oracle disagreement");
}
