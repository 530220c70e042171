// Independent, plain reference implementations of the hash algorithms (byte-wise
// loads, no shared helpers with the library).
#ifndef VERIF_REF_HASH_H_
#define VERIF_REF_HASH_H_
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace ref {
using u8 = unsigned char;
using u64 = uint64_t;
using u128 = unsigned __int128;

struct H128 { u64 h1, h2; };

inline u64 Le(const std::string& s, size_t off, size_t n) {
  u64 r = 0;
  for (size_t i = 0; i < n; ++i) r |= static_cast<u64>(static_cast<u8>(s.at(off + i))) << (8 * i);
  return r;
}
inline u64 Rotl(u64 v, int n) { return (v << n) | (v >> (64 - n)); }
inline H128 Mul(u64 a, u64 b) { u128 p = static_cast<u128>(a) * b; return {static_cast<u64>(p), static_cast<u64>(p >> 64)}; }
inline u64 Mum(u64 a, u64 b) { H128 p = Mul(a, b); return p.h1 ^ p.h2; }
inline u64 Fmix(u64 k) {
  k ^= k >> 33; k *= 0xff51afd7ed558ccdULL;
  k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL;
  return k ^ (k >> 33);
}

// ---- MurmurHash3_x64_128 (A. Appleby), tail as in the published switch ----
inline H128 Murmur3(const std::string& s, u64 seed) {
  const u64 c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  u64 h1 = seed, h2 = seed;
  size_t len = s.size(), nb = len / 16;
  for (size_t i = 0; i < nb; ++i) {
    u64 k1 = Le(s, i * 16, 8), k2 = Le(s, i * 16 + 8, 8);
    k1 *= c1; k1 = Rotl(k1, 31); k1 *= c2; h1 ^= k1;
    h1 = Rotl(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
    k2 *= c2; k2 = Rotl(k2, 33); k2 *= c1; h2 ^= k2;
    h2 = Rotl(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
  }
  u64 k1 = 0, k2 = 0;
  size_t t = len & 15;
  for (size_t i = t; i > 8; --i) k2 ^= static_cast<u64>(static_cast<u8>(s[nb * 16 + i - 1])) << (8 * (i - 9));
  if (t > 8) { k2 *= c2; k2 = Rotl(k2, 33); k2 *= c1; h2 ^= k2; }
  for (size_t i = t > 8 ? 8 : t; i > 0; --i) k1 ^= static_cast<u64>(static_cast<u8>(s[nb * 16 + i - 1])) << (8 * (i - 1));
  if (t > 0) { k1 *= c1; k1 = Rotl(k1, 31); k1 *= c2; h1 ^= k1; }
  h1 ^= len; h2 ^= len;
  h1 += h2; h2 += h1;
  h1 = Fmix(h1); h2 = Fmix(h2);
  h1 += h2; h2 += h1;
  return {h1, h2};
}

// ---- FNV-1a 64 ----
inline u64 Fnv1a(const std::string& s, u64 h = 0xcbf29ce484222325ULL) {
  for (char c : s) { h ^= static_cast<u8>(c); h *= 1099511628211ULL; }
  return h;
}

// ---- SipHash-c-d (Aumasson, Bernstein) ----
inline u64 Sip(int c, int d, const std::string& s, u64 k0, u64 k1) {
  u64 v[4] = {k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
  auto round = [&] {
    v[0] += v[1]; v[2] += v[3];
    v[1] = Rotl(v[1], 13); v[3] = Rotl(v[3], 16);
    v[1] ^= v[0]; v[3] ^= v[2];
    v[0] = Rotl(v[0], 32);
    v[2] += v[1]; v[0] += v[3];
    v[1] = Rotl(v[1], 17); v[3] = Rotl(v[3], 21);
    v[1] ^= v[2]; v[3] ^= v[0];
    v[2] = Rotl(v[2], 32);
  };
  std::string m = s;
  while (m.size() % 8 != 7) m += '\0';
  m += static_cast<char>(s.size() & 0xff);
  for (size_t i = 0; i < m.size(); i += 8) {
    u64 w = Le(m, i, 8);
    v[3] ^= w;
    for (int r = 0; r < c; ++r) round();
    v[0] ^= w;
  }
  v[2] ^= 0xff;
  for (int r = 0; r < d; ++r) round();
  return v[0] ^ v[1] ^ v[2] ^ v[3];
}

// ---- rapidhash V3 (N. De Carli), default variant ----
inline u64 Rapid(const std::string& s, u64 seed) {
  static const u64 k[8] = {0x2d358dccaa6c78a5ULL, 0x8bb84b93962eacc9ULL, 0x4b33a62ed433d4a3ULL, 0x4d5a2da51de1aa47ULL,
                           0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x90ed1765281c388cULL, 0xaaaaaaaaaaaaaaaaULL};
  size_t len = s.size(), p = 0, i = len;
  seed ^= Mum(seed ^ k[2], k[1]);
  u64 a = 0, b = 0;
  if (len <= 16) {
    if (len >= 8) { seed ^= len; a = Le(s, 0, 8); b = Le(s, len - 8, 8); }
    else if (len >= 4) { seed ^= len; a = Le(s, 0, 4); b = Le(s, len - 4, 4); }
    else if (len > 0) { a = (Le(s, 0, 1) << 45) | Le(s, len - 1, 1); b = Le(s, len >> 1, 1); }
  } else {
    if (len > 112) {
      u64 v[7];
      for (u64& x : v) x = seed;
      // 7 lanes of 16 bytes per 112 byte block (the reference unrolls by two).
      while (i > 112) {
        for (int l = 0; l < 7; ++l) v[l] = Mum(Le(s, p + 16 * l, 8) ^ k[l], Le(s, p + 16 * l + 8, 8) ^ v[l]);
        p += 112; i -= 112;
      }
      seed = v[0] ^ v[1] ^ v[2] ^ v[3] ^ v[4] ^ v[5] ^ v[6];
    }
    static const int sec[6] = {2, 2, 1, 1, 2, 1};
    for (int l = 0; l < 6 && i > 16u * (l + 1); ++l) seed = Mum(Le(s, p + 16 * l, 8) ^ k[sec[l]], Le(s, p + 16 * l + 8, 8) ^ seed);
    a = Le(s, p + i - 16, 8) ^ i;
    b = Le(s, p + i - 8, 8);
  }
  a ^= k[1];
  b ^= seed;
  H128 m = Mul(a, b);
  return Mum(m.h1 ^ k[7], m.h2 ^ k[1] ^ i);
}

// ---- the in-house family ----
inline std::pair<u64, u64> Small(const std::string& s) {
  size_t n = s.size();
  auto c = [&](size_t i) { return static_cast<u64>(static_cast<u8>(s[i])); };
  switch (n) {
    case 0: return {0, 0};
    case 1: { u64 v = (c(0) << 45) + c(0); return {v, v}; }
    case 2: { u64 v = (c(0) << 45) | (c(1) << 8) | c(0); return {v, v}; }
    case 3: { u64 v = (c(0) << 45) | (c(1) << 8) | c(2); return {v, v}; }
    default: break;
  }
  if (n < 8) return {Le(s, 0, 4), Le(s, n - 4, 4)};
  return {Le(s, 0, 8), Le(s, n - 8, 8)};
}

inline const u64* MumboSecret() {
  // 64-bit fractional parts of the square roots of the first 16 primes.
  static const u64 k[16] = {
      0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F,
      0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179, 0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939,
      0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4};
  return k;
}
inline u64 MumboFin(u64 a, u64 b, u64 seed, u64 len) {
  const u64* k = MumboSecret();
  H128 p = Mul(a ^ k[2] ^ len, b ^ seed);
  return Mum(p.h1 ^ k[3] ^ len, p.h2 ^ k[1]);
}
inline u64 Mumbo64(const std::string& s, u64 seed) {
  const u64* k = MumboSecret();
  size_t n = s.size(), p = 0;
  seed = Mum(seed ^ k[0], k[1]);
  if (n <= 16) { auto [a, b] = Small(s); return MumboFin(a, b, seed, n); }
  if (n >= 128) {
    u64 acc = 0;
    for (int l = 0; l < 8; ++l) {
      u64 ch = seed ^ k[8 + l];
      for (size_t q = 0; q + 128 <= n; q += 128) ch = Mum(Le(s, q + 16 * l, 8) ^ k[4 + l], Le(s, q + 16 * l + 8, 8) ^ ch);
      acc ^= ch;
    }
    seed = acc;
    p = n / 128 * 128;
  }
  for (; n - p > 16; p += 16) seed = Mum(Le(s, p, 8) ^ k[1], Le(s, p + 8, 8) ^ seed);
  return MumboFin(Le(s, n - 16, 8), Le(s, n - 8, 8), seed, n);
}
inline H128 Mumbo128(const std::string& s, u64 seed) {
  const u64* k = MumboSecret();
  size_t n = s.size(), p = 0;
  u64 s1 = Mum(seed ^ k[2], k[3]), s2 = Mum(seed ^ k[8], k[9]);
  u64 a, b;
  if (n <= 16) {
    std::tie(a, b) = Small(s);
  } else {
    if (n >= 64) {
      u64 ch[4] = {s1 ^ k[8], s1 ^ k[9], s2 ^ k[10], s2 ^ k[11]};
      for (; p + 64 <= n; p += 64)
        for (int l = 0; l < 4; ++l) ch[l] = Mum(Le(s, p + 16 * l, 8) ^ k[4 + l], Le(s, p + 16 * l + 8, 8) ^ ch[l]);
      s1 = ch[0] ^ ch[1] ^ ch[2] ^ ch[3];
      s2 = Mum(ch[0] ^ k[12], ch[2] ^ k[13]) ^ Mum(ch[1] ^ k[14], ch[3] ^ k[15]);
    }
    for (; n - p > 16; p += 16) {
      u64 x = Le(s, p, 8), y = Le(s, p + 8, 8);
      s1 = Mum(x ^ k[1], y ^ s1);
      s2 = Mum(y ^ k[9], x ^ s2);
    }
    a = Le(s, n - 16, 8);
    b = Le(s, n - 8, 8);
  }
  H128 q = Mul(b ^ k[10] ^ n, a ^ s2);
  return {MumboFin(a, b, s1, n), Mum(q.h1 ^ k[11] ^ n, q.h2 ^ k[9])};
}

inline u64 Dumbo(const std::string& s, u64 seed) {
  const u64 W = 0xBB67AE8584CAA73BULL, S = 0x3C6EF372FE94F82BULL;
  u64 h = seed ^ 0x9E3779B97F4A7C15ULL;
  size_t p = 0, n = s.size();
  for (; n - p > 8; p += 8) h = Mum(Le(s, p, 8) ^ W, h ^ S);
  h = Mum(Le(s, p, n - p) ^ W, h ^ S);
  H128 q = Mul(h ^ W ^ n, seed ^ S);
  return Mum(q.h1 ^ S ^ n, q.h2 ^ W ^ seed);
}

inline u64 Fambo(const std::string& s, u64 seed) {
  const u64 k[4] = {0x6A09E667F3BCC909, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1};
  size_t n = s.size(), p = 0;
  seed ^= Mum(seed ^ k[0], k[1]);
  if (n <= 16) {
    auto [a, b] = Small(s);
    H128 q = Mul(a ^ k[2], b ^ seed);
    return Mum(q.h1 ^ k[1], q.h2 ^ n);
  }
  if (n >= 64) {
    u64 l[4] = {seed ^ n, seed, seed, seed};
    for (; p + 64 <= n; p += 64)
      for (int i = 0; i < 4; ++i) l[i] = Mum(Le(s, p + 16 * i, 8) ^ k[i], Le(s, p + 16 * i + 8, 8) ^ l[i]);
    seed = Mum(l[0] ^ l[1], l[2] ^ l[3]);
  }
  size_t r = n - p;
  const int sec[3] = {2, 1, 2};
  for (size_t i = 0; i < 3 && r > 16 * (i + 1); ++i) seed = Mum(Le(s, p + 16 * i, 8) ^ k[sec[i]], Le(s, p + 16 * i + 8, 8) ^ seed);
  H128 q = Mul(Le(s, n - 16, 8) ^ k[0], Le(s, n - 8, 8) ^ seed);
  return Mum(q.h1 ^ k[1], q.h2 ^ k[2] ^ r);
}

inline const u64* TemboSecret() {
  static const u64 k[40] = {
      0x6A09E667F3BCC909, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1,
      0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179, 0xCBBB9D5DC1059ED9, 0x629A292A367CD50D,
      0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7,
      0x14A21A297A13B45B, 0x27B70A8546A14091, 0x521A1A86A8D2A111, 0x913A17B805C42171, 0x9B1A28A61C2053E9,
      0xB8429B4D5D4E8193, 0xF3B971485906D9E7, 0x0283E1A639B0C399, 0x22ADCE0A2126AD69, 0x2C1014382DF863B7,
      0x4E74711D7B1B6195, 0x618E4E73A6C8BA15, 0x789230190539E111, 0x90993952D1FE8B05, 0xAF17E6B1D0E31C01,
      0xC7289568B309A239, 0xD3033F531B5467E3, 0xF1E2D75102AD2B89, 0x0A97E981D92C979D, 0x18FCD50B737A47B1,
      0x303E8AC7337B753D, 0x4DC3EF41539D2C3D, 0x643B2338A9C1B203, 0x43063A1D4EBB6BA5, 0x717316A3DF5D26E3};
  return k;
}
// Merge of the bulk lanes: even/odd accumulate separately; pairs of lanes are
// multiplied, a left-over enters by XOR.
inline u64 TemboMerge(std::vector<u64> l) {
  const u64* k = TemboSecret();
  size_t n = l.size();
  if (n == 2) return Mum(l[0], l[1]);
  if (n == 3) return Mum(l[0] ^ l[2], l[1]);
  if (n == 4) return Mum(l[0] ^ l[2], l[1] ^ l[3]);
  // Lane counts 8, 12 and 16 are padded with one constant.
  if (n == 8) l.push_back(k[3]);
  if (n == 12) l.push_back(k[2]);
  if (n == 16) l.push_back(k[1]);
  std::vector<u64> ev, od;
  for (size_t i = 0; i < l.size(); ++i) (i % 2 ? od : ev).push_back(l[i]);
  if (l.size() == 9) { od.push_back(ev.back()); ev.pop_back(); }  // 9th operand joins the odd side
  auto fold = [](const std::vector<u64>& v, size_t first_pairs) {
    u64 r = 0;
    size_t i = 0;
    for (; i + 1 < v.size() && first_pairs > 0; i += 2, --first_pairs) r ^= Mum(v[i], v[i + 1]);
    for (; i < v.size(); ++i) r ^= v[i];
    return r;
  };
  size_t pe = ev.size() / 2, po = od.size() / 2;
  if (l.size() == 5) po = 0;          // {l0*l2 ^ l4, l1 ^ l3}
  if (l.size() == 9) po = 2;          // {.., l1*l3 ^ l5*l7 ^ v8}
  return Mum(fold(ev, pe), fold(od, po));
}
inline u64 Tembo(int L, int C, bool init, const std::string& s, u64 seed) {
  const u64* k = TemboSecret();
  size_t n = s.size(), p = 0, W = 16 * L;
  seed ^= Mum(seed ^ k[0], k[1]);
  if (n <= 16) {
    auto [a, b] = Small(s);
    H128 q = Mul(a ^ k[2], b ^ seed);
    return Mum(q.h1 ^ k[3 % C], q.h2 ^ n);
  }
  if (n >= W) {
    std::vector<u64> l(L, seed);
    l[0] ^= n;
    if (init) for (int i = 0; i < L; ++i) l[i] ^= k[(2 * L + i) % C];
    for (; p + W <= n; p += W)
      for (int i = 0; i < L; ++i) l[i] = Mum(Le(s, p + 16 * i, 8) ^ k[i % C], Le(s, p + 16 * i + 8, 8) ^ l[i]);
    seed = TemboMerge(l);
  }
  size_t r = n - p;
  for (int i = 0; i < (L > 2 ? L - 1 : 1) && r > 16u * (i + 1); ++i) {
    int off = i == 0 ? 2 : i == 2 ? 0 : i;
    seed = Mum(Le(s, p + 16 * i, 8) ^ k[(L + off) % C], Le(s, p + 16 * i + 8, 8) ^ seed);
  }
  H128 q = Mul(Le(s, n - 16, 8) ^ k[0], Le(s, n - 8, 8) ^ seed);
  return Mum(q.h1 ^ k[1], q.h2 ^ k[2] ^ r);
}
}  // namespace ref
#endif
