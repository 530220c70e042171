#ifndef VERIF_HASH_COMMON_H_
#define VERIF_HASH_COMMON_H_
#include <cstring>
#include <memory>
#include <string>
#include <string_view>

#include "pbt.h"

// Length distribution covering every tier boundary of the algorithms.
inline size_t HashLen(pbt::Src& src) {
  switch (src.Weighted({30, 30, 20, 15, 5})) {
    case 0: return src.Draw(40);
    case 1: return src.Draw(300);
    case 2: {  // around block multiples
      static const size_t base[] = {16, 32, 64, 112, 128, 224, 240, 256, 512, 1024, 2048};
      size_t b = base[src.Draw(10)] * (1 + src.Draw(3));
      size_t d = src.Draw(34);
      return b + d > 17 ? b + d - 17 : 0;
    }
    case 3: return src.Draw(2100);
    default: return src.Draw(9000);
  }
}

// Bytes placed in an exactly sized heap buffer (ASan catches over-reads) at a
// chosen alignment.
class Exact {
 public:
  Exact(std::string_view s, size_t align) : n_(s.size()), off_(align) {
    buf_.reset(new char[off_ + n_]);
    std::memset(buf_.get(), 0xA5, off_);
    if (n_) std::memcpy(buf_.get() + off_, s.data(), n_);
  }
  std::string_view view() const { return {buf_.get() + off_, n_}; }

 private:
  size_t n_, off_;
  std::unique_ptr<char[]> buf_;
};

inline const char* LenLabel(size_t n) {
  return n == 0 ? "len=0" : n <= 16 ? "len<=16" : n < 64 ? "len<64" : n < 128 ? "len<128" : n <= 240 ? "len<=240" : n <= 1024 ? "len<=1024" : "len>1024";
}
#endif
