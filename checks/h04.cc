// H04: streaming = one shot, for every chunking and every interleaving of
// update / finalize / copy / restart.
#include "hash_common.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
namespace mh = mbo::hash;
#define RULE "history of 1..24 operations (update chunk of skewed size and alignment, peek, copy-construct, copy-assign, restart) over up to 3 streams; non-trivial: at least 2 non-empty updates and a total over 16 bytes"

template<typename Algo>
static void Run(pbt::Src& src) {
  struct S { typename Algo::StreamState st; mh::Streamer<Algo> str; std::string model; uint64_t seed; };
  std::vector<S> streams;
  auto fresh = [&](uint64_t seed) { return S{Algo::StreamInit(seed), mh::Streamer<Algo>(seed), "", seed}; };
  if (src.Chance(1, 4)) streams.push_back(S{Algo::StreamInit(mh::kDefaultSeed), mh::Streamer<Algo>(), "", mh::kDefaultSeed});
  else streams.push_back(fresh(src.U64()));
  size_t big = src.Draw(3);
  size_t ops = 1 + src.Draw(23), upd = 0, total = 0;
  auto check = [&](const S& s, const char* what) {
    uint64_t want = Algo::GetHash64(std::string_view(s.model), s.seed);
    PBT_EQ(Algo::StreamFinalize(s.st), want, what << " state, len " << s.model.size());
    PBT_EQ(s.str.Finalize(), want, what << " Streamer, len " << s.model.size());
  };
  for (size_t i = 0; i < ops; ++i) {
    size_t k = src.Draw(streams.size() - 1);
    switch (src.Weighted({12, 3, 2, 1, 1})) {
      case 0: {
        size_t n = 0;
        switch (src.Draw(4)) {
          case 0: n = src.Draw(17); break;
          case 1: n = src.Draw(40); break;
          case 2: { static const size_t b[] = {7, 8, 15, 16, 31, 32, 33, 64, 112, 127, 128, 129, 256}; n = b[src.Draw(12)]; break; }
          case 3: n = src.Draw(150); break;
          default: n = src.Draw(big == 3 ? 1500 : 300); break;
        }
        std::string c = src.Blob(n);
        Exact e(c, src.Draw(7));
        PBT_NOTE("stream " << k << ": update " << n << " bytes at total " << streams[k].model.size());
        Algo::StreamUpdate(streams[k].st, e.view());
        auto& r = streams[k].str.Update(e.view());
        PBT_CHECK(&r == &streams[k].str, "Update returns *this");
        streams[k].model += c;
        if (n) { ++upd; total += n; } else src.Label("empty chunk");
        break;
      }
      case 1: PBT_NOTE("peek " << k); src.Label("peek"); check(streams[k], "peek"); break;
      case 2:
        if (streams.size() < 3) { PBT_NOTE("copy " << k); src.Label("copy"); S s2 = streams[k]; streams.push_back(s2); }
        break;
      case 3: {
        size_t j = src.Draw(streams.size() - 1);
        PBT_NOTE("assign " << k << " = " << j);
        if (j != k) { src.Label("assign"); S tmp = streams[j]; streams[k] = tmp; }
        break;
      }
      default: PBT_NOTE("restart " << k); src.Label("restart"); streams[k] = fresh(src.U64()); break;
    }
  }
  for (const S& s : streams) { src.Label(LenLabel(s.model.size())); check(s, "final"); }
  if (upd >= 2 && total > 16) src.NonTrivial();
}
PBT_PROP(mumbo, 300000, 5000000, RULE) { Run<mh::mumbo::Algorithm>(src); }
PBT_PROP(jumbo, 60000, 500000, RULE) { Run<mh::jumbo::Algorithm>(src); }
PBT_PROP(siphash, 200000, 3000000, RULE) { Run<mh::siphash::Algorithm>(src); }
PBT_PROP(xxh64, 300000, 4000000, RULE) { Run<mh::xxh64::Algorithm>(src); }
// Two-way split at every position of a random message.
template<typename Algo> static void Splits(pbt::Src& src) {
  std::string s = src.Blob(src.Draw(420));
  uint64_t seed = src.U64();
  uint64_t want = Algo::GetHash64(std::string_view(s), seed);
  PBT_NOTE("len=" << s.size() << " seed=" << seed);
  for (size_t i = 0; i <= s.size(); ++i) {
    auto st = Algo::StreamInit(seed);
    Algo::StreamUpdate(st, std::string_view(s).substr(0, i));
    Algo::StreamUpdate(st, std::string_view(s).substr(i));
    PBT_EQ(Algo::StreamFinalize(st), want, "split at " << i);
  }
  if (s.size() > 1) src.NonTrivial();
}
#define RULE2 "message of 0..420 bytes, all two-way splits of each; non-trivial: 2 bytes or more"
PBT_PROP(splits_mumbo, 4000, 60000, RULE2) { Splits<mh::mumbo::Algorithm>(src); }
PBT_PROP(splits_siphash, 3000, 60000, RULE2) { Splits<mh::siphash::Algorithm>(src); }
PBT_PROP(splits_xxh64, 4000, 60000, RULE2) { Splits<mh::xxh64::Algorithm>(src); }
