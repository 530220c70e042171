// T06 run-time half: TypedView over random view pipelines, Overloaded dispatch.
#include <algorithm>
#include <iterator>
#include <ranges>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>

#include "pbt.h"
#include "mbo/types/typed_view.h"
#include "mbo/types/variant.h"

namespace {

template<typename View>
void Compare(pbt::Src& src, View view, const std::vector<int>& want, const char* what) {
  const mbo::types::TypedView<View> tv(std::move(view));
  static_assert(std::is_same_v<typename mbo::types::TypedView<View>::value_type, int>);
  std::vector<int> got(tv.begin(), tv.end());
  PBT_EQ(got, want);
  std::vector<int> ranged;
  for (int v : tv) ranged.push_back(v);
  PBT_EQ(ranged, want);
  PBT_EQ(tv.empty(), want.empty());
  if constexpr (requires { tv.size(); }) PBT_EQ(static_cast<std::size_t>(tv.size()), want.size());
  if (!want.empty()) {
    PBT_EQ(tv.front(), want.front());
    if constexpr (requires { tv[0]; }) {
      const std::size_t p = src.Draw(want.size() - 1);
      PBT_EQ(tv[static_cast<std::ptrdiff_t>(p)], want[p]);
    }
    if constexpr (requires { tv.back(); }) PBT_EQ(tv.back(), want.back());
  }
  (void)what;
}

}  // namespace

PBT_PROP(typed_view, 30000, 300000, "random vectors seen through take/drop/transform/reverse/iota/ref pipelines; non-trivial: non-empty result") {
  std::vector<int> data(src.SkewSize(12));
  for (int& v : data) v = static_cast<int>(src.Draw(20)) - 10;
  const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(src.Draw(14));
  const auto f = [](int v) { return v * 3 + 1; };
  std::vector<int> want;
  const int kind = static_cast<int>(src.Draw(6));
  src.Label("kind " + std::to_string(kind));
  switch (kind) {
    case 0: want = data; break;
    case 1: for (std::ptrdiff_t i = 0; i < n && i < std::ssize(data); ++i) want.push_back(data[i]); break;
    case 2: for (std::ptrdiff_t i = n; i < std::ssize(data); ++i) want.push_back(data[i]); break;
    case 3: for (int v : data) want.push_back(f(v)); break;
    case 4: want.assign(data.rbegin(), data.rend()); break;
    case 5: for (int i = 0; i < n; ++i) want.push_back(i - 3); break;
    default: for (std::ptrdiff_t i = std::min<std::ptrdiff_t>(n, std::ssize(data)); i-- > 0;) want.push_back(f(data[i])); break;
  }
  if (!want.empty()) src.NonTrivial();
  PBT_NOTE("kind=" << kind << " n=" << n << " data=" << pbt::Show(data));
  switch (kind) {
    case 0: Compare(src, std::views::all(data), want, "all"); break;
    case 1: Compare(src, data | std::views::take(n), want, "take"); break;
    case 2: Compare(src, data | std::views::drop(n), want, "drop"); break;
    case 3: Compare(src, data | std::views::transform(f), want, "transform"); break;
    case 4: Compare(src, data | std::views::reverse, want, "reverse"); break;
    case 5: Compare(src, std::views::iota(-3, static_cast<int>(n) - 3), want, "iota"); break;
    default: Compare(src, data | std::views::take(n) | std::views::reverse | std::views::transform(f), want, "pipe"); break;
  }
}

PBT_PROP(overloaded, 20000, 100000, "random variant alternatives visited through Overloaded; non-trivial: not the first alternative") {
  std::variant<int, std::string, double, char> v;
  const int k = static_cast<int>(src.Draw(3));
  if (k == 0) v = 7; else if (k == 1) v = std::string("s"); else if (k == 2) v = 1.5; else v = 'c';
  if (k) src.NonTrivial();
  const int got = std::visit(mbo::types::Overloaded{[](int) { return 0; }, [](const std::string&) { return 1; }, [](double) { return 2; }, [](char) { return 3; }}, v);
  PBT_EQ(got, k);
}
