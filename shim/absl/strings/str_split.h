#pragma once
#include <algorithm>
#include <array>
#include <initializer_list>
#include <iterator>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
class ByString {
 public:
  explicit ByString(std::string_view s) : d_(s) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    if (d_.size() == 0) {  // splits after each character
      if (text.empty() && pos == 0) return text.substr(0, 0);
      if (pos + 1 >= text.size()) return std::string_view(text.data() + text.size(), 0);
      return text.substr(pos + 1, 0);
    }
    std::size_t at = text.find(d_, pos);
    if (at == text.npos) return std::string_view(text.data() + text.size(), 0);
    return text.substr(at, d_.size());
  }

 private:
  std::string d_;
};
class ByChar {
 public:
  explicit ByChar(char c) : c_(c) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    std::size_t at = text.find(c_, pos);
    if (at == text.npos) return std::string_view(text.data() + text.size(), 0);
    return text.substr(at, 1);
  }

 private:
  char c_;
};
using ByAsciiWhitespaceBase = ByChar;
class ByAnyChar {
 public:
  explicit ByAnyChar(std::string_view s) : d_(s) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    if (d_.empty()) return ByString("").Find(text, pos);
    std::size_t at = text.find_first_of(d_, pos);
    if (at == text.npos) return std::string_view(text.data() + text.size(), 0);
    return text.substr(at, 1);
  }

 private:
  std::string d_;
};
class ByAsciiWhitespace {
 public:
  std::string_view Find(std::string_view text, std::size_t pos) const { return ByAnyChar(" \t\v\f\r\n").Find(text, pos); }
};
class ByLength {
 public:
  explicit ByLength(std::ptrdiff_t n) : n_(n) {}
  std::string_view Find(std::string_view text, std::size_t pos) const {
    pos = std::min(pos, text.size());
    std::string_view sub = text.substr(pos);
    if (sub.size() <= std::size_t(n_)) return std::string_view(text.data() + text.size(), 0);
    return std::string_view(sub.data() + n_, 0);
  }

 private:
  std::ptrdiff_t n_;
};
namespace strings_internal {
template<typename D>
class MaxSplitsImpl {
 public:
  MaxSplitsImpl(D d, int limit) : d_(std::move(d)), limit_(limit) {}
  std::string_view Find(std::string_view text, std::size_t pos) {
    if (count_++ == limit_) return std::string_view(text.data() + text.size(), 0);
    return d_.Find(text, pos);
  }

 private:
  D d_;
  int limit_, count_ = 0;
};
template<typename D> struct SelectDelimiter { using type = D; };
template<> struct SelectDelimiter<char> { using type = ByChar; };
template<> struct SelectDelimiter<const char*> { using type = ByString; };
template<> struct SelectDelimiter<char*> { using type = ByString; };
template<> struct SelectDelimiter<std::string> { using type = ByString; };
template<> struct SelectDelimiter<std::string_view> { using type = ByString; };
}  // namespace strings_internal
template<typename D> auto MaxSplits(D d, int limit) {
  using T = typename strings_internal::SelectDelimiter<std::decay_t<D>>::type;
  return strings_internal::MaxSplitsImpl<T>(T(d), limit);
}
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
namespace strings_internal {
template<typename T> concept HasValueType = requires { typename T::value_type; typename T::iterator; };
template<typename T> concept HasMapped = requires { typename T::mapped_type; };
template<typename D, typename P>
class Splitter {
 public:
  // `own` keeps the text alive when a temporary std::string was split.
  Splitter(std::string_view text, D d, P p, bool own) : own_(own ? std::string(text) : std::string()), owns_(own), view_(text), d_(std::move(d)), p_(std::move(p)) {}
  class const_iterator {
   public:
    using iterator_category = std::input_iterator_tag;
    using value_type = std::string_view;
    using difference_type = std::ptrdiff_t;
    using pointer = const value_type*;
    using reference = const value_type&;
    const_iterator(const Splitter* s, bool end) : s_(s), d_(s->d_), p_(s->p_), state_(end ? kEnd : kInit) {
      if (end) { pos_ = text().size(); return; }
      if (text().data() == nullptr) { state_ = kEnd; pos_ = text().size(); } else { ++*this; }
    }
    reference operator*() const { return cur_; }
    pointer operator->() const { return &cur_; }
    const_iterator& operator++() {
      do {
        if (state_ == kLast) { state_ = kEnd; return *this; }
        std::string_view t = text();
        std::string_view d = d_.Find(t, pos_);
        if (d.data() == t.data() + t.size()) state_ = kLast;
        cur_ = t.substr(pos_, d.data() - (t.data() + pos_));
        pos_ += cur_.size() + d.size();
      } while (!p_(cur_));
      return *this;
    }
    const_iterator operator++(int) { auto r = *this; ++*this; return r; }
    bool operator==(const const_iterator& o) const { return state_ == o.state_ && pos_ == o.pos_; }

   private:
    enum State { kInit, kLast, kEnd };
    std::string_view text() const { return s_->text(); }
    const Splitter* s_;
    mutable D d_;
    P p_;
    std::size_t pos_ = 0;
    State state_;
    std::string_view cur_;
  };
  using iterator = const_iterator;
  using value_type = std::string_view;
  const_iterator begin() const { return {this, false}; }
  const_iterator end() const { return {this, true}; }
  std::string_view text() const { return owns_ ? std::string_view(own_) : view_; }
  template<typename C> requires(HasValueType<C> && !HasMapped<C> && !std::is_same_v<std::decay_t<C>, std::string_view> && !std::is_same_v<std::decay_t<C>, std::string> && std::is_constructible_v<typename C::value_type, std::string_view>)
  operator C() const {  // NOLINT
    C c;
    for (auto it = begin(); it != end(); ++it) c.insert(c.end(), typename C::value_type(*it));
    return c;
  }
  template<typename C> requires(HasValueType<C> && HasMapped<C>)
  operator C() const {  // NOLINT
    C c;
    for (auto it = begin(); it != end();) {
      auto k = typename C::key_type(*it);
      ++it;
      if (it != end()) { c.emplace(std::move(k), typename C::mapped_type(*it)); ++it; } else { c.emplace(std::move(k), typename C::mapped_type{}); }
    }
    return c;
  }
  template<typename A, typename B> operator std::pair<A, B>() const {  // NOLINT
    std::string_view a, b;
    auto it = begin();
    if (it != end()) { a = *it; if (++it != end()) b = *it; }
    return {A(a), B(b)};
  }
  template<typename T, std::size_t N> operator std::array<T, N>() const {  // NOLINT
    std::array<T, N> r{};
    auto it = begin();
    for (std::size_t i = 0; i < N && it != end(); ++i, ++it) r[i] = T(*it);
    return r;
  }

 private:
  std::string own_;
  bool owns_;
  std::string_view view_;
  D d_;
  P p_;
};
template<typename T> inline constexpr bool kOwn = std::is_same_v<T, std::string>;  // rvalue std::string
}  // namespace strings_internal
// The text as deduced: an rvalue std::string is kept, everything else viewed.
template<typename T, typename D, typename P> auto StrSplit(T&& text, D d, P p) {
  using DT = typename strings_internal::SelectDelimiter<std::decay_t<D>>::type;
  return strings_internal::Splitter<DT, P>(std::string_view(text), DT(d), std::move(p), strings_internal::kOwn<T>);
}
template<typename T, typename D> auto StrSplit(T&& text, D d) { return StrSplit(std::forward<T>(text), std::move(d), AllowEmpty()); }
}  // namespace absl
