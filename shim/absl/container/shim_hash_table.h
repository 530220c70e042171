#pragma once
// An open-addressing table with the observable traits of Abseil's flat tables:
// elements live in one array that is reallocated when the table grows (so a kept
// reference dangles, which AddressSanitizer then sees), and the iteration order
// is unspecified (it depends on the table, not only on its content).
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include "absl/hash/hash.h"
namespace absl::shim {
template<typename T> inline constexpr bool kStringLike = std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>;
struct StringHash {
  using is_transparent = void;
  std::size_t operator()(std::string_view s) const { return HashOf(s); }
};
struct StringEq {
  using is_transparent = void;
  bool operator()(std::string_view a, std::string_view b) const { return a == b; }
};
template<typename K> using DefaultHash = std::conditional_t<kStringLike<K>, StringHash, Hash<K>>;
template<typename K> using DefaultEq = std::conditional_t<kStringLike<K>, StringEq, std::equal_to<K>>;
inline std::size_t NextSalt() { static thread_local std::size_t s = 0; return s += 0x9E3779B97F4A7C15ULL; }

// V: stored value type; K: key type; KeyOf: V -> const K&; kNode: stable addresses.
template<typename V, typename K, typename KeyOf, typename H, typename E, bool kNode>
class Table {
  struct Slot {
    V* p = nullptr;
    bool dead = false;  // erased: a lookup goes on past it
  };

 public:
  using key_type = K;
  using value_type = V;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using hasher = H;
  using key_equal = E;
  using reference = V&;
  using const_reference = const V&;
  using pointer = V*;
  using const_pointer = const V*;
  using allocator_type = std::allocator<V>;
  template<typename R> class It {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = V;
    using difference_type = std::ptrdiff_t;
    using pointer = R*;
    using reference = R&;
    It() = default;
    It(Slot* p, Slot* e) : p_(p), e_(e) { Skip(); }
    template<typename R2> requires(!std::is_same_v<R, R2> && std::is_const_v<R>) It(const It<R2>& o) : p_(o.p_), e_(o.e_) {}  // NOLINT
    R& operator*() const { return *p_->p; }
    R* operator->() const { return p_->p; }
    It& operator++() { ++p_; Skip(); return *this; }
    It operator++(int) { It r = *this; ++*this; return r; }
    friend bool operator==(const It& a, const It& b) { return a.p_ == b.p_; }

   private:
    friend class Table;
    template<typename> friend class It;
    void Skip() { while (p_ != e_ && !p_->p) ++p_; }
    Slot* p_ = nullptr;
    Slot* e_ = nullptr;
  };
  using iterator = It<std::conditional_t<std::is_same_v<V, K>, const V, V>>;
  using const_iterator = It<const V>;

  Table() = default;
  explicit Table(size_type n) { reserve(n); }
  template<std::input_iterator I> Table(I b, I e) { insert(b, e); }
  Table(std::initializer_list<V> l) { insert(l.begin(), l.end()); }
  Table(const Table& o) : h_(o.h_), e_(o.e_) { for (auto& v : o) insert(v); }
  Table(Table&& o) noexcept { swap(o); }
  Table& operator=(const Table& o) { if (this != &o) { Table t(o); swap(t); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { Table t(std::move(o)); swap(t); } return *this; }
  Table& operator=(std::initializer_list<V> l) { Table t(l); swap(t); return *this; }
  ~Table() { Drop(); }
  void swap(Table& o) noexcept {
    std::swap(slots_, o.slots_);
    std::swap(data_, o.data_);
    std::swap(cap_, o.cap_);
    std::swap(n_, o.n_);
    std::swap(salt_, o.salt_);
    std::swap(h_, o.h_);
    std::swap(e_, o.e_);
  }
  friend void swap(Table& a, Table& b) noexcept { a.swap(b); }
  bool empty() const { return n_ == 0; }
  size_type size() const { return n_; }
  size_type max_size() const { return size_type(1) << 40; }
  size_type capacity() const { return cap_; }
  size_type bucket_count() const { return cap_; }
  iterator begin() { return {slots_, slots_ + cap_}; }
  iterator end() { return {slots_ + cap_, slots_ + cap_}; }
  const_iterator begin() const { return {slots_, slots_ + cap_}; }
  const_iterator end() const { return {slots_ + cap_, slots_ + cap_}; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  void clear() { Drop(); }
  void reserve(size_type n) { if (n * 2 > cap_) Grow(n * 2); }
  void rehash(size_type n) { Grow(n < n_ * 2 ? n_ * 2 : n); }
  template<typename Q = K> iterator find(const Q& k) { return At(Find(k)); }
  template<typename Q = K> const_iterator find(const Q& k) const { auto i = Find(k); return {slots_ + i, slots_ + cap_}; }
  template<typename Q = K> bool contains(const Q& k) const { return Find(k) != cap_; }
  template<typename Q = K> size_type count(const Q& k) const { return contains(k); }
  template<typename Q = K> std::pair<iterator, iterator> equal_range(const Q& k) { auto i = find(k), j = i; if (j != end()) ++j; return {i, j}; }
  std::pair<iterator, bool> insert(const V& v) { return Emplace(KeyOf()(v), v); }
  std::pair<iterator, bool> insert(V&& v) { return Emplace(KeyOf()(v), std::move(v)); }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  template<std::input_iterator I> void insert(I b, I e) { for (; b != e; ++b) emplace(*b); }
  void insert(std::initializer_list<V> l) { insert(l.begin(), l.end()); }
  template<typename... A> std::pair<iterator, bool> emplace(A&&... a) { V v(std::forward<A>(a)...); return Emplace(KeyOf()(v), std::move(v)); }
  template<typename... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  void erase(const_iterator it) { EraseSlot(it.p_); }
  void erase(iterator it) requires(!std::is_same_v<iterator, const_iterator>) { EraseSlot(it.p_); }
  iterator erase(const_iterator b, const_iterator e) { while (b != e) { auto c = b++; EraseSlot(c.p_); } return {e.p_, slots_ + cap_}; }
  template<typename Q = K> requires(!std::is_convertible_v<Q, const_iterator> && !std::is_convertible_v<Q, iterator>) size_type erase(const Q& k) { auto i = Find(k); if (i == cap_) return 0; EraseSlot(slots_ + i); return 1; }
  hasher hash_function() const { return h_; }
  key_equal key_eq() const { return e_; }
  allocator_type get_allocator() const { return {}; }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.n_ != b.n_) return false;
    for (auto& v : a) { auto it = b.find(KeyOf()(v)); if (it == b.end() || !(*it == v)) return false; }
    return true;
  }
  template<typename HS> friend HS AbslHashValue(HS h, const Table& t) { return HS::combine_unordered(std::move(h), t.begin(), t.end()); }

 protected:
  iterator At(std::size_t i) { return {slots_ + i, slots_ + cap_}; }
  template<typename Q> std::size_t Find(const Q& k) const {
    if (!cap_) return cap_;
    const std::size_t start = Home(k);
    for (std::size_t j = 0; j < cap_; ++j) {
      const std::size_t i = (start + j) & (cap_ - 1);
      if (slots_[i].p && e_(KeyOf()(*slots_[i].p), k)) return i;
      if (!slots_[i].p && !slots_[i].dead) return cap_;
    }
    return cap_;
  }
  template<typename Q, typename... A> std::pair<iterator, bool> Emplace(const Q& k, A&&... a) {
    if (auto i = Find(k); i != cap_) return {At(i), false};
    if ((n_ + 1) * 2 > cap_) {
      // `k` or `a` may refer into this table: keep the old array until done.
      Table old;
      old.swap_storage(*this);
      Allocate(old.cap_ ? old.cap_ * 2 : 4);
      auto i = Place(Home(k), std::forward<A>(a)...);
      for (std::size_t s = 0; s < old.cap_; ++s) if (old.slots_[s].p) Adopt(old.slots_[s]);
      old.n_ = 0;
      return {At(i), true};
    }
    return {At(Place(Home(k), std::forward<A>(a)...)), true};
  }

 private:
  template<typename Q> std::size_t Home(const Q& k) const {
    std::size_t h = h_(k) ^ salt_;
    h *= 0xBF58476D1CE4E5B9ULL;
    return (h ^ (h >> 31)) & (cap_ - 1);
  }
  void Allocate(std::size_t cap) {
    salt_ = NextSalt();
    cap_ = cap;
    slots_ = new Slot[cap]();
    if constexpr (!kNode) data_ = std::allocator<V>().allocate(cap);
    n_ = 0;
  }
  template<typename... A> std::size_t Place(std::size_t i, A&&... a) {
    while (slots_[i].p) i = (i + 1) & (cap_ - 1);
    if constexpr (kNode) slots_[i].p = new V(std::forward<A>(a)...); else { new (static_cast<void*>(data_ + i)) V(std::forward<A>(a)...); slots_[i].p = data_ + i; }
    ++n_;
    return i;
  }
  void Adopt(Slot& s) {
    std::size_t i = Home(KeyOf()(*s.p));
    if constexpr (kNode) {
      while (slots_[i].p) i = (i + 1) & (cap_ - 1);
      slots_[i].p = s.p;
      ++n_;
    } else {
      Place(i, std::move(*s.p));
      s.p->~V();
    }
    s.p = nullptr;
  }
  void Grow(std::size_t want) {
    std::size_t cap = 4;
    while (cap < want) cap *= 2;
    if (cap <= cap_) return;
    Table old;
    old.swap_storage(*this);
    Allocate(cap);
    for (std::size_t s = 0; s < old.cap_; ++s) if (old.slots_[s].p) Adopt(old.slots_[s]);
    old.n_ = 0;
  }
  void swap_storage(Table& o) { std::swap(slots_, o.slots_); std::swap(data_, o.data_); std::swap(cap_, o.cap_); std::swap(n_, o.n_); std::swap(salt_, o.salt_); }
  void Kill(Slot& s) { if constexpr (kNode) delete s.p; else s.p->~V(); s.p = nullptr; }
  void EraseSlot(Slot* s) {
    Kill(*s);
    s->dead = true;
    --n_;
  }
  void Drop() {
    for (std::size_t i = 0; i < cap_; ++i) if (slots_[i].p) Kill(slots_[i]);
    delete[] slots_;
    if constexpr (!kNode) if (data_) std::allocator<V>().deallocate(data_, cap_);
    slots_ = nullptr;
    data_ = nullptr;
    cap_ = n_ = 0;
  }
  Slot* slots_ = nullptr;
  V* data_ = nullptr;
  std::size_t cap_ = 0, n_ = 0, salt_ = 0;
  [[no_unique_address]] H h_;
  [[no_unique_address]] E e_;
};
template<typename K, typename M> struct MapKey { const K& operator()(const std::pair<const K, M>& v) const { return v.first; } template<typename P> const auto& operator()(const P& v) const { return v.first; } };
template<typename K> struct SetKey { const K& operator()(const K& k) const { return k; } };

template<typename K, typename M, typename H, typename E, bool kNode>
class HashMap : public Table<std::pair<const K, M>, K, MapKey<K, M>, H, E, kNode> {
  using B = Table<std::pair<const K, M>, K, MapKey<K, M>, H, E, kNode>;

 public:
  using mapped_type = M;
  using typename B::iterator;
  using typename B::const_iterator;
  using B::B;
  HashMap() = default;
  HashMap& operator=(std::initializer_list<std::pair<const K, M>> l) { B::operator=(l); return *this; }
  template<typename Q = K, typename... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    return this->Emplace(k, std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...));
  }
  template<typename Q = K, typename V2> std::pair<iterator, bool> insert_or_assign(Q&& k, V2&& v) {
    auto r = try_emplace(std::forward<Q>(k), std::forward<V2>(v));
    if (!r.second) r.first->second = std::forward<V2>(v);
    return r;
  }
  template<typename Q = K> M& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  M& operator[](const K& k) { return try_emplace(k).first->second; }
  template<typename Q = K> M& at(const Q& k) { auto it = this->find(k); if (it == this->end()) Bad(); return it->second; }
  template<typename Q = K> const M& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) Bad(); return it->second; }

 private:
  [[noreturn]] static void Bad() { std::fprintf(stderr, "absl: map at(): key not found\n"); std::abort(); }
};
template<typename K, typename H, typename E, bool kNode>
class HashSet : public Table<K, K, SetKey<K>, H, E, kNode> {
  using B = Table<K, K, SetKey<K>, H, E, kNode>;

 public:
  using B::B;
  HashSet() = default;
};
template<typename T, typename P> std::size_t EraseIf(T& t, P p) {
  std::size_t n = 0;
  for (auto it = t.begin(); it != t.end();) if (p(*it)) { auto c = it++; t.erase(c); ++n; } else ++it;
  return n;
}
template<typename K, typename M, typename H, typename E, bool N, typename P> std::size_t erase_if(HashMap<K, M, H, E, N>& t, P p) { return EraseIf(t, p); }
template<typename K, typename H, typename E, bool N, typename P> std::size_t erase_if(HashSet<K, H, E, N>& t, P p) { return EraseIf(t, p); }
}  // namespace absl::shim
