#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include "absl/base/macros_shim.h"
namespace absl {
#define SHIM_C1(N) template<typename C, typename P> auto c_##N(C&& c, P&& p) { return std::N(std::begin(c), std::end(c), std::forward<P>(p)); }
SHIM_C1(all_of) SHIM_C1(any_of) SHIM_C1(none_of) SHIM_C1(find) SHIM_C1(find_if) SHIM_C1(find_if_not) SHIM_C1(count) SHIM_C1(count_if)
SHIM_C1(copy) SHIM_C1(binary_search) SHIM_C1(lower_bound) SHIM_C1(upper_bound) SHIM_C1(replace) SHIM_C1(fill) SHIM_C1(is_sorted) SHIM_C1(is_partitioned)
#undef SHIM_C1
template<typename C, typename P> auto c_for_each(C&& c, P&& p) { return std::for_each(std::begin(c), std::end(c), std::forward<P>(p)); }
template<typename C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template<typename C, typename L> void c_sort(C& c, L&& l) { std::sort(std::begin(c), std::end(c), std::forward<L>(l)); }
template<typename C> void c_stable_sort(C& c) { std::stable_sort(std::begin(c), std::end(c)); }
template<typename C, typename L> void c_stable_sort(C& c, L&& l) { std::stable_sort(std::begin(c), std::end(c), std::forward<L>(l)); }
template<typename C> bool c_is_sorted(const C& c) { return std::is_sorted(std::begin(c), std::end(c)); }
template<typename C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template<typename C, typename T> bool c_linear_search(const C& c, const T& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template<typename C, typename T> bool c_contains(const C& c, const T& v) { return c_linear_search(c, v); }
template<typename C, typename D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template<typename C, typename O, typename F> auto c_transform(const C& c, O o, F&& f) { return std::transform(std::begin(c), std::end(c), o, std::forward<F>(f)); }
template<typename C, typename O, typename F> auto c_copy_if(const C& c, O o, F&& f) { return std::copy_if(std::begin(c), std::end(c), o, std::forward<F>(f)); }
template<typename C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template<typename C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template<typename C, typename T> T c_accumulate(const C& c, T t) { return std::accumulate(std::begin(c), std::end(c), t); }
template<typename C, typename T, typename F> T c_accumulate(const C& c, T t, F&& f) { return std::accumulate(std::begin(c), std::end(c), t, std::forward<F>(f)); }
template<typename C> auto c_distance(const C& c) { return std::distance(std::begin(c), std::end(c)); }
}  // namespace absl
