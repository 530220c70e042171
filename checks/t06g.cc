// T06, g++ only: struct shapes whose fields g++'s initialiser counting gets wrong (known findings).
#include <complex>

#include "mbo/types/traits.h"
#include "mbo/types/tuple_extras.h"
#include "pbt.h"

namespace {
struct Base2 { int a; int b; };
struct OnlyBase : Base2 {};
struct BaseAndField : Base2 { int own; };
struct Base3 { int a; int b; int c; };
struct OnlyBase3 : Base3 {};
struct Empty {};
struct NoDefault { explicit NoDefault(int v) : v(v) {} int v; };
struct EmptyBaseNoDefault : Empty { NoDefault n; std::complex<double> c; int i; };
}  // namespace

PBT_FINDING(gcc_base, "gcc_base_with_fields") {
  return mbo::types::DecomposeCountV<OnlyBase> != 2 || mbo::types::DecomposeCountV<OnlyBase3> != 3 || mbo::types::CanCreateTuple<BaseAndField>;
}

PBT_FINDING(gcc_nodefault, "gcc_empty_base_then_no_default_ctor") { return mbo::types::DecomposeCountV<EmptyBaseNoDefault> != 3; }

PBT_PROP(one_field_base, 1000, 1000, "single-field bases and empty bases under g++ (fixed shapes, random values)") {
  struct B1 { int a; };
  struct D1 : B1 {};
  struct D2 : Empty { int a; int b; };
  const int v = static_cast<int>(src.Draw(1000)), w = static_cast<int>(src.Draw(1000));
  src.NonTrivial();
  D1 d1{{v}};
  D2 d2{{}, v, w};
  auto t1 = mbo::types::StructToTuple(d1);
  auto t2 = mbo::types::StructToTuple(d2);
  static_assert(std::tuple_size_v<decltype(t1)> == 1 && std::tuple_size_v<decltype(t2)> == 2);
  PBT_CHECK(&std::get<0>(t1) == &d1.a && &std::get<0>(t2) == &d2.a && &std::get<1>(t2) == &d2.b, "tuple does not reference the fields");
  PBT_CHECK(std::get<0>(t1) == v && std::get<1>(t2) == w, "tuple values");
}
