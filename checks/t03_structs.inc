// Generated by lib/t03_gen.py: do not edit.
#if !defined(T03_PART) || T03_PART == 1
struct X1 : mbo::types::Extend<X1> {
  Inner f0;
  auto Tie() const { return std::tie(f0); }
  using Tup = std::tuple<Inner>;
};
struct PlainX1 {
  Inner f0;
  using Tup = std::tuple<Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X2 : mbo::types::Extend<X2> {
  std::optional<int> f0;
  Inner f1;
  auto Tie() const { return std::tie(f0, f1); }
  using Tup = std::tuple<std::optional<int>, Inner>;
};
struct PlainX2 {
  std::optional<int> f0;
  Inner f1;
  using Tup = std::tuple<std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X3 : mbo::types::Extend<X3> {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  auto Tie() const { return std::tie(f0, f1, f2); }
  using Tup = std::tuple<std::string, std::optional<int>, Inner>;
};
struct PlainX3 {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  using Tup = std::tuple<std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X4 : mbo::types::Extend<X4> {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  auto Tie() const { return std::tie(f0, f1, f2, f3); }
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX4 {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X5 : mbo::types::Extend<X5> {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4); }
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX5 {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X6 : mbo::types::Extend<X6> {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5); }
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX6 {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X7 : mbo::types::Extend<X7> {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6); }
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX7 {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X8 : mbo::types::Extend<X8> {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7); }
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX8 {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X9 : mbo::types::Extend<X9> {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8); }
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX9 {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X10 : mbo::types::Extend<X10> {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9); }
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX10 {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X11 : mbo::types::Extend<X11> {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10); }
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX11 {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X12 : mbo::types::Extend<X12> {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11); }
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX12 {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X13 : mbo::types::Extend<X13> {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12); }
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX13 {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X14 : mbo::types::Extend<X14> {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13); }
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX14 {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X15 : mbo::types::Extend<X15> {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14); }
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX15 {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X16 : mbo::types::Extend<X16> {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15); }
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX16 {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X17 : mbo::types::Extend<X17> {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16); }
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX17 {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X18 : mbo::types::Extend<X18> {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17); }
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX18 {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X19 : mbo::types::Extend<X19> {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18); }
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX19 {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X20 : mbo::types::Extend<X20> {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19); }
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX20 {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X21 : mbo::types::Extend<X21> {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  int f11;
  bool f12;
  Pair f13;
  long long f14;
  double f15;
  std::vector<int> f16;
  signed char f17;
  std::string f18;
  std::optional<int> f19;
  Inner f20;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20); }
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX21 {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  int f11;
  bool f12;
  Pair f13;
  long long f14;
  double f15;
  std::vector<int> f16;
  signed char f17;
  std::string f18;
  std::optional<int> f19;
  Inner f20;
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X22 : mbo::types::Extend<X22> {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  int f12;
  bool f13;
  Pair f14;
  long long f15;
  double f16;
  std::vector<int> f17;
  signed char f18;
  std::string f19;
  std::optional<int> f20;
  Inner f21;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21); }
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX22 {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  int f12;
  bool f13;
  Pair f14;
  long long f15;
  double f16;
  std::vector<int> f17;
  signed char f18;
  std::string f19;
  std::optional<int> f20;
  Inner f21;
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X23 : mbo::types::Extend<X23> {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  int f13;
  bool f14;
  Pair f15;
  long long f16;
  double f17;
  std::vector<int> f18;
  signed char f19;
  std::string f20;
  std::optional<int> f21;
  Inner f22;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22); }
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX23 {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  int f13;
  bool f14;
  Pair f15;
  long long f16;
  double f17;
  std::vector<int> f18;
  signed char f19;
  std::string f20;
  std::optional<int> f21;
  Inner f22;
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X24 : mbo::types::Extend<X24> {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  int f14;
  bool f15;
  Pair f16;
  long long f17;
  double f18;
  std::vector<int> f19;
  signed char f20;
  std::string f21;
  std::optional<int> f22;
  Inner f23;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23); }
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX24 {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  int f14;
  bool f15;
  Pair f16;
  long long f17;
  double f18;
  std::vector<int> f19;
  signed char f20;
  std::string f21;
  std::optional<int> f22;
  Inner f23;
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X25 : mbo::types::Extend<X25> {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  int f15;
  bool f16;
  Pair f17;
  long long f18;
  double f19;
  std::vector<int> f20;
  signed char f21;
  std::string f22;
  std::optional<int> f23;
  Inner f24;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24); }
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX25 {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  int f15;
  bool f16;
  Pair f17;
  long long f18;
  double f19;
  std::vector<int> f20;
  signed char f21;
  std::string f22;
  std::optional<int> f23;
  Inner f24;
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X26 : mbo::types::Extend<X26> {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  int f16;
  bool f17;
  Pair f18;
  long long f19;
  double f20;
  std::vector<int> f21;
  signed char f22;
  std::string f23;
  std::optional<int> f24;
  Inner f25;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25); }
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX26 {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  int f16;
  bool f17;
  Pair f18;
  long long f19;
  double f20;
  std::vector<int> f21;
  signed char f22;
  std::string f23;
  std::optional<int> f24;
  Inner f25;
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X27 : mbo::types::Extend<X27> {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  int f17;
  bool f18;
  Pair f19;
  long long f20;
  double f21;
  std::vector<int> f22;
  signed char f23;
  std::string f24;
  std::optional<int> f25;
  Inner f26;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26); }
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX27 {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  int f17;
  bool f18;
  Pair f19;
  long long f20;
  double f21;
  std::vector<int> f22;
  signed char f23;
  std::string f24;
  std::optional<int> f25;
  Inner f26;
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X28 : mbo::types::Extend<X28> {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  int f18;
  bool f19;
  Pair f20;
  long long f21;
  double f22;
  std::vector<int> f23;
  signed char f24;
  std::string f25;
  std::optional<int> f26;
  Inner f27;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27); }
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX28 {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  int f18;
  bool f19;
  Pair f20;
  long long f21;
  double f22;
  std::vector<int> f23;
  signed char f24;
  std::string f25;
  std::optional<int> f26;
  Inner f27;
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X29 : mbo::types::Extend<X29> {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  int f19;
  bool f20;
  Pair f21;
  long long f22;
  double f23;
  std::vector<int> f24;
  signed char f25;
  std::string f26;
  std::optional<int> f27;
  Inner f28;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28); }
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX29 {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  int f19;
  bool f20;
  Pair f21;
  long long f22;
  double f23;
  std::vector<int> f24;
  signed char f25;
  std::string f26;
  std::optional<int> f27;
  Inner f28;
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X30 : mbo::types::Extend<X30> {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  int f20;
  bool f21;
  Pair f22;
  long long f23;
  double f24;
  std::vector<int> f25;
  signed char f26;
  std::string f27;
  std::optional<int> f28;
  Inner f29;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29); }
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX30 {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  int f20;
  bool f21;
  Pair f22;
  long long f23;
  double f24;
  std::vector<int> f25;
  signed char f26;
  std::string f27;
  std::optional<int> f28;
  Inner f29;
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X31 : mbo::types::Extend<X31> {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  int f11;
  bool f12;
  Pair f13;
  long long f14;
  double f15;
  std::vector<int> f16;
  signed char f17;
  std::string f18;
  std::optional<int> f19;
  Inner f20;
  int f21;
  bool f22;
  Pair f23;
  long long f24;
  double f25;
  std::vector<int> f26;
  signed char f27;
  std::string f28;
  std::optional<int> f29;
  Inner f30;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30); }
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX31 {
  Inner f0;
  int f1;
  bool f2;
  Pair f3;
  long long f4;
  double f5;
  std::vector<int> f6;
  signed char f7;
  std::string f8;
  std::optional<int> f9;
  Inner f10;
  int f11;
  bool f12;
  Pair f13;
  long long f14;
  double f15;
  std::vector<int> f16;
  signed char f17;
  std::string f18;
  std::optional<int> f19;
  Inner f20;
  int f21;
  bool f22;
  Pair f23;
  long long f24;
  double f25;
  std::vector<int> f26;
  signed char f27;
  std::string f28;
  std::optional<int> f29;
  Inner f30;
  using Tup = std::tuple<Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X32 : mbo::types::Extend<X32> {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  int f12;
  bool f13;
  Pair f14;
  long long f15;
  double f16;
  std::vector<int> f17;
  signed char f18;
  std::string f19;
  std::optional<int> f20;
  Inner f21;
  int f22;
  bool f23;
  Pair f24;
  long long f25;
  double f26;
  std::vector<int> f27;
  signed char f28;
  std::string f29;
  std::optional<int> f30;
  Inner f31;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31); }
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX32 {
  std::optional<int> f0;
  Inner f1;
  int f2;
  bool f3;
  Pair f4;
  long long f5;
  double f6;
  std::vector<int> f7;
  signed char f8;
  std::string f9;
  std::optional<int> f10;
  Inner f11;
  int f12;
  bool f13;
  Pair f14;
  long long f15;
  double f16;
  std::vector<int> f17;
  signed char f18;
  std::string f19;
  std::optional<int> f20;
  Inner f21;
  int f22;
  bool f23;
  Pair f24;
  long long f25;
  double f26;
  std::vector<int> f27;
  signed char f28;
  std::string f29;
  std::optional<int> f30;
  Inner f31;
  using Tup = std::tuple<std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X33 : mbo::types::Extend<X33> {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  int f13;
  bool f14;
  Pair f15;
  long long f16;
  double f17;
  std::vector<int> f18;
  signed char f19;
  std::string f20;
  std::optional<int> f21;
  Inner f22;
  int f23;
  bool f24;
  Pair f25;
  long long f26;
  double f27;
  std::vector<int> f28;
  signed char f29;
  std::string f30;
  std::optional<int> f31;
  Inner f32;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32); }
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX33 {
  std::string f0;
  std::optional<int> f1;
  Inner f2;
  int f3;
  bool f4;
  Pair f5;
  long long f6;
  double f7;
  std::vector<int> f8;
  signed char f9;
  std::string f10;
  std::optional<int> f11;
  Inner f12;
  int f13;
  bool f14;
  Pair f15;
  long long f16;
  double f17;
  std::vector<int> f18;
  signed char f19;
  std::string f20;
  std::optional<int> f21;
  Inner f22;
  int f23;
  bool f24;
  Pair f25;
  long long f26;
  double f27;
  std::vector<int> f28;
  signed char f29;
  std::string f30;
  std::optional<int> f31;
  Inner f32;
  using Tup = std::tuple<std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X34 : mbo::types::Extend<X34> {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  int f14;
  bool f15;
  Pair f16;
  long long f17;
  double f18;
  std::vector<int> f19;
  signed char f20;
  std::string f21;
  std::optional<int> f22;
  Inner f23;
  int f24;
  bool f25;
  Pair f26;
  long long f27;
  double f28;
  std::vector<int> f29;
  signed char f30;
  std::string f31;
  std::optional<int> f32;
  Inner f33;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33); }
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX34 {
  signed char f0;
  std::string f1;
  std::optional<int> f2;
  Inner f3;
  int f4;
  bool f5;
  Pair f6;
  long long f7;
  double f8;
  std::vector<int> f9;
  signed char f10;
  std::string f11;
  std::optional<int> f12;
  Inner f13;
  int f14;
  bool f15;
  Pair f16;
  long long f17;
  double f18;
  std::vector<int> f19;
  signed char f20;
  std::string f21;
  std::optional<int> f22;
  Inner f23;
  int f24;
  bool f25;
  Pair f26;
  long long f27;
  double f28;
  std::vector<int> f29;
  signed char f30;
  std::string f31;
  std::optional<int> f32;
  Inner f33;
  using Tup = std::tuple<signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X35 : mbo::types::Extend<X35> {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  int f15;
  bool f16;
  Pair f17;
  long long f18;
  double f19;
  std::vector<int> f20;
  signed char f21;
  std::string f22;
  std::optional<int> f23;
  Inner f24;
  int f25;
  bool f26;
  Pair f27;
  long long f28;
  double f29;
  std::vector<int> f30;
  signed char f31;
  std::string f32;
  std::optional<int> f33;
  Inner f34;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34); }
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX35 {
  std::vector<int> f0;
  signed char f1;
  std::string f2;
  std::optional<int> f3;
  Inner f4;
  int f5;
  bool f6;
  Pair f7;
  long long f8;
  double f9;
  std::vector<int> f10;
  signed char f11;
  std::string f12;
  std::optional<int> f13;
  Inner f14;
  int f15;
  bool f16;
  Pair f17;
  long long f18;
  double f19;
  std::vector<int> f20;
  signed char f21;
  std::string f22;
  std::optional<int> f23;
  Inner f24;
  int f25;
  bool f26;
  Pair f27;
  long long f28;
  double f29;
  std::vector<int> f30;
  signed char f31;
  std::string f32;
  std::optional<int> f33;
  Inner f34;
  using Tup = std::tuple<std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X36 : mbo::types::Extend<X36> {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  int f16;
  bool f17;
  Pair f18;
  long long f19;
  double f20;
  std::vector<int> f21;
  signed char f22;
  std::string f23;
  std::optional<int> f24;
  Inner f25;
  int f26;
  bool f27;
  Pair f28;
  long long f29;
  double f30;
  std::vector<int> f31;
  signed char f32;
  std::string f33;
  std::optional<int> f34;
  Inner f35;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35); }
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX36 {
  double f0;
  std::vector<int> f1;
  signed char f2;
  std::string f3;
  std::optional<int> f4;
  Inner f5;
  int f6;
  bool f7;
  Pair f8;
  long long f9;
  double f10;
  std::vector<int> f11;
  signed char f12;
  std::string f13;
  std::optional<int> f14;
  Inner f15;
  int f16;
  bool f17;
  Pair f18;
  long long f19;
  double f20;
  std::vector<int> f21;
  signed char f22;
  std::string f23;
  std::optional<int> f24;
  Inner f25;
  int f26;
  bool f27;
  Pair f28;
  long long f29;
  double f30;
  std::vector<int> f31;
  signed char f32;
  std::string f33;
  std::optional<int> f34;
  Inner f35;
  using Tup = std::tuple<double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 1
struct X37 : mbo::types::Extend<X37> {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  int f17;
  bool f18;
  Pair f19;
  long long f20;
  double f21;
  std::vector<int> f22;
  signed char f23;
  std::string f24;
  std::optional<int> f25;
  Inner f26;
  int f27;
  bool f28;
  Pair f29;
  long long f30;
  double f31;
  std::vector<int> f32;
  signed char f33;
  std::string f34;
  std::optional<int> f35;
  Inner f36;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36); }
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX37 {
  long long f0;
  double f1;
  std::vector<int> f2;
  signed char f3;
  std::string f4;
  std::optional<int> f5;
  Inner f6;
  int f7;
  bool f8;
  Pair f9;
  long long f10;
  double f11;
  std::vector<int> f12;
  signed char f13;
  std::string f14;
  std::optional<int> f15;
  Inner f16;
  int f17;
  bool f18;
  Pair f19;
  long long f20;
  double f21;
  std::vector<int> f22;
  signed char f23;
  std::string f24;
  std::optional<int> f25;
  Inner f26;
  int f27;
  bool f28;
  Pair f29;
  long long f30;
  double f31;
  std::vector<int> f32;
  signed char f33;
  std::string f34;
  std::optional<int> f35;
  Inner f36;
  using Tup = std::tuple<long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 2
struct X38 : mbo::types::Extend<X38> {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  int f18;
  bool f19;
  Pair f20;
  long long f21;
  double f22;
  std::vector<int> f23;
  signed char f24;
  std::string f25;
  std::optional<int> f26;
  Inner f27;
  int f28;
  bool f29;
  Pair f30;
  long long f31;
  double f32;
  std::vector<int> f33;
  signed char f34;
  std::string f35;
  std::optional<int> f36;
  Inner f37;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37); }
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX38 {
  Pair f0;
  long long f1;
  double f2;
  std::vector<int> f3;
  signed char f4;
  std::string f5;
  std::optional<int> f6;
  Inner f7;
  int f8;
  bool f9;
  Pair f10;
  long long f11;
  double f12;
  std::vector<int> f13;
  signed char f14;
  std::string f15;
  std::optional<int> f16;
  Inner f17;
  int f18;
  bool f19;
  Pair f20;
  long long f21;
  double f22;
  std::vector<int> f23;
  signed char f24;
  std::string f25;
  std::optional<int> f26;
  Inner f27;
  int f28;
  bool f29;
  Pair f30;
  long long f31;
  double f32;
  std::vector<int> f33;
  signed char f34;
  std::string f35;
  std::optional<int> f36;
  Inner f37;
  using Tup = std::tuple<Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 3
struct X39 : mbo::types::Extend<X39> {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  int f19;
  bool f20;
  Pair f21;
  long long f22;
  double f23;
  std::vector<int> f24;
  signed char f25;
  std::string f26;
  std::optional<int> f27;
  Inner f28;
  int f29;
  bool f30;
  Pair f31;
  long long f32;
  double f33;
  std::vector<int> f34;
  signed char f35;
  std::string f36;
  std::optional<int> f37;
  Inner f38;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38); }
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX39 {
  bool f0;
  Pair f1;
  long long f2;
  double f3;
  std::vector<int> f4;
  signed char f5;
  std::string f6;
  std::optional<int> f7;
  Inner f8;
  int f9;
  bool f10;
  Pair f11;
  long long f12;
  double f13;
  std::vector<int> f14;
  signed char f15;
  std::string f16;
  std::optional<int> f17;
  Inner f18;
  int f19;
  bool f20;
  Pair f21;
  long long f22;
  double f23;
  std::vector<int> f24;
  signed char f25;
  std::string f26;
  std::optional<int> f27;
  Inner f28;
  int f29;
  bool f30;
  Pair f31;
  long long f32;
  double f33;
  std::vector<int> f34;
  signed char f35;
  std::string f36;
  std::optional<int> f37;
  Inner f38;
  using Tup = std::tuple<bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
struct X40 : mbo::types::Extend<X40> {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  int f20;
  bool f21;
  Pair f22;
  long long f23;
  double f24;
  std::vector<int> f25;
  signed char f26;
  std::string f27;
  std::optional<int> f28;
  Inner f29;
  int f30;
  bool f31;
  Pair f32;
  long long f33;
  double f34;
  std::vector<int> f35;
  signed char f36;
  std::string f37;
  std::optional<int> f38;
  Inner f39;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39); }
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
struct PlainX40 {
  int f0;
  bool f1;
  Pair f2;
  long long f3;
  double f4;
  std::vector<int> f5;
  signed char f6;
  std::string f7;
  std::optional<int> f8;
  Inner f9;
  int f10;
  bool f11;
  Pair f12;
  long long f13;
  double f14;
  std::vector<int> f15;
  signed char f16;
  std::string f17;
  std::optional<int> f18;
  Inner f19;
  int f20;
  bool f21;
  Pair f22;
  long long f23;
  double f24;
  std::vector<int> f25;
  signed char f26;
  std::string f27;
  std::optional<int> f28;
  Inner f29;
  int f30;
  bool f31;
  Pair f32;
  long long f33;
  double f34;
  std::vector<int> f35;
  signed char f36;
  std::string f37;
  std::optional<int> f38;
  Inner f39;
  using Tup = std::tuple<int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner, int, bool, Pair, long long, double, std::vector<int>, signed char, std::string, std::optional<int>, Inner>;
};
#endif
#if !defined(T03_PART) || T03_PART == 0
#define T03_ALL(M) M(4) M(8) M(12) M(16) M(20) M(24) M(28) M(32) M(36) M(40)
#endif
#if !defined(T03_PART) || T03_PART == 1
#define T03_ALL(M) M(1) M(5) M(9) M(13) M(17) M(21) M(25) M(29) M(33) M(37)
#endif
#if !defined(T03_PART) || T03_PART == 2
#define T03_ALL(M) M(2) M(6) M(10) M(14) M(18) M(22) M(26) M(30) M(34) M(38)
#endif
#if !defined(T03_PART) || T03_PART == 3
#define T03_ALL(M) M(3) M(7) M(11) M(15) M(19) M(23) M(27) M(31) M(35) M(39)
#endif
#if T03_PART == 4
struct X100 : mbo::types::Extend<X100> {
  int f0;
  auto Tie() const { return std::tie(f0); }
  using Tup = std::tuple<int>;
};
struct PlainX100 {
  int f0;
  using Tup = std::tuple<int>;
};
struct X101 : mbo::types::Extend<X101> {
  int f0;
  double f1;
  auto Tie() const { return std::tie(f0, f1); }
  using Tup = std::tuple<int, double>;
};
struct PlainX101 {
  int f0;
  double f1;
  using Tup = std::tuple<int, double>;
};
struct X102 : mbo::types::Extend<X102> {
  bool f0;
  int f1;
  signed char f2;
  auto Tie() const { return std::tie(f0, f1, f2); }
  using Tup = std::tuple<bool, int, signed char>;
};
struct PlainX102 {
  bool f0;
  int f1;
  signed char f2;
  using Tup = std::tuple<bool, int, signed char>;
};
struct X103 : mbo::types::Extend<X103> {
  std::string f0;
  auto Tie() const { return std::tie(f0); }
  using Tup = std::tuple<std::string>;
};
struct PlainX103 {
  std::string f0;
  using Tup = std::tuple<std::string>;
};
struct X104 : mbo::types::Extend<X104> {
  std::optional<int> f0;
  int f1;
  auto Tie() const { return std::tie(f0, f1); }
  using Tup = std::tuple<std::optional<int>, int>;
};
struct PlainX104 {
  std::optional<int> f0;
  int f1;
  using Tup = std::tuple<std::optional<int>, int>;
};
struct X105 : mbo::types::Extend<X105> {
  signed char f0;
  bool f1;
  int f2;
  long long f3;
  auto Tie() const { return std::tie(f0, f1, f2, f3); }
  using Tup = std::tuple<signed char, bool, int, long long>;
};
struct PlainX105 {
  signed char f0;
  bool f1;
  int f2;
  long long f3;
  using Tup = std::tuple<signed char, bool, int, long long>;
};
struct X106 : mbo::types::Extend<X106> {
  double f0;
  int f1;
  std::optional<int> f2;
  auto Tie() const { return std::tie(f0, f1, f2); }
  using Tup = std::tuple<double, int, std::optional<int>>;
};
struct PlainX106 {
  double f0;
  int f1;
  std::optional<int> f2;
  using Tup = std::tuple<double, int, std::optional<int>>;
};
struct X107 : mbo::types::Extend<X107> {
  std::vector<int> f0;
  int f1;
  auto Tie() const { return std::tie(f0, f1); }
  using Tup = std::tuple<std::vector<int>, int>;
};
struct PlainX107 {
  std::vector<int> f0;
  int f1;
  using Tup = std::tuple<std::vector<int>, int>;
};
struct X108 : mbo::types::Extend<X108> {
  std::string f0;
  int f1;
  auto Tie() const { return std::tie(f0, f1); }
  using Tup = std::tuple<std::string, int>;
};
struct PlainX108 {
  std::string f0;
  int f1;
  using Tup = std::tuple<std::string, int>;
};
struct X109 : mbo::types::Extend<X109> {
  int f0;
  int f1;
  int f2;
  int f3;
  int f4;
  int f5;
  auto Tie() const { return std::tie(f0, f1, f2, f3, f4, f5); }
  using Tup = std::tuple<int, int, int, int, int, int>;
};
struct PlainX109 {
  int f0;
  int f1;
  int f2;
  int f3;
  int f4;
  int f5;
  using Tup = std::tuple<int, int, int, int, int, int>;
};
#define T03_ALL(M) M(100) M(101) M(102) M(103) M(104) M(105) M(106) M(107) M(108) M(109)
#endif
