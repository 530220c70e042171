#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/internal_shim.h"
namespace absl {
using FormatSink = strings_internal::StringifySink;
namespace str_format_internal {
struct Arg {
  enum Kind { kSigned, kUnsigned, kDouble, kLongDouble, kString, kPtr, kChar, kBool, kVOnly } kind = kString;
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  long double ld = 0;
  std::string s;
  const void* p = nullptr;
};
[[noreturn]] inline void Bad(std::string_view fmt, const char* why) {
  std::fprintf(stderr, "absl shim: bad format '%.*s': %s\n", int(fmt.size()), fmt.data(), why);
  std::abort();
}
template<typename T> Arg Make(const T& v) {
  Arg a;
  using D = std::decay_t<T>;
  if constexpr (HasAbslStringify<T>::value) {
    a.kind = Arg::kVOnly;
    a.s = strings_internal::ViaStringify(v);
  } else if constexpr (std::is_same_v<D, bool>) {
    a.kind = Arg::kBool;
    a.i = v;
    a.u = v;
  } else if constexpr (std::is_same_v<D, char> || std::is_same_v<D, signed char> || std::is_same_v<D, unsigned char>) {
    a.kind = Arg::kChar;
    a.i = v;
    a.u = static_cast<unsigned char>(v);
  } else if constexpr (std::is_enum_v<D>) {
    return Make(static_cast<std::underlying_type_t<D>>(v));
  } else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) {
    a.kind = Arg::kSigned;
    a.i = v;
    a.u = static_cast<std::make_unsigned_t<D>>(v);
  } else if constexpr (std::is_integral_v<D>) {
    a.kind = Arg::kUnsigned;
    a.i = static_cast<long long>(v);
    a.u = v;
  } else if constexpr (std::is_same_v<D, long double>) {
    a.kind = Arg::kLongDouble;
    a.ld = v;
  } else if constexpr (std::is_floating_point_v<D>) {
    a.kind = Arg::kDouble;
    a.d = v;
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    if constexpr (std::is_pointer_v<D>) { if (v) a.s = v; a.p = v; } else { a.s = std::string(std::string_view(v)); }
  } else if constexpr (std::is_pointer_v<D> || std::is_null_pointer_v<D>) {
    a.kind = Arg::kPtr;
    a.p = static_cast<const void*>(v);
  } else if constexpr (requires { std::string(v); }) {  // Cord
    a.s = std::string(v);
  } else {
    static_assert(sizeof(T) == 0, "absl shim: type cannot be formatted");
  }
  return a;
}
inline void Pad(std::string& out, std::string_view v, int width, bool left) {
  std::size_t pad = width > 0 && static_cast<std::size_t>(width) > v.size() ? width - v.size() : 0;
  if (!left) out.append(pad, ' ');
  out += v;
  if (left) out.append(pad, ' ');
}
inline std::string FormatImpl(std::string_view fmt, const std::vector<Arg>& args) {
  std::string out;
  std::size_t next = 0, i = 0;
  auto take = [&]() -> const Arg& { if (next >= args.size()) Bad(fmt, "too few arguments"); return args[next++]; };
  while (i < fmt.size()) {
    if (fmt[i] != '%') { out += fmt[i++]; continue; }
    if (++i >= fmt.size()) Bad(fmt, "trailing %");
    if (fmt[i] == '%') { out += '%'; ++i; continue; }
    std::size_t j = i;
    while (j < fmt.size() && std::isdigit(static_cast<unsigned char>(fmt[j]))) ++j;
    const Arg* pos = nullptr;
    if (j > i && j < fmt.size() && fmt[j] == '$') {
      std::size_t n = std::strtoul(std::string(fmt.substr(i, j - i)).c_str(), nullptr, 10);
      if (n == 0 || n > args.size()) Bad(fmt, "positional");
      pos = &args[n - 1];
      next = args.size();
      i = j + 1;
    }
    std::string flags;
    while (i < fmt.size() && std::strchr("-+ #0", fmt[i])) flags += fmt[i++];
    int width = -1, prec = -1;
    if (i < fmt.size() && fmt[i] == '*') { const Arg& a = take(); width = static_cast<int>(a.i); if (width < 0) { flags += '-'; width = -width; } ++i; }
    else if (i < fmt.size() && std::isdigit(static_cast<unsigned char>(fmt[i]))) { width = 0; while (i < fmt.size() && std::isdigit(static_cast<unsigned char>(fmt[i]))) width = width * 10 + (fmt[i++] - '0'); }
    if (i < fmt.size() && fmt[i] == '.') {
      ++i;
      prec = 0;
      if (i < fmt.size() && fmt[i] == '*') { prec = static_cast<int>(take().i); ++i; }
      else while (i < fmt.size() && std::isdigit(static_cast<unsigned char>(fmt[i]))) prec = prec * 10 + (fmt[i++] - '0');
    }
    while (i < fmt.size() && std::strchr("hljztLq", fmt[i])) ++i;
    if (i >= fmt.size()) Bad(fmt, "incomplete conversion");
    char c = fmt[i++];
    const Arg& a = pos ? *pos : take();
    bool left = flags.find('-') != std::string::npos;
    if (c == 'v') {
      switch (a.kind) {
        case Arg::kSigned: c = 'd'; break;
        case Arg::kUnsigned: c = 'u'; break;
        case Arg::kDouble: case Arg::kLongDouble: c = 'g'; break;
        case Arg::kBool: Pad(out, a.i ? "true" : "false", width, left); continue;
        case Arg::kChar: c = 'c'; break;
        case Arg::kPtr: Bad(fmt, "%v of a pointer");
        default: c = 's'; break;
      }
    } else if (a.kind == Arg::kVOnly) {
      Bad(fmt, "AbslStringify types need %v");
    }
    std::string f = "%" + flags;
    if (width >= 0) f += std::to_string(width);
    if (prec >= 0 && c != 's') f += "." + std::to_string(prec);
    char buf[512];
    auto emit = [&](int n) { if (n < 0 || n >= int(sizeof buf)) Bad(fmt, "too wide"); out.append(buf, n); };
    switch (c) {
      case 's': {
        if (a.kind != Arg::kString && a.kind != Arg::kVOnly) Bad(fmt, "%s of a non-string");
        std::string_view v = a.s;
        if (prec >= 0) v = v.substr(0, prec);
        Pad(out, v, width, left);
        break;
      }
      case 'c': {
        if (a.kind != Arg::kChar && a.kind != Arg::kSigned && a.kind != Arg::kUnsigned) Bad(fmt, "%c of a non-character");
        char ch = static_cast<char>(a.i);
        Pad(out, std::string_view(&ch, 1), width, left);
        break;
      }
      case 'd': case 'i':
        if (a.kind == Arg::kUnsigned) emit(std::snprintf(buf, sizeof buf, (f + "llu").c_str(), a.u));
        else if (a.kind == Arg::kSigned || a.kind == Arg::kChar || a.kind == Arg::kBool) emit(std::snprintf(buf, sizeof buf, (f + "lld").c_str(), a.i));
        else Bad(fmt, "%d of a non-integer");
        break;
      case 'u': case 'x': case 'X': case 'o':
        if (a.kind != Arg::kUnsigned && a.kind != Arg::kSigned && a.kind != Arg::kChar && a.kind != Arg::kBool) Bad(fmt, "%u/x/o of a non-integer");
        emit(std::snprintf(buf, sizeof buf, (f + "ll" + c).c_str(), a.u));
        break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A':
        if (a.kind == Arg::kLongDouble) emit(std::snprintf(buf, sizeof buf, (f + "L" + c).c_str(), a.ld));
        else emit(std::snprintf(buf, sizeof buf, (f + c).c_str(), a.kind == Arg::kDouble ? a.d : a.kind == Arg::kUnsigned ? double(a.u) : double(a.i)));
        break;
      case 'p':
        if (a.p == nullptr) Pad(out, "(nil)", width, left); else emit(std::snprintf(buf, sizeof buf, (f + c).c_str(), a.p));
        break;
      default: Bad(fmt, "unknown conversion");
    }
  }
  if (next < args.size()) Bad(fmt, "too many arguments");
  return out;
}
// A copyable, printable formatting result.
class Streamable {
 public:
  explicit Streamable(std::string s) : s_(std::move(s)) {}
  friend std::ostream& operator<<(std::ostream& os, const Streamable& s) { return os << s.s_; }
  template<typename Sink> friend void AbslStringify(Sink& sink, const Streamable& s) { sink.Append(s.s_); }

 private:
  std::string s_;
};
}  // namespace str_format_internal
class FormatSpecShim {
 public:
  constexpr FormatSpecShim(const char* s) : s_(s) {}             // NOLINT
  constexpr FormatSpecShim(std::string_view s) : s_(s) {}        // NOLINT
  FormatSpecShim(const std::string& s) : s_(s) {}                // NOLINT
  constexpr std::string_view str() const { return s_; }

 private:
  std::string_view s_;
};
template<typename... A> using FormatSpec = FormatSpecShim;
using UntypedFormatSpec = FormatSpecShim;
template<typename... A> [[nodiscard]] std::string StrFormat(FormatSpecShim f, const A&... a) { return str_format_internal::FormatImpl(f.str(), {str_format_internal::Make(a)...}); }
template<typename... A> std::string& StrAppendFormat(std::string* d, FormatSpecShim f, const A&... a) { return *d += StrFormat(f, a...); }
template<typename... A> auto StreamFormat(FormatSpecShim f, const A&... a) { return str_format_internal::Streamable(StrFormat(f, a...)); }
template<typename... A> int PrintF(FormatSpecShim f, const A&... a) { std::string s = StrFormat(f, a...); return int(std::fwrite(s.data(), 1, s.size(), stdout)); }
template<typename... A> int FPrintF(std::FILE* o, FormatSpecShim f, const A&... a) { std::string s = StrFormat(f, a...); return int(std::fwrite(s.data(), 1, s.size(), o)); }
namespace str_format_internal {
template<typename S> void Flush(S* sink, std::string_view s) {
  if constexpr (requires { AbslFormatFlush(sink, s); }) AbslFormatFlush(sink, s);
  else if constexpr (requires { sink->Append(s); }) sink->Append(s);
  else if constexpr (std::is_convertible_v<S*, std::string*>) sink->append(s);
  else static_cast<std::ostream*>(sink)->write(s.data(), s.size());
}
}  // namespace str_format_internal
template<typename S, typename... A> bool Format(S* sink, FormatSpecShim f, const A&... a) {
  str_format_internal::Flush(sink, StrFormat(f, a...));
  return true;
}
template<typename T> auto FormatStreamed(const T& v) {
  std::ostringstream os;
  os << v;
  return os.str();
}
}  // namespace absl
