// A01: status propagation keeps code, message and payloads.
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"
#include "mbo/status/status_macros.h"
#include "pbt.h"

namespace {

using mbo::status::GetStatus;
using mbo::status::StatusBuilder;

struct Model {
  int code = 0;
  std::string message;
  std::map<std::string, std::string> payloads;
  bool operator==(const Model&) const = default;
};
std::string Text(const Model& m) {
  std::string r = "code " + std::to_string(m.code) + " " + pbt::Quote(m.message);
  for (const auto& [k, v] : m.payloads) r += " {" + pbt::Quote(k) + ": " + pbt::Quote(v) + "}";
  return r;
}
Model Of(const absl::Status& s) {
  Model m{.code = static_cast<int>(s.code()), .message = std::string(s.message())};
  s.ForEachPayload([&m](std::string_view url, const absl::Cord& c) { m.payloads.emplace(url, std::string(c)); });
  return m;
}
absl::Status Make(const Model& m) {
  absl::Status s(static_cast<absl::StatusCode>(m.code), m.message);
  for (const auto& [k, v] : m.payloads) s.SetPayload(k, absl::Cord(v));
  return s;
}
std::string AnyText(pbt::Src& src) {
  switch (src.Draw(3)) {
    case 0: return std::string(src.PickStr({"", "x", "not found", "a: b", "'"}));
    case 1: return src.Str("ab :\n'\"\\%", 10);
    case 2: return src.RawBytes(8);
    default: return std::string(src.Size(0, 300), 'z');
  }
}
Model AnyStatus(pbt::Src& src, bool maybe_ok) {
  Model m;
  if (maybe_ok && src.Chance(1, 4)) return m;
  m.code = static_cast<int>(src.Int(1, 16));
  m.message = AnyText(src);
  for (std::size_t n = src.Draw(3); n > 0; --n) m.payloads[src.Bool() ? "url" + std::to_string(n) : AnyText(src)] = AnyText(src);
  return m;
}

// Something with a stream operator.
struct Point {
  int x, y;
  friend std::ostream& operator<<(std::ostream& os, const Point& p) { return os << "(" << p.x << "," << p.y << ")"; }
};

// Streams one random thing into `b` (by the way `chain` says) and returns what that adds to the message.
template<typename F>
std::string Stream(pbt::Src& src, F&& put) {
  switch (src.Draw(7)) {
    case 0: { std::string s = AnyText(src); put(s); return s; }
    case 1: { std::string s = AnyText(src); put(std::string_view(s)); return s; }
    case 2: put("literal"); return "literal";
    case 3: { int64_t v = src.I64(); put(v); return std::to_string(v); }
    case 4: { char c = src.PickChar("aZ 0\n"); put(c); return std::string(1, c); }
    case 5: { bool v = src.Bool(); put(v); return v ? "1" : "0"; }
    case 6: { Point p{static_cast<int>(src.Int(-5, 5)), 7}; put(p); return "(" + std::to_string(p.x) + ",7)"; }
    default: put(absl::StatusCode::kOk == absl::StatusCode::kOk ? 2.5 : 0.0); return "2.5";
  }
}

// A history of operations on a builder. Without SetPrepend, text goes behind the message; with it, text goes in
// front of the message until SetAppend (or streaming Append). Switching to Append with text already behind the
// message is not described.
PBT_PROP(builder, 150000, 4000000, "an error with at least one text or payload added") {
  const Model start = AnyStatus(src, true);
  Model want = start;
  std::string front, back;
  bool touched = false;
  StatusBuilder b = [&] {
    switch (src.Draw(4)) {
      case 0: return StatusBuilder(Make(start));
      case 1: { const absl::Status s = Make(start); return StatusBuilder(s); }
      case 2:
        if (start.code != 0) { const absl::StatusOr<int> s = Make(start); return StatusBuilder(s); }
        return StatusBuilder(absl::StatusOr<int>(5));
      case 3:
        if (start.code != 0) return StatusBuilder(absl::StatusOr<std::string>(Make(start)));
        { const absl::StatusOr<std::string> s("x"); return StatusBuilder(s); }
      default:
        if (start.code != 0) return StatusBuilder(absl::StatusOr<std::unique_ptr<int>>(Make(start)));
        return StatusBuilder();
    }
  }();
  PBT_NOTE("start: " << Text(start));
  auto now = [&] {
    Model m = want;
    if (m.code != 0) m.message = front + start.message + back;
    return m;
  };
  bool prepend = false, appended = false, streamed = false;
  const std::size_t ops = src.Size(0, 10);
  for (std::size_t k = 0; k < ops; ++k) {
    PBT_EQ(b.ok(), start.code == 0, "ok()");
    const bool rvalue = src.Bool();
    switch (src.Weighted({5, 2, 2, 2, 1, 1})) {
      case 0: {
        const std::string added = Stream(src, [&](const auto& v) {
          if (rvalue) {
            StatusBuilder&& r = std::move(b) << v;
            b = std::move(r);
          } else {
            StatusBuilder& r = b << v;
            PBT_CHECK(&r == &b, "<< returns another builder");
          }
        });
        (prepend && !appended ? front : back) += added;
        streamed = touched = true;
        PBT_NOTE("<< " << pbt::Quote(added));
        break;
      }
      case 1:
        if (streamed && !prepend && !appended) continue;
        appended = true;
        PBT_NOTE("append");
        switch (src.Draw(3)) {
          case 0: b.SetAppend(); break;
          case 1: b << StatusBuilder::Append; break;
          case 2: b = std::move(b).SetAppend(); break;
          default: b = std::move(b) << StatusBuilder::Append; break;
        }
        break;
      case 2:
        if (streamed && !prepend && !appended) continue;
        if (!appended) prepend = true;
        PBT_NOTE("prepend");
        if (rvalue) {
          b = std::move(b).SetPrepend();
        } else {
          b.SetPrepend();
        }
        break;
      case 3: {
        const std::string url = src.Bool() ? std::string(src.PickStr({"url", "url1", "url2", "u"})) : AnyText(src);
        const std::string data = AnyText(src);
        PBT_NOTE("payload " << pbt::Quote(url) << ": " << pbt::Quote(data));
        switch (src.Draw(4)) {
          case 0: b.SetPayload(url, data); break;
          case 1: b.SetPayload(url, std::string_view(data)); break;
          case 2: b.SetPayload(url, absl::Cord(data)); break;
          case 3: b = std::move(b).SetPayload(url, absl::Cord(data)); break;
          default: b = std::move(b).SetPayload(url, std::string_view(data)); break;
        }
        if (start.code != 0) want.payloads[url] = data;
        touched = true;
        break;
      }
      case 4: {
        StatusBuilder other = std::move(b);
        b = std::move(other);
        break;
      }
      default: {
        const absl::Status s(std::as_const(b) .operator absl::Status());
        PBT_EQ(Text(Of(s)), Text(now()), "status in the middle");
        break;
      }
    }
  }
  if (touched && start.code != 0) src.NonTrivial();
  src.Label(start.code == 0 ? "ok" : prepend && appended ? "both" : prepend ? "prepend" : appended ? "append" : "default");
  const absl::Status s1(b);
  PBT_EQ(Text(Of(s1)), Text(now()), "status of the builder");
  PBT_EQ(s1.ok(), start.code == 0, "success");
  const absl::Status s2 = std::move(b);
  PBT_EQ(Text(Of(s2)), Text(now()), "status moved out of the builder");
}

// --- Macros: programs made of guarded calls with random outcomes. ---
struct World {
  std::vector<Model> outcome;  // what the nth call returns; beyond: OK
  std::vector<int> calls;      // which calls were made
  int streamed = 0;            // how often additional text was evaluated
  absl::Status Next(int id) {
    const std::size_t at = calls.size();
    calls.push_back(id);
    return at < outcome.size() ? Make(outcome[at]) : absl::OkStatus();
  }
  template<typename T>
  absl::StatusOr<T> NextOr(int id, T v) {
    absl::Status s = Next(id);
    if (!s.ok()) return s;
    return absl::StatusOr<T>(std::move(v));
  }
  std::string Extra(std::string s) {
    ++streamed;
    return s;
  }
};
World* g_world = nullptr;

absl::Status ReturnPlain() {
  MBO_RETURN_IF_ERROR(g_world->Next(1));
  MBO_RETURN_IF_ERROR(g_world->NextOr<int>(2, 5));
  MBO_RETURN_IF_ERROR(g_world->NextOr<std::string>(3, "x"));
  return absl::OkStatus();
}
absl::Status ReturnText() {
  MBO_RETURN_IF_ERROR(g_world->Next(1)) << g_world->Extra("-a") << 1;
  MBO_RETURN_IF_ERROR(g_world->NextOr<int>(2, 5)) << g_world->Extra("-a") << 1;
  MBO_RETURN_IF_ERROR(g_world->Next(3)) << g_world->Extra("-a") << 1;
  return absl::OkStatus();
}
absl::Status ReturnAround() {
  MBO_RETURN_IF_ERROR(g_world->Next(1)).SetPrepend() << g_world->Extra("a-") << StatusBuilder::Append << "-b";
  MBO_RETURN_IF_ERROR(g_world->NextOr<int>(2, 5)).SetPrepend() << g_world->Extra("a-") << StatusBuilder::Append << "-b";
  MBO_RETURN_IF_ERROR(g_world->Next(3)).SetPrepend() << g_world->Extra("a-") << StatusBuilder::Append << "-b";
  return absl::OkStatus();
}
absl::Status ReturnPrefix() {
  MBO_RETURN_IF_ERROR(g_world->Next(1)).SetPrepend() << g_world->Extra("a-");
  MBO_RETURN_IF_ERROR(g_world->Next(2)).SetPrepend() << g_world->Extra("a-");
  MBO_RETURN_IF_ERROR(g_world->Next(3)).SetPrepend() << g_world->Extra("a-");
  return absl::OkStatus();
}
absl::Status ReturnPayload() {
  MBO_RETURN_IF_ERROR(g_world->Next(1)).SetPayload("more", g_world->Extra("data"));
  MBO_RETURN_IF_ERROR(g_world->Next(2)).SetPayload("more", g_world->Extra("data"));
  MBO_RETURN_IF_ERROR(g_world->NextOr<int>(3, 1)).SetPayload("more", g_world->Extra("data"));
  return absl::OkStatus();
}
absl::Status ReturnNested(bool& reached) {
  // No braces: the macros have to be single statements that do not steal an else.
  reached = false;
  if (g_world->calls.empty())
    MBO_RETURN_IF_ERROR(g_world->Next(1));
  else
    reached = true;
  for (int i = 2; i < 4; ++i)
    MBO_RETURN_IF_ERROR(g_world->Next(i));
  return absl::OkStatus();
}
absl::Status ReturnNames() {
  // Any name may be used outside.
  const absl::Status var = g_world->Next(1);
  const absl::Status other = g_world->Next(2);
  const absl::Status third = g_world->Next(3);
  MBO_RETURN_IF_ERROR(var);
  MBO_RETURN_IF_ERROR(other);
  MBO_RETURN_IF_ERROR(third);
  return absl::OkStatus();
}
absl::StatusOr<std::string> AssignNew(int*) {
  MBO_ASSIGN_OR_RETURN(const std::string a, g_world->NextOr<std::string>(1, "one"));
  MBO_ASSIGN_OR_RETURN(auto b, g_world->NextOr<std::unique_ptr<int>>(2, std::make_unique<int>(2)));
  MBO_ASSIGN_OR_RETURN(const int c, g_world->NextOr<int>(3, 3));
  return a + std::to_string(*b) + std::to_string(c);
}
struct Targets {
  std::string text = "before";
  std::unique_ptr<int> owner = std::make_unique<int>(-1);
  std::vector<int> list = {-1};
};
absl::StatusOr<std::unique_ptr<int>> AssignOld(Targets& t, std::vector<int>& given) {
  MBO_ASSIGN_OR_RETURN(t.text, g_world->NextOr<std::string>(1, "after"));
  MBO_ASSIGN_OR_RETURN(t.owner, g_world->NextOr<std::unique_ptr<int>>(2, std::make_unique<int>(2)));
  MBO_ASSIGN_OR_RETURN(t.list, g_world->NextOr<std::vector<int>>(3, std::move(given)));
  return std::make_unique<int>(9);
}
absl::StatusOr<int> MoveTo() {
  MBO_MOVE_TO_OR_RETURN((g_world->NextOr<std::pair<int, int>>(1, {10, 20})), auto [a, b]);
  MBO_MOVE_TO_OR_RETURN((g_world->NextOr<std::tuple<int, int, int>>(2, {1, 2, 3})), const auto [c, d, e]);
  MBO_MOVE_TO_OR_RETURN((g_world->NextOr<std::map<int, int>>(3, {{4, 5}})), const std::map<int, int> m);
  return a + b + c + d + e + m.at(4);
}
absl::Status Loop() {
  int sum = 0;
  for (int i = 1; i <= 3; ++i) {
    MBO_ASSIGN_OR_RETURN(const int v, g_world->NextOr<int>(i, i));
    sum += v;
    if (i == 2) continue;
  }
  return sum == 6 ? absl::OkStatus() : absl::InternalError("wrong sum");
}
template<typename T>
struct Through {
  absl::StatusOr<T> operator()() {
    MBO_RETURN_IF_ERROR(inner());
    MBO_ASSIGN_OR_RETURN(T v, inner());
    MBO_MOVE_TO_OR_RETURN(inner(), T w);
    return w;
  }
  absl::StatusOr<T> inner() {
    MBO_ASSIGN_OR_RETURN(T v, g_world->NextOr<T>(static_cast<int>(g_world->calls.size()) + 1, T()));
    return v;
  }
};

PBT_PROP(macros, 60000, 2000000, "one of the guarded calls fails") {
  World w;
  const std::size_t fail = src.Draw(4);  // 0: the first ... 3 and 4: none
  for (std::size_t i = 0; i < 3; ++i) w.outcome.push_back(i == fail ? AnyStatus(src, false) : i > fail ? AnyStatus(src, true) : Model());
  g_world = &w;
  const bool fails = fail < 3;
  Model want = fails ? w.outcome[fail] : Model();
  const std::size_t which = src.Draw(11);
  PBT_NOTE("function " << which << ", call " << fail + 1 << " of 3 fails with " << Text(want));
  if (fails) src.NonTrivial();
  src.Label(std::to_string(which) + (fails ? " fails" : " ok"));
  std::size_t made = fails ? fail + 1 : 3;
  int extra = 0;
  absl::Status got;
  switch (which) {
    case 0: got = ReturnPlain(); break;
    case 1:
      got = ReturnText();
      want.message += fails ? "-a1" : "";
      extra = fails;
      break;
    case 2:
      got = ReturnAround();
      if (fails) want.message = "a-" + want.message + "-b";
      extra = fails;
      break;
    case 3:
      got = ReturnPayload();
      if (fails) want.payloads["more"] = "data";
      extra = fails;
      break;
    case 4: {
      bool reached = true;
      got = ReturnNested(reached);
      PBT_CHECK(!reached, "the else belongs to the wrong if");
      break;
    }
    case 5:
      got = ReturnNames();
      made = 3;
      break;
    case 6: {
      const auto r = AssignNew(nullptr);
      got = GetStatus(r);
      if (r.ok()) PBT_EQ(*r, "one23", "values");
      break;
    }
    case 7: {
      Targets t;
      std::vector<int> given = {1, 2, 3};
      const int* where = given.data();
      const int* old = t.owner.get();
      auto r = AssignOld(t, given);
      PBT_EQ(t.text, fail > 0 ? "after" : "before", "text");
      PBT_CHECK(t.owner != nullptr, "owner");
      PBT_EQ(*t.owner, fail > 1 ? 2 : -1, "owner");
      if (fail <= 1) PBT_CHECK(t.owner.get() == old, "owner was replaced");
      PBT_CHECK((t.list == (fail > 2 ? std::vector<int>{1, 2, 3} : std::vector<int>{-1})), "list");
      if (fail > 2) PBT_CHECK(t.list.data() == where, "the list was copied, not moved");
      got = GetStatus(r);
      if (r.ok()) PBT_EQ(**r, 9, "result");
      break;
    }
    case 8: {
      const absl::StatusOr<int> r = MoveTo();
      got = GetStatus(r);
      if (r.ok()) PBT_EQ(*r, 41, "sum");
      break;
    }
    case 9: got = Loop(); break;
    case 10:
      got = ReturnPrefix();
      if (fails) want.message = "a-" + want.message;
      extra = fails;
      break;
    default:
      switch (src.Draw(2)) {
        case 0: got = GetStatus(Through<int>()()); break;
        case 1: got = GetStatus(Through<std::string>()()); break;
        default: got = GetStatus(Through<std::unique_ptr<int>>()()); break;
      }
      break;
  }
  g_world = nullptr;
  PBT_EQ(Text(Of(got)), Text(want), "returned status");
  PBT_EQ(w.calls.size(), made, "number of guarded calls");
  for (std::size_t i = 0; i < w.calls.size(); ++i) PBT_EQ(w.calls[i], static_cast<int>(i) + 1, "order of the guarded calls");
  PBT_EQ(w.streamed, extra, "evaluations of the additional text");
}

// Chains: an error passes through several layers that each may add something.
absl::Status Layer(const std::vector<int>& kinds, std::size_t at, const absl::Status& last, int& entered) {
  ++entered;
  if (at == kinds.size()) return last;
  const std::string name = std::to_string(at);
  switch (kinds[at]) {
    case 0: MBO_RETURN_IF_ERROR(Layer(kinds, at + 1, last, entered)); break;
    case 1: MBO_RETURN_IF_ERROR(Layer(kinds, at + 1, last, entered)) << "<" << name << ">"; break;
    case 2: MBO_RETURN_IF_ERROR(Layer(kinds, at + 1, last, entered)).SetPrepend() << "[" << name << "]" << StatusBuilder::Append << ";"; break;
    case 3: MBO_RETURN_IF_ERROR(Layer(kinds, at + 1, last, entered)).SetPayload("layer" + name, name); break;
    case 4: {
      auto inner = [&]() -> absl::StatusOr<int> {
        MBO_RETURN_IF_ERROR(Layer(kinds, at + 1, last, entered)).SetAppend() << name;
        return 1;
      };
      MBO_ASSIGN_OR_RETURN(const int v, inner());
      return v == 1 ? absl::OkStatus() : absl::InternalError("value");
    }
    case 5: return StatusBuilder(Layer(kinds, at + 1, last, entered)) << "+";
    default: return GetStatus(StatusBuilder(GetStatus(Layer(kinds, at + 1, last, entered))));
  }
  return absl::OkStatus();
}
PBT_PROP(layers, 50000, 2000000, "an error that passes at least two layers") {
  Model m = AnyStatus(src, true);
  std::vector<int> kinds;
  for (std::size_t n = src.Size(0, 8); n > 0; --n) kinds.push_back(static_cast<int>(src.Draw(6)));
  PBT_NOTE("layers " << pbt::Show(kinds) << " around " << Text(m));
  if (m.code != 0 && kinds.size() > 1) src.NonTrivial();
  int entered = 0;
  const absl::Status got = Layer(kinds, 0, Make(m), entered);
  if (m.code != 0) {
    for (std::size_t at = kinds.size(); at > 0; --at) {
      const std::string name = std::to_string(at - 1);
      switch (kinds[at - 1]) {
        case 1: m.message += "<" + name + ">"; break;
        case 2: m.message = "[" + name + "]" + m.message + ";"; break;
        case 3: m.payloads["layer" + name] = name; break;
        case 4: m.message += name; break;
        case 5: m.message += "+"; break;
        default: break;
      }
    }
  }
  PBT_EQ(Text(Of(got)), Text(m), "status behind all layers");
  PBT_EQ(entered, static_cast<int>(kinds.size()) + 1, "evaluations");
}

PBT_PROP(get_status, 30000, 600000, "the status is an error") {
  const Model m = AnyStatus(src, true);
  if (m.code != 0) src.NonTrivial();
  PBT_NOTE(Text(m));
  const absl::Status s = Make(m);
  PBT_EQ(Text(Of(GetStatus(s))), Text(m), "const Status");
  PBT_EQ(Text(Of(GetStatus(Make(m)))), Text(m), "Status");
  PBT_EQ(Text(Of(GetStatus(StatusBuilder(s)))), Text(m), "StatusBuilder");
  const StatusBuilder b(s);
  PBT_EQ(Text(Of(GetStatus(b))), Text(m), "const StatusBuilder");
  absl::StatusOr<std::string> so = m.code != 0 ? absl::StatusOr<std::string>(s) : absl::StatusOr<std::string>("value");
  PBT_EQ(Text(Of(GetStatus(std::as_const(so)))), Text(m), "const StatusOr");
  if (so.ok()) PBT_EQ(*so, "value", "the value of a StatusOr");
  PBT_EQ(Text(Of(GetStatus(so))), Text(m), "StatusOr");
  PBT_EQ(Text(Of(GetStatus(std::move(so)))), Text(m), "StatusOr moved");
  absl::StatusOr<std::unique_ptr<int>> sp = m.code != 0 ? absl::StatusOr<std::unique_ptr<int>>(s) : absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(1));
  PBT_EQ(Text(Of(GetStatus(sp))), Text(m), "StatusOr of a move-only type");
  PBT_EQ(Text(Of(s)), Text(m), "the status itself");
}

}  // namespace
