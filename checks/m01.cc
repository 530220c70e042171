// M01: template expansion substitutes exactly what the template says.
//
// Documents are generated as trees together with their text; the tree is interpreted over a model of the data
// (lib/mope_model.h), the text is expanded by the library over data that was built through its interface, read
// from INI files or given to the tool.
#include <filesystem>
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "mope_model.h"
#include "mbo/container/any_scan.h"
#include "mbo/mope/ini.h"
#include "mbo/mope/mope.h"
#include "pbt.h"
#include "tool.h"

#define main MopeToolMain
#include "mbo/mope/mope_main.cc"
#undef main

namespace {

using mbo::mope::Template;
using namespace mope_model;

using Context = std::vector<std::pair<std::string, std::string>>;

absl::Status Run(const Template& t, const Context& ctx, std::string& text) {
  if (ctx.empty()) return t.Expand(text);
  return t.Expand(text, mbo::container::MakeConvertingScan(ctx));
}

// A data tree and the template with the same data, built by a history of operations over all open dictionaries.
struct Data {
  Dict model;
  Template real;
  std::vector<std::pair<Dict*, Template*>> open;
};
void Build(pbt::Src& src, Data& data) {
  data.open.emplace_back(&data.model, &data.real);
  const std::size_t ops = src.Size(0, 24);
  for (std::size_t k = 0; k < ops; ++k) {
    auto [m, t] = data.open[src.Draw(data.open.size() - 1)];
    switch (src.Weighted({5, 4, 1, 1})) {
      case 0: {
        const std::string name = src.Chance(1, 15) ? AnyName(src) : src.Pick(ValueNames());
        const std::string value = name.starts_with('n') && src.Chance(4, 5) ? std::to_string(src.Int(-3, 6)) : ValueText(src);
        const bool update = src.Chance(1, 3);
        const absl::Status s = t->SetValue(name, value, update);
        const bool may = !m->Has(name) || (update && m->values.contains(name));
        PBT_NOTE("SetValue " << name << " " << pbt::Quote(value) << " update " << update << " in dictionary " << (m == &data.model ? "root" : "nested"));
        PBT_EQ(s.ok(), may, "SetValue " << name << ": " << s);
        if (may) m->values[name] = value;
        break;
      }
      case 1: {
        const std::string name = src.Chance(1, 15) ? AnyName(src) : src.Pick(SectionNames());
        auto s = t->AddSection(name);
        const bool may = !m->values.contains(name);
        PBT_NOTE("AddSection " << name);
        PBT_EQ(s.ok(), may, "AddSection " << name << ": " << s.status());
        if (may) {
          m->sections[name].emplace_back();
          data.open.emplace_back(&m->sections[name].back(), *s);
        }
        break;
      }
      case 2: {
        const std::string name(src.PickStr({"", "1", "9a", "a b", "a-b", "-", " a", "a ", "{{a}}", "#a", "a\n", "a=b", "\xC3\xA9"}));
        PBT_CHECK(!t->SetValue(name, "x").ok(), "SetValue accepts the name " << pbt::Quote(name));
        PBT_CHECK(!t->AddSection(name).ok(), "AddSection accepts the name " << pbt::Quote(name));
        PBT_CHECK(!Template::IsValidName(name), "IsValidName " << pbt::Quote(name));
        break;
      }
      default: {
        const std::string name = AnyName(src);
        PBT_CHECK(Template::IsValidName(name), name);
        break;
      }
    }
  }
}

void ShowDict(const Dict& d, const std::string& in, std::string& r) {
  for (const auto& [k, v] : d.values) r += in + k + "=" + pbt::Quote(v) + "\n";
  for (const auto& [k, l] : d.sections) {
    for (const Dict& s : l) {
      r += in + "[" + k + "]\n";
      ShowDict(s, in + "  ", r);
    }
  }
}
std::string ShowDict(const Dict& d) {
  std::string r = "data:\n";
  ShowDict(d, "  ", r);
  return r;
}

PBT_PROP(expand, 60000, 1500000, "the document has a section, range or list with at least one element") {
  Data data;
  Build(src, data);
  Context ctx;
  Ctx mctx;
  bool clash = false;
  if (src.Chance(1, 3)) {
    const std::size_t n = src.Size(1, 3);
    for (std::size_t i = 0; i < n; ++i) {
      const std::string name = src.Chance(1, 10) ? AnyName(src) : src.Pick(ContextNames());
      const std::string value = ValueText(src);
      ctx.emplace_back(name, value);
      clash = !mctx.emplace(name, value).second || clash;
    }
  }
  Maker maker(src, 30, data.model);
  const std::vector<Node> doc = maker.Make();
  Meaning want;
  std::string expected = want.Eval(doc, data.model, mctx);
  if (want.vague) return;
  PBT_NOTE(ShowDict(data.model));
  PBT_NOTE("template: " << pbt::Quote(maker.text));
  if (want.loops || want.sections) src.NonTrivial();
  src.Label(clash || want.error ? "error" : want.joins ? "joined" : want.sections && want.loops ? "both" : want.sections ? "section" : want.loops ? "loop" : "plain");
  std::string text = maker.text;
  const absl::Status s = Run(data.real, ctx, text);
  if (clash || want.error) {
    PBT_CHECK(!s.ok(), "expansion must fail but gives " << pbt::Quote(text));
    return;
  }
  PBT_CHECK(s.ok(), "status " << s << " but the document means " << pbt::Quote(expected));
  PBT_EQ(text, expected, "expanded text");
  if (src.Chance(1, 8)) {  // Expanding leaves the data as it is, and copies have it too.
    const Template copy = data.real;
    for (const Template* t : {&std::as_const(data.real), &copy}) {
      std::string again = maker.text;
      PBT_CHECK(Run(*t, ctx, again).ok(), "expanding again fails");
      PBT_EQ(again, expected, "expanding again");
    }
  }
}

// Data from an INI file: groups are sections, levels are split at '.' and repeated with ':'.
std::string IniText(pbt::Src& src) { return src.Chance(2, 3) ? src.Str("xyz12", 3) : src.Chance(1, 2) ? std::to_string(src.Int(-3, 6)) : std::string(src.PickStr({"a=b", "{{a}}", "a b", "[x]", ";", "#c", "a;b", ""})); }
void IniTree(pbt::Src& src, Dict& d, const std::string& path, int depth, std::vector<std::pair<std::string, std::vector<std::string>>>& groups) {
  std::vector<std::string> lines;
  const std::size_t n = src.Size(0, 3);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = src.Pick(ValueNames());
    if (d.Has(name)) continue;
    const std::string value = IniText(src);
    d.values[name] = value;
    lines.push_back(name + std::string(src.PickStr({"=", " = ", "= "})) + value);
  }
  if (!lines.empty() || path.empty()) groups.emplace_back(path, lines);
  if (depth == 3) return;
  const std::size_t subs = src.Size(depth == 0 ? 1 : 0, 2);
  for (std::size_t i = 0; i < subs; ++i) {
    const std::string name = src.Pick(SectionNames());
    if (d.Has(name)) continue;
    const std::size_t rep = src.Size(1, 4);
    for (std::size_t k = 0; k < rep; ++k) {
      std::string p = path.empty() ? name : path + "." + name;
      if (k != 0) p += ":" + std::to_string(k);
      const std::size_t before = groups.size();
      Dict sub;
      IniTree(src, sub, p, depth + 1, groups);
      if (groups.size() == before) {  // Groups without keys may not be known.
        sub.values["a"] = "1";
        groups.emplace_back(p, std::vector<std::string>{"a=1"});
      }
      d.sections[name].push_back(std::move(sub));
    }
  }
}

PBT_PROP(ini, 6000, 150000, "the INI file has sections and the document expands some of them") {
  Dict model;
  std::vector<std::pair<std::string, std::vector<std::string>>> groups;
  IniTree(src, model, "", 0, groups);
  std::string file;
  for (const auto& [g, lines] : groups) {
    if (!g.empty()) file += "[" + g + "]\n";
    for (const auto& l : lines) file += l + "\n";
    if (src.Chance(1, 3)) file += src.PickStr({"\n", "; comment\n", "# comment\n"});
  }
  Maker maker(src, 30, model);
  const std::vector<Node> doc = maker.Make();
  Meaning want;
  Ctx ctx;
  const std::string expected = want.Eval(doc, model, ctx);
  if (want.vague) return;
  PBT_NOTE("ini: " << pbt::Quote(file));
  PBT_NOTE("template: " << pbt::Quote(maker.text));
  if (want.sections) src.NonTrivial();
  const std::string dir = pbt::CaseDir();
  WriteFile(dir + "/d.ini", file);
  Template t;
  const absl::Status s = mbo::mope::ReadIniToTemlate(dir + "/d.ini", t);
  PBT_CHECK(s.ok(), "reading fails: " << s);
  std::string text = maker.text;
  const absl::Status e = t.Expand(text);
  if (want.error) {
    PBT_CHECK(!e.ok(), "expansion must fail but gives " << pbt::Quote(text));
    return;
  }
  PBT_CHECK(e.ok(), "status " << e << " but the document means " << pbt::Quote(expected));
  PBT_EQ(text, expected, "expanded text");
}

// Every kind of conflict in an INI file is an error.
PBT_PROP(ini_bad, 600, 6000, "always") {
  src.NonTrivial();
  std::string file(src.PickStr({"1=a\n", "a b=1\n", "[s]\n-=1\n", "[1]\na=1\n", "[s.]\na=1\n", "[s..t]\na=1\n", "[a b]\na=1\n", "s=1\n[s]\na=1\n",
                                "[s]\nt=1\n[s.t]\na=1\n", "[:1]\na=1\n", "[s.:1]\na=1\n", "[s-t]\nk=1\n"}));
  file = std::string(src.PickStr({"", "; x\n", "foo=1\n", "[other]\nfoo=1\n[]\n"})) + file;
  PBT_NOTE("ini: " << pbt::Quote(file));
  const std::string dir = pbt::CaseDir();
  WriteFile(dir + "/d.ini", file);
  Template t;
  PBT_CHECK(!mbo::mope::ReadIniToTemlate(dir + "/d.ini", t).ok(), "the INI file is accepted");
  PBT_CHECK(!mbo::mope::ReadIniToTemlate(dir + "/none.ini", t).ok(), "a missing INI file is accepted");
}

// The tool: template, values, sections and INI data in, expanded text out.
PBT_PROP(tool, 700, 12000, "the tool has data from flags or a file") {
  const std::string dir = pbt::CaseDir();
  Dict model;
  Ctx ctx;
  std::vector<std::string> args;
  std::string sets;
  bool error = false;
  const std::size_t n = src.Size(0, 5);
  for (std::size_t i = 0; i < n; ++i) {
    std::string value(src.PickStr({"1", "x", "", "a=b", "=", "a:b", "2", "=x=", "a b", "{{a}}", ":"}));
    std::string key;
    switch (src.Weighted({4, 3, 2, 1})) {
      case 0: {
        key = src.Pick(ValueNames());
        error = model.Has(key) || error;
        model.values[key] = value;
        break;
      }
      case 1: {
        key = src.Pick(ContextNames());
        if (ctx.contains(key)) continue;
        ctx[key] = value;
        key = ":" + key;
        break;
      }
      case 2: {
        const std::size_t levels = src.Size(1, 3);
        Dict* at = &model;
        bool used = false;
        std::vector<std::string> path;
        for (std::size_t l = 0; l < levels; ++l) {
          path.push_back(src.Pick(SectionNames()));
        }
        if (model.Has(path[0])) used = true;
        if (used) continue;
        for (const auto& p : path) {
          key += p + ":";
          at = &at->sections[p].emplace_back();
        }
        const std::string name = src.Pick(ValueNames());
        key += name;
        at->values[name] = value;
        break;
      }
      default:
        if (!src.Chance(1, 8)) continue;
        key = src.PickStr({"", ":", "s:", "::a", "s::a", "a b", "1", "s:1", "1:s"});
        error = true;
        break;
    }
    if (i != 0 && !sets.empty()) sets += ",";
    sets += key;
    if (!(value.empty() && !key.empty() && src.Bool())) sets += "=" + value;
  }
  const bool set_only_empty = sets.empty();
  if (!set_only_empty || src.Chance(1, 4)) {
    if (!sets.empty()) args.push_back("--set=" + sets);
  }
  if (src.Chance(1, 2)) {
    std::vector<std::pair<std::string, std::vector<std::string>>> groups;
    Dict more;
    IniTree(src, more, "", 1, groups);
    std::string file;
    for (const auto& [g, lines] : groups) {
      if (!g.empty()) file += "[" + g + "]\n";
      for (const auto& l : lines) file += l + "\n";
    }
    WriteFile(dir + "/d.ini", file);
    PBT_NOTE("ini: " << pbt::Quote(file));
    for (auto& [k, v] : more.values) {
      error = model.Has(k) || error;
      model.values.emplace(k, v);
    }
    for (auto& [k, l] : more.sections) {
      error = model.values.contains(k) || error;
      model.sections[k].insert(model.sections[k].end(), l.begin(), l.end());
    }
    args.push_back("--ini=" + std::string(src.Bool() ? dir + "/" : "") + "d.ini");
  } else if (src.Chance(1, 8)) {
    args.push_back("--ini=none.ini");
    error = true;
  } else if (src.Chance(1, 3)) {
    args.push_back("--ini=");
  }
  Maker maker(src, 20, model);
  const std::vector<Node> doc = maker.Make();
  Meaning want;
  const std::string expected = want.Eval(doc, model, ctx);
  if (want.vague) return;
  error = error || want.error;
  if (src.Chance(1, 20)) {
    args.push_back("--template=none.mope");
    error = true;
  } else {
    WriteFile(dir + "/t.mope", maker.text);
    args.push_back("--template=t.mope");
  }
  std::string out;
  switch (src.Draw(3)) {
    case 0: break;
    case 1: args.push_back("--generate=-"); break;
    case 2: out = "out.txt"; break;
    default:
      out = "old.txt";
      WriteFile(dir + "/old.txt", "something that was here before, and is longer than what replaces it most of the time");
      break;
  }
  if (!out.empty()) args.push_back("--generate=" + out);
  if (args.size() > 2) src.NonTrivial();
  PBT_NOTE("args: " << pbt::Show(args) << " template: " << pbt::Quote(maker.text));
  const ToolResult r = RunTool(MopeToolMain, args, dir);
  PBT_CHECK(r.exited, "the tool does not end normally: " << r.Show());
  if (error) {
    PBT_CHECK(r.code != 0, "the tool must fail: " << r.Show());
    PBT_CHECK(!r.err.empty(), "no message: " << r.Show());
    return;
  }
  PBT_EQ(r.code, 0, r.Show());
  if (out.empty()) {
    PBT_EQ(r.out, expected, "standard output; " << r.err);
  } else {
    PBT_EQ(r.out, "", "standard output with an output file");
    PBT_EQ(ReadFile(dir + "/" + out), expected, "output file; " << r.err);
  }
  PBT_CHECK(out == "t.mope" || ReadFile(dir + "/t.mope") == maker.text, "the template file changed");
}

// Any text: no crash, the same answer twice, nothing invented in text without tags.
PBT_PROP(raw, 60000, 1500000, "the text has a tag") {
  Template t;
  (void)t.SetValue("a", src.Bool() ? "1" : "{{b}}");
  (void)t.SetValue("b", "2");
  for (std::size_t i = src.Draw(2); i > 0; --i) {
    auto s = t.AddSection("s");
    (void)(*s)->SetValue("a", "x");
    if (src.Bool()) (void)(*(*s)->AddSection("t"))->SetValue("b", "y");
  }
  std::string text;
  const std::size_t n = src.Size(1, 14);
  for (std::size_t i = 0; i < n; ++i) {
    switch (src.Weighted({6, 3, 1})) {
      case 0:
        text += src.PickStr({"{{", "}}", "{{#", "{{/", "a", "b", "s", "t", "i", "=", ":", ";", "1", "3", "-", "[", "]", ",", "'", "\"", "\\", "\n", " ", "{{a}}", "{{#s}}", "{{/s}}", "{{#t}}",
                             "{{/t}}", "{{#i=1;3}}", "{{/i}}", "{{i}}", "{{#i=[a,b];','}}", "{{a=1}}", "{{c=1}}", "{{#s:','}}", "{{#c=}}", "{{/c}}", "\r", "\r\n", "{", "}"});
        break;
      case 1: text += src.Str("{}#/=:;,[]'\" \n1asi\\", 5); break;
      default: text += src.RawBytes(3); break;
    }
  }
  std::size_t digits = 0;  // Short numbers keep loops short.
  std::erase_if(text, [&digits](char c) { return c >= '0' && c <= '9' ? ++digits > 2 : (digits = 0, false); });
  PBT_NOTE("template: " << pbt::Quote(text));
  if (text.find("{{") != text.npos && text.find("}}") != text.npos) src.NonTrivial();
  std::string one = text, two = text;
  const absl::Status s1 = t.Expand(one);
  const absl::Status s2 = t.Expand(two);
  PBT_EQ(s1.ok(), s2.ok(), "expanding twice");
  PBT_EQ(one, two, "expanding twice");
  if (text.find("{{") == text.npos || text.find("}}") == text.npos) {
    PBT_CHECK(s1.ok(), "text without tags: " << s1);
    PBT_EQ(one, text, "text without tags");
  }
}

}  // namespace
