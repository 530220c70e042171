#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_set>

namespace pbt {
namespace {

constexpr int kFailExit = 77;
constexpr int kHangTicks = 20;  // CPU seconds
int g_hang_ticks = kHangTicks;  // lower while shrinking
bool g_shrinking = false;       // cases that run far out of choices are given up
constexpr size_t kOverrun = 20000;

std::vector<Prop>& Props() { static std::vector<Prop> v; return v; }
std::vector<Finding>& Findings() { static std::vector<Finding> v; return v; }

struct Shared {
  volatile uint64_t stop_at;  // lowest failing case index
  struct Slot {
    volatile uint64_t cur;
    volatile uint64_t fail;  // failing index or ~0
    char msg[8192];
  } slot[64];
  // for a single recorded run:
  volatile uint64_t nchoices;
  uint64_t choices[1 << 18];
  char notes[1 << 16];
  volatile int nontrivial;
};
Shared* g_sh = nullptr;
int g_slot = 0;
bool g_record = false;  // copy choices to shared while drawing
volatile sig_atomic_t g_ticks = 0;
volatile uint64_t g_last_case = ~0ULL;
volatile uint64_t g_case = 0;
std::string g_scratch = "/tmp";

void OnTick(int) {
  if (g_case == g_last_case) {
    g_ticks = g_ticks + 1;
    if (g_ticks >= g_hang_ticks) {
      strcpy(g_sh->slot[g_slot].msg, "case did not terminate within 20 s of CPU time");
      g_sh->slot[g_slot].fail = g_case;
      _exit(kFailExit);
    }
  } else {
    g_last_case = g_case;
    g_ticks = 0;
  }
}

void ArmWatchdog() {
  g_last_case = ~0ULL;
  g_ticks = 0;
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = OnTick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void KickWatchdog() { g_last_case = ~0ULL; }

uint64_t HashName(const char* s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
  return h;
}

uint64_t CaseSeed(uint64_t seed, const char* name, uint64_t idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL + HashName(name);
  SplitMix(s);
  s ^= idx * 0xD1B54A32D192ED03ULL;
  return SplitMix(s);
}

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string JsonStr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// Runs one case in a fork. Returns true if it failed. choices in/out.
struct RunOut {
  bool failed = false;
  std::string msg;
  std::string notes;
  std::vector<uint64_t> choices;
  bool nontrivial = false;
};

std::string ReadTail(const std::string& path, size_t max) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return "";
  std::string s;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  if (s.size() > max) s = s.substr(0, max);
  return s;
}

RunOut RunOne(const Prop& p, const std::vector<uint64_t>* replay, uint64_t rseed, bool verbose, bool quiet) {
  g_sh->nchoices = 0;
  g_sh->notes[0] = 0;
  g_sh->slot[0].msg[0] = 0;
  g_sh->slot[0].fail = ~0ULL;
  g_sh->nontrivial = 0;
  std::string errf = g_scratch + "/one.err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    g_slot = 0;
    g_record = true;
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    (void)quiet;
    ArmWatchdog();
    Src src;
    if (replay) src.StartReplay(*replay); else src.StartRandom(rseed);
    src.verbose_ = verbose;
    g_case = 0;
    p.fn(src);
    g_sh->nontrivial = src.nontrivial_;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  RunOut r;
  r.nontrivial = g_sh->nontrivial;
  r.choices.assign(g_sh->choices, g_sh->choices + g_sh->nchoices);
  r.notes = g_sh->notes;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == kFailExit) {
    r.msg = g_sh->slot[0].msg;
  } else {
    r.msg = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st))
                            : std::string("unexpected exit ") + std::to_string(WEXITSTATUS(st));
    r.msg += "\n" + ReadTail(errf, 3000);
  }
  return r;
}

std::vector<uint64_t> Shrink(const Prop& p, std::vector<uint64_t> best, double budget_s, size_t& tries) {
  double end = Now() + budget_s;
  tries = 0;
  struct Mode {
    Mode() { g_shrinking = true; g_hang_ticks = 4; }
    ~Mode() { g_shrinking = false; g_hang_ticks = kHangTicks; }
  } mode;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (Now() > end || tries > 4000) return false;
    ++tries;
    RunOut r = RunOne(p, &c, 0, false, true);
    if (!r.failed) return false;
    // Use what was really consumed, if not larger.
    if (r.choices.size() <= c.size()) best = r.choices; else best = c;
    return true;
  };
  auto strip = [](std::vector<uint64_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
  bool progress = true;
  while (progress && Now() < end && tries <= 4000) {
    progress = false;
    best = strip(best);
    // Delete chunks.
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0;) {
        if (i >= best.size()) { i = best.size(); if (i == 0) break; continue; }
        if (i + k > best.size()) continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) { progress = true; best = strip(best); }
        if (Now() > end || tries > 4000) return best;
      }
    }
    // Zero chunks.
    for (size_t k : {16, 4, 1}) {
      for (size_t i = 0; i < best.size(); i += k) {
        std::vector<uint64_t> c = best;
        bool any = false;
        for (size_t j = i; j < std::min(i + k, c.size()); ++j) { any |= c[j] != 0; c[j] = 0; }
        if (any && attempt(c)) progress = true;
      }
    }
    // Lower values.
    for (size_t i = 0; i < best.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        if (mid == best[i]) break;
        std::vector<uint64_t> c = best;
        c[i] = mid;
        if (attempt(c)) progress = true; else lo = mid + 1;
        if (Now() > end || tries > 4000) return best;
      }
    }
    // Lower a length and delete one later choice.
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      for (size_t j = i + 1; j < std::min(best.size(), i + 24); ++j) {
        std::vector<uint64_t> c = best;
        c[i] -= 1;
        c.erase(c.begin() + j);
        if (attempt(c)) { progress = true; break; }
        if (Now() > end || tries > 4000) return best;
      }
    }
  }
  return best;
}

}  // namespace

Register::Register(const char* name, uint64_t quick, uint64_t thorough, const char* rule, PropFn fn) {
  Props().push_back({name, quick, thorough, fn, rule});
}
RegisterFinding::RegisterFinding(const char* key, bool (*fn)()) { Findings().push_back({key, fn}); }

uint64_t Src::Draw(uint64_t max) {
  uint64_t v = 0;
  switch (mode_) {
    case Mode::kRandom:
      v = SplitMix(rng_);
      if (max != ~0ULL) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * (max + 1)) >> 64);
      break;
    case Mode::kReplay:
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (++pos_ > in_.size() + kOverrun && g_shrinking) _exit(0);  // a loop that waits for another choice
      if (v > max) v = max;
      break;
    case Mode::kBytes: {
      int n = max == 0 ? 0 : max < 256 ? 1 : max < 65536 ? 2 : max <= 0xFFFFFFFFULL ? 4 : 8;
      for (int i = 0; i < n; ++i) v = (v << 8) | (pos_ < nbytes_ ? bytes_[pos_++] : 0);
      if (v > max) v %= (max + 1);
      break;
    }
  }
  out_.push_back(v);
  if (g_record && out_.size() <= sizeof(g_sh->choices) / sizeof(g_sh->choices[0])) {
    g_sh->choices[out_.size() - 1] = v;
    g_sh->nchoices = out_.size();
  }
  return v;
}

size_t Src::Weighted(std::initializer_list<unsigned> w) {
  unsigned total = 0;
  for (unsigned x : w) total += x;
  uint64_t v = Draw(total - 1);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

uint64_t Src::U64() {
  switch (Draw(5)) {
    case 0: return Draw(16);
    case 1: return ~Draw(16);
    case 2: { uint64_t b = Draw(63); return (1ULL << b) + Draw(2) - 1; }
    case 3: return Draw(0xFFFF);
    default: return Draw(~0ULL);
  }
}

size_t Src::SkewSize(size_t max) {
  if (max <= 4) return Draw(max);
  switch (Draw(3)) {
    case 0: return Draw(3);
    case 1: return Draw(max < 12 ? max : 12);
    case 2: return Draw(max < 40 ? max : 40);
    default: return Draw(max);
  }
}

std::string Src::Str(std::string_view alphabet, size_t max_len) {
  size_t n = SkewSize(max_len);
  std::string s;
  s.reserve(n);
  for (size_t i = 0; i < n; ++i) s += alphabet[Draw(alphabet.size() - 1)];
  return s;
}

std::string Src::RawBytes(size_t max_len) {
  size_t n = SkewSize(max_len);
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    switch (Draw(4)) {
      case 0:
      case 1: s += static_cast<char>(97 + Draw(3)); break;
      case 2: s += static_cast<char>(32 + Draw(94)); break;
      case 3: s += std::string_view("\0\n\r\t\\\"'\x7f\x80\xff ,;:", 14)[Draw(13)]; break;
      default: s += static_cast<char>(Draw(255)); break;
    }
  }
  return s;
}

std::string Src::Blob(size_t len) {
  std::string s(len, '\0');
  uint64_t kind = Draw(5);
  uint64_t x = Draw(0xFFFFFFFF);
  switch (kind) {
    case 0: for (size_t i = 0; i < len; ++i) s[i] = static_cast<char>(x + i); break;  // counting
    case 1: for (size_t i = 0; i < len; ++i) s[i] = static_cast<char>(x); break;      // constant
    case 2: {  // constant with one different byte
      if (len) s[x % len] = static_cast<char>((x >> 24) | 1);
      break;
    }
    default: {
      uint64_t r = x;
      for (size_t i = 0; i < len; i += 8) {
        uint64_t v = SplitMix(r);
        memcpy(&s[i], &v, std::min<size_t>(8, len - i));
      }
      if (kind == 4) for (auto& c : s) c = static_cast<char>(c | 0x80);
      break;
    }
  }
  return s;
}

void Src::Label(const std::string& label) {
  static std::unordered_set<std::string> pool;  // labels_ holds plain pointers
  labels_.push_back(pool.emplace(label).first->c_str());
}
void Src::NoteStr(std::string s) {
  notes_ += s;
  notes_ += '\n';
  if (g_record) {  // survives a crash of the case
    size_t n = std::min(notes_.size(), sizeof(g_sh->notes) - 1);
    memcpy(g_sh->notes, notes_.data(), n);
    g_sh->notes[n] = 0;
  }
}

#ifdef PBT_FUZZ
bool g_fuzz = true;
#else
bool g_fuzz = false;
#endif

void Fail(const char* file, int line, const std::string& msg) {
  const char* base = strrchr(file, '/');
  std::string m = std::string(base ? base + 1 : file) + ":" + std::to_string(line) + ": " + msg;
  if (g_fuzz || g_sh == nullptr) {
    fprintf(stderr, "PBT-FAIL %s\n", m.c_str());
    abort();
  }
  auto& slot = g_sh->slot[g_slot];
  size_t n = std::min(m.size(), sizeof(slot.msg) - 1);
  memcpy(slot.msg, m.data(), n);
  slot.msg[n] = 0;
  slot.fail = g_case;
  _exit(kFailExit);
}

std::string Quote(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
    if (r.size() > 1500) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
  }
  return r + "\"";
}
std::string Hex(std::string_view s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

ChildResult RunChildImpl(void (*f)(void*), void* ctx) {
  ChildResult r;
  int fds[2];
  if (pipe(fds) != 0) abort();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    dup2(fds[1], 1);
    dup2(fds[1], 2);
    close(fds[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_ticks = 0;
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    f(ctx);
    fflush(stdout);
    fflush(stderr);
    _exit(0);
  }
  close(fds[1]);
  char buf[4096];
  for (;;) {
    ssize_t n = read(fds[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    r.out.append(buf, n);
  }
  close(fds[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  if (WIFSIGNALED(st)) { r.signaled = true; r.sig = WTERMSIG(st); }
  return r;
}

void Progress() { KickWatchdog(); }
const char* ScratchDir() { return g_scratch.c_str(); }

std::string CaseDir() {
  std::string d = g_scratch + "/case" + std::to_string(getpid());
  // Only ever removes inside our own scratch directory (links are not followed).
  std::error_code ec;
  std::filesystem::remove_all(d, ec);
  mkdir(d.c_str(), 0755);
  return d;
}

namespace {

int RunAll(bool thorough, uint64_t seed, const std::string& only, double scale, int workers) {
  std::string json = "{\"props\":[";
  bool first = true;
  int rc = 0;
  const double start = Now();
  bool failed = false;
  for (const Prop& p : Props()) {
    if (!only.empty() && only != p.name) continue;
    double t0 = Now();
    // Enough is known: what fails need not be found in every way it shows.
    if (failed && t0 - start > (thorough ? 1200 : 100)) break;
    uint64_t total = static_cast<uint64_t>((thorough ? p.thorough : p.quick) * scale);
    if (total == 0) continue;
    g_sh->stop_at = ~0ULL;
    std::vector<pid_t> pids;
    int nw = static_cast<int>(std::min<uint64_t>(workers, total));
    for (int w = 0; w < nw; ++w) {
      g_sh->slot[w].cur = ~0ULL;
      g_sh->slot[w].fail = ~0ULL;
      g_sh->slot[w].msg[0] = 0;
      fflush(stdout);
      fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) {
        g_slot = w;
        std::string base = g_scratch + "/w" + std::to_string(w);
        int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        ArmWatchdog();
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> fps;
        std::vector<uint64_t> sample_idx;
        uint64_t evals = 0, nontriv = 0;
        Src src;
        for (uint64_t i = w; i < total; i += nw) {
          if (i > g_sh->stop_at) break;
          g_sh->slot[w].cur = i;
          g_case = i;
          src.StartRandom(CaseSeed(seed, p.name, i));
          p.fn(src);
          ++evals;
          for (const char* l : src.labels_) ++labels[l];
          if (src.nontrivial_) {
            ++nontriv;
            uint64_t h = 1469598103934665603ULL;
            for (uint64_t c : src.choices()) { h ^= c; SplitMix(h); h *= 1099511628211ULL; h ^= h >> 29; }
            if (fps.size() < 4000000) fps.insert(h);
            if (sample_idx.size() < 3) sample_idx.push_back(i);
          }
        }
        g_sh->slot[w].cur = ~0ULL;
        FILE* f = fopen((base + ".stat").c_str(), "wb");
        if (!f) _exit(3);
        fprintf(f, "%llu %llu\n", (unsigned long long)evals, (unsigned long long)nontriv);
        fprintf(f, "%zu", sample_idx.size());
        for (uint64_t s : sample_idx) fprintf(f, " %llu", (unsigned long long)s);
        fprintf(f, "\n%zu\n", labels.size());
        for (auto& [k, v] : labels) fprintf(f, "%llu %s\n", (unsigned long long)v, k.c_str());
        fclose(f);
        f = fopen((base + ".fps").c_str(), "wb");
        for (uint64_t h : fps) fwrite(&h, 8, 1, f);
        fclose(f);
        _exit(0);
      }
      pids.push_back(pid);
    }
    uint64_t fail_idx = ~0ULL;
    std::string fail_msg;
    bool internal = false;
    for (int left = nw; left > 0; --left) {
      int st = 0;
      pid_t pid = wait(&st);
      int w = static_cast<int>(std::find(pids.begin(), pids.end(), pid) - pids.begin());
      if (w >= nw) { ++left; continue; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      uint64_t idx = g_sh->slot[w].cur;
      if (idx == ~0ULL) { internal = true; continue; }
      if (idx < fail_idx) {
        fail_idx = idx;
        g_sh->stop_at = idx;
      }
    }
    uint64_t evals = 0, nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> fps;
    std::vector<uint64_t> sample_idx;
    for (int w = 0; w < nw; ++w) {
      std::string base = g_scratch + "/w" + std::to_string(w);
      FILE* f = fopen((base + ".stat").c_str(), "rb");
      if (f) {
        unsigned long long a, b, c;
        size_t n;
        if (fscanf(f, "%llu %llu\n%zu", &a, &b, &n) == 3) {
          evals += a;
          nontriv += b;
          for (size_t i = 0; i < n; ++i) if (fscanf(f, "%llu", &c) == 1 && i < 1) sample_idx.push_back(c);
          if (fscanf(f, "%zu\n", &n) == 1) {
            for (size_t i = 0; i < n; ++i) {
              char name[512];
              if (fscanf(f, "%llu %511[^\n]\n", &c, name) == 2) labels[name] += c;
            }
          }
        }
        fclose(f);
      }
      f = fopen((base + ".fps").c_str(), "rb");
      if (f) {
        uint64_t h;
        while (fread(&h, 8, 1, f) == 1) fps.insert(h);
        fclose(f);
      }
      unlink((base + ".stat").c_str());
      unlink((base + ".fps").c_str());
    }
    if (internal) rc = std::max(rc, 3);
    if (!first) json += ",";
    first = false;
    json += "{\"name\":" + JsonStr(p.name) + ",\"rule\":" + JsonStr(p.rule);
    std::string status = internal ? "internal_error" : "ok";
    if (fail_idx != ~0ULL) {
      RunOut r0 = RunOne(p, nullptr, CaseSeed(seed, p.name, fail_idx), false, true);
      const bool hang = r0.msg.starts_with("case did not terminate");
      const int again = hang ? 1 : 3;
      int bad = 0;
      for (int k = 0; k < again; ++k) bad += RunOne(p, &r0.choices, 0, false, true).failed;
      // A failure that depends on the state of the memory comes and goes.
      for (int k = 0; k < 12 && bad == 0; ++k) {
        const RunOut rk = RunOne(p, nullptr, CaseSeed(seed, p.name, fail_idx), false, true);
        if (rk.failed) { r0 = rk; bad = 1; }
      }
      if (bad > 0) {
        size_t tries = 0;
        std::vector<uint64_t> small = r0.choices;
        RunOut rv = r0;
        if (r0.failed && bad == again) {
          small = Shrink(p, r0.choices, failed ? 8.0 : 40.0, tries);
          rv = RunOne(p, &small, 0, true, true);
          int conf = rv.failed ? 1 : 0;
          for (int k = 1; k < again; ++k) conf += RunOne(p, &small, 0, false, true).failed;
          if (conf < again) { small = r0.choices; rv = RunOne(p, &small, 0, true, true); }
        }
        status = "fail";
        failed = true;
        rc = std::max(rc, 1);
        json += ",\"case\":" + std::to_string(fail_idx) + ",\"msg\":" + JsonStr(rv.msg) + ",\"notes\":" + JsonStr(rv.notes) + ",\"shrink_tries\":" + std::to_string(tries) + ",\"choices\":[";
        for (size_t i = 0; i < small.size(); ++i) json += (i ? "," : "") + std::to_string(small[i]);
        json += "]";
        evals = std::max<uint64_t>(evals, 1);
      } else {
        status = "flaky";
        rc = std::max(rc, 3);
        json += ",\"case\":" + std::to_string(fail_idx) + ",\"msg\":" + JsonStr("not reproducible: " + r0.msg);
      }
    }
    std::sort(sample_idx.begin(), sample_idx.end());
    json += ",\"samples\":[";
    bool fs = true;
    if (status == "ok") {
      for (size_t i = 0; i < sample_idx.size() && i < 3; ++i) {
        RunOut r = RunOne(p, nullptr, CaseSeed(seed, p.name, sample_idx[i]), true, true);
        std::string n = r.notes.substr(0, 1200);
        if (n.empty()) {
          n = "choices:";
          for (size_t k = 0; k < r.choices.size() && k < 60; ++k) n += " " + std::to_string(r.choices[k]);
        }
        json += (fs ? "" : ",") + JsonStr(n);
        fs = false;
      }
    }
    json += "],\"status\":\"" + status + "\",\"evaluations\":" + std::to_string(evals) + ",\"nontrivial\":" + std::to_string(nontriv)
            + ",\"distinct_nontrivial\":" + std::to_string(fps.size()) + ",\"labels\":{";
    bool fl = true;
    for (auto& [k, v] : labels) { json += (fl ? "" : ",") + JsonStr(k) + ":" + std::to_string(v); fl = false; }
    char tb[32];
    snprintf(tb, sizeof tb, "%.2f", Now() - t0);
    json += std::string("},\"wall_s\":") + tb + "}";
  }
  json += "],\"findings\":[";
  first = true;
  for (const Finding& f : Findings()) {
    ChildResult r = RunChild([&] { _exit(f.fn() ? 1 : 0); });
    bool present = !(r.exited && r.code == 0);
    json += std::string(first ? "" : ",") + "{\"key\":" + JsonStr(f.key) + ",\"present\":" + (present ? "true" : "false") + "}";
    first = false;
  }
  json += "]}";
  FILE* f = fopen((g_scratch + "/result.json").c_str(), "wb");
  if (!f) return 3;
  fwrite(json.data(), 1, json.size(), f);
  fclose(f);
  return rc;
}

}  // namespace
}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Prop* prop = [] {
    const char* n = getenv("PBT_PROP");
    for (auto& p : pbt::Props()) if (!n || !strcmp(n, p.name)) return &p;
    abort();
  }();
  static std::string scratch = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp";
  pbt::g_scratch = scratch;
  pbt::Src src;
  src.StartBytes(data, size);
  prop->fn(src);
  return 0;
}
#else
int main(int argc, char** argv) {
  using namespace pbt;
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  bool thorough = false;
  uint64_t seed = 1;
  std::string only, replay, from_bytes;
  double scale = 1;
  int workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--prop") only = next();
    else if (a == "--scratch") g_scratch = next();
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--replay") replay = next();          // comma separated choices
    else if (a == "--from-bytes") from_bytes = next();  // fuzzer input -> choices
    else if (a == "--list") { for (auto& p : Props()) printf("%s\n", p.name); return 0; }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (!replay.empty() || !from_bytes.empty()) {
    for (auto& p : Props()) {
      if (only != p.name) continue;
      std::vector<uint64_t> c;
      if (!replay.empty() && replay != "-") {
        const char* s = replay.c_str();
        while (*s) {
          char* e;
          c.push_back(strtoull(s, &e, 10));
          s = *e ? e + 1 : e;
        }
      }
      if (!from_bytes.empty()) {
        std::string b = ReadTail(from_bytes, 1 << 20);
        g_sh->nchoices = 0;
        pid_t pid = fork();
        if (pid == 0) {
          g_record = true;
          int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 2);
          dup2(fd, 1);
          ArmWatchdog();
          Src src;
          src.StartBytes(reinterpret_cast<const uint8_t*>(b.data()), b.size());
          p.fn(src);
          _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        c.assign(g_sh->choices, g_sh->choices + g_sh->nchoices);
        RunOut r0 = RunOne(p, &c, 0, false, true);
        if (r0.failed) {
          size_t tries;
          c = Shrink(p, c, 45, tries);
        }
        printf("CHOICES:");
        for (size_t i = 0; i < c.size(); ++i) printf("%s%llu", i ? "," : "", (unsigned long long)c[i]);
        printf("\n");
      }
      RunOut r = RunOne(p, &c, 0, true, false);
      printf("%s\n%s\n%s\n", r.failed ? "FAILED" : "passed", r.msg.c_str(), r.notes.c_str());
      return r.failed ? 1 : 0;
    }
    return 3;
  }
  return RunAll(thorough, seed, only, scale, workers);
}
#endif
