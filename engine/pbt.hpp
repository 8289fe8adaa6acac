// Property-based testing / coverage-guided engine used by every harness.
//
// A property is a function of a Src: every random decision is one integer
// drawn from Src ("choice").  The sequence of choices is the test case: it is
// recorded in shared memory while the case runs (so that a case which kills
// the process is still known), it is what is shrunk, mutated (guided mode) and
// what the replay file contains.  No other source of randomness or time is
// consulted, so a run is a function of the code and VERIF_SEED.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

// ------------------------------------------------------------ sanitizers ---
// default options (heap is filled with a pattern, so that a value read before
// it was written is the same wild value in every run)
extern "C" inline __attribute__((used)) const char *__asan_default_options() {
  return "detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=181:"
         "handle_abort=0:hard_rss_limit_mb=3500:symbolize=1:"
         "allocator_may_return_null=0:exitcode=77";
}
extern "C" inline __attribute__((used)) const char *
__ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:exitcode=78";
}
extern "C" inline __attribute__((used)) const char *__tsan_default_options() {
  return "halt_on_error=1:exitcode=79:report_signal_unsafe=0:die_after_fork=0:"
         "history_size=2";
}

namespace pbt {

// -------------------------------------------------------------- coverage ---
constexpr uint32_t COVSZ = 1u << 16;
inline uint8_t *cov_map() {
  static uint8_t m[COVSZ];
  return m;
}
inline bool &cov_on() {
  static bool b = false;
  return b;
}
inline uint64_t &cov_prev() {
  static uint64_t p = 0;
  return p;
}

// ------------------------------------------------------------------ misc ---
inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  splitmix(x);
  return splitmix(x);
}
inline double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  va_end(a);
  std::string s(n > 0 ? n : 0, '\0');
  if (n > 0)
    vsnprintf(&s[0], n + 1, f, b);
  va_end(b);
  return s;
}

/// printable form of arbitrary bytes
inline std::string esc(const std::string &s, size_t max = 6000) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() > max) {
      o += "...";
      break;
    }
    if (c == '\n')
      o += "\\n";
    else if (c == '\\')
      o += "\\\\";
    else if (c < 32 || c > 126)
      o += fmt("\\x%02x", c);
    else
      o += char(c);
  }
  return o;
}

constexpr size_t MAXCHOICES = 1u << 17;
struct Shared {
  volatile uint64_t evals, sub, idx, nch;
  volatile int state; // 0 idle 1 in case 2 failed 3 finished
  volatile uint64_t prog;
  char key[200];
  char msg[12000];
  char desc[60000];
  uint64_t ch[MAXCHOICES];
  uint64_t bd[MAXCHOICES];
};

// thrown by checks; not a std::exception, so a harness that catches what the
// code under test throws never swallows it
struct Failure {
  std::string key, msg;
};
struct Discard {};

class Src {
public:
  Shared *sh;
  uint64_t rng = 0;
  const std::vector<uint64_t> *pre = nullptr; // replayed prefix
  bool rng_tail = false; // after the prefix: rng (true) or zeros (false)
  bool want_note = false;
  bool nontrivial_ = false;
  std::map<std::string, uint64_t> *labels = nullptr;
  size_t pos = 0;

  /// uniform in [0, hi]; shrinks towards 0
  uint64_t u(uint64_t hi) {
    uint64_t v;
    if (pre && pos < pre->size()) {
      v = (*pre)[pos];
      if (v > hi)
        v = rng_tail ? v % (hi + 1) : hi;
    } else if (pre && !rng_tail)
      v = 0;
    else
      v = (hi == UINT64_MAX) ? splitmix(rng) : splitmix(rng) % (hi + 1);
    if (pos >= MAXCHOICES)
      throw Discard{};
    sh->ch[pos] = v;
    sh->bd[pos] = hi;
    ++pos;
    sh->nch = pos;
    return v;
  }
  /// uniform in [lo, hi]; shrinks towards lo
  int64_t i(int64_t lo, int64_t hi) { return lo + int64_t(u(hi - lo)); }
  /// uniform in [lo, hi] (lo<=0<=hi); shrinks towards 0
  int64_t iz(int64_t lo, int64_t hi) {
    int64_t m = std::min(-lo, hi);
    uint64_t v = u(uint64_t(hi - lo));
    if (v <= uint64_t(2 * m))
      return (v & 1) ? -int64_t((v + 1) / 2) : int64_t(v / 2);
    int64_t r = int64_t(v - uint64_t(m));
    return hi > -lo ? r : -r;
  }
  /// true with probability n/d; shrinks to false
  bool p(uint64_t n, uint64_t d) { return u(d - 1) >= d - n; }
  bool flip() { return u(1); }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[u(v.size() - 1)];
  }
  char chr(const std::string &v) { return v[u(v.size() - 1)]; }
  std::string str(const std::string &alphabet, size_t lo, size_t hi) {
    size_t n = i(lo, hi);
    std::string s;
    for (size_t k = 0; k < n; k++)
      s.push_back(chr(alphabet));
    return s;
  }
  /// index chosen with the given weights; shrinks to index 0
  size_t w(const std::vector<unsigned> &ws) {
    uint64_t t = 0;
    for (auto x : ws)
      t += x;
    uint64_t r = u(t - 1);
    for (size_t k = 0; k < ws.size(); k++) {
      if (r < ws[k])
        return k;
      r -= ws[k];
    }
    return 0;
  }
  /// uniform multiple of 10^-dec in [lo,hi]
  double dec(double lo, double hi, int d) {
    double sc = std::pow(10.0, d);
    if (lo <= 0 && hi >= 0)
      return iz(int64_t(std::ceil(lo * sc)), int64_t(std::floor(hi * sc))) / sc;
    return i(int64_t(std::ceil(lo * sc)), int64_t(std::floor(hi * sc))) / sc;
  }
  double unit() { return double(u((1ull << 53) - 1)) / 9007199254740992.0; }

  void label(const std::string &l) {
    if (labels)
      ++(*labels)[l];
  }
  void nontrivial() { nontrivial_ = true; }
  /// describe the case (evaluated only when it will be shown)
  template <class F> void note(F f) {
    if (want_note) {
      std::string d = f();
      size_t have = strlen(sh->desc);
      if (have + d.size() + 2 < sizeof(sh->desc)) {
        memcpy(sh->desc + have, d.c_str(), d.size());
        sh->desc[have + d.size()] = '\n';
        sh->desc[have + d.size() + 1] = 0;
      }
    }
  }
};

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) {
  throw Failure{key, msg};
}
#define CHECK(cond, key, ...)                                                  \
  do {                                                                         \
    if (!(cond))                                                               \
      ::pbt::fail((key), ::pbt::fmt(__VA_ARGS__) + "   [" #cond "]");         \
  } while (0)

struct Sub {
  std::string name;
  uint64_t quick, thorough; // number of cases
  std::function<void(Src &)> fn;
  bool guided = false;
  bool racy = false; // a failure may need a certain schedule: tried repeatedly
};

/// text with a word in it that means something elsewhere in the file
inline std::string decoy(Src &s, const std::vector<std::string> &words, size_t room) {
  std::string t = s.pick(words);
  if (t.size() > room)
    t.resize(room);
  if (s.flip())
    t = std::string(s.u(room - t.size()), ' ') + t;
  return t;
}

// ----------------------------------------------------- files and capture ---
inline std::string &tmpdir() {
  static std::string d;
  return d;
}
/// name of a file of this process, in the run's scratch directory
inline std::string scratch(const char *nm = "f") {
  return tmpdir() + "/" + nm + "." + std::to_string(getpid());
}
inline std::string write_file(const std::string &content,
                              const char *nm = "f") {
  std::string fn = scratch(nm);
  FILE *f = fopen(fn.c_str(), "wb");
  if (!f)
    abort();
  fwrite(content.data(), 1, content.size(), f);
  fclose(f);
  return fn;
}
/// what f() prints on file descriptor 1 and through std::cout
inline std::string capture_stdout(const std::function<void()> &f) {
  fflush(stdout);
  std::cout.flush();
  std::string fn = scratch("cap");
  int fd = open(fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  int old = dup(1);
  dup2(fd, 1);
  std::ostringstream oss;
  auto *rb = std::cout.rdbuf(oss.rdbuf());
  f();
  std::cout.rdbuf(rb);
  fflush(stdout);
  dup2(old, 1);
  close(old);
  std::string s;
  char buf[4096];
  lseek(fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0)
    s.append(buf, n);
  close(fd);
  return oss.str() + s;
}

// ----------------------------------------------------------------- engine ---
class Engine {
public:
  std::string prop;
  std::vector<Sub> subs;
  std::string rule;
  std::vector<std::string> assumptions;
  int W = 8;
  long cpu_limit_s = 15;

  int main(int argc, char **argv) {
    std::string evidence, replay, replaydir = ".", known, tier = "quick";
    uint64_t seed = 1;
    double scale = 1;
    std::string only;
    for (int k = 1; k < argc; k++) {
      std::string a = argv[k];
      auto nx = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
      if (a == "--evidence")
        evidence = nx();
      else if (a == "--replay")
        replay = nx();
      else if (a == "--replays")
        replaydir = nx();
      else if (a == "--known")
        known = nx();
      else if (a == "--seed")
        seed = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--tier")
        tier = nx();
      else if (a == "--scale")
        scale = atof(nx().c_str());
      else if (a == "--only")
        only = nx();
    }
    seed_ = seed;
    thorough_ = tier == "thorough";
    deadline_ = now_s() + (thorough_ ? 2400 : 200);
    scale_ = scale;
    if (!only.empty()) {
      std::vector<Sub> s2;
      for (auto &s : subs)
        if (s.name.find(only) != std::string::npos)
          s2.push_back(s);
      subs = s2;
    }
    load_known(known);
    make_tmp();
    double t0 = now_s();
    int rc;
    if (!replay.empty())
      rc = do_replay(replay);
    else
      rc = run(replaydir);
    if (replay.empty() && !evidence.empty())
      write_evidence(evidence, tier, now_s() - t0, rc);
    rm_tmp();
    return rc;
  }

private:
  uint64_t seed_ = 1;
  bool thorough_ = false;
  double deadline_ = 0, scale_ = 1;
  std::set<std::string> known_;
  std::map<std::string, std::string> known_text_;
  std::map<std::string, uint64_t> labels_, persub_, known_hit_;
  uint64_t evals_ = 0, discards_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  bool stopped_early_ = false;
  std::string tmp_;

  // known findings: lines "finding: property=<id> key=<key> <text>"
  void load_known(const std::string &fn) {
    if (fn.empty())
      return;
    std::ifstream f(fn);
    std::string l;
    while (std::getline(f, l)) {
      std::string pre = "finding: property=" + prop + " key=";
      if (l.compare(0, pre.size(), pre) == 0) {
        std::string r = l.substr(pre.size());
        auto sp = r.find(' ');
        std::string k = r.substr(0, sp);
        known_.insert(k);
        known_text_[k] = sp == std::string::npos ? k : r.substr(sp + 1);
      }
    }
  }

  void make_tmp() {
    for (const char *b : {"/dev/shm", "/tmp", "."}) {
      std::string t = std::string(b) + "/pbtXXXXXX";
      if (mkdtemp(&t[0])) {
        tmp_ = t;
        break;
      }
    }
    if (tmp_.empty())
      abort();
    tmpdir() = tmp_;
  }
  void rm_tmp() {
    if (tmp_.find("/pbt") == std::string::npos)
      return;
    std::string c = "find '" + tmp_ + "' -maxdepth 1 -type f -delete; rmdir '" +
                    tmp_ + "'";
    if (system(c.c_str())) {
    }
  }

  static Shared *map_shared() {
    void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
      abort();
    return (Shared *)m;
  }

  void child_setup(const std::string &errfile) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    if (!errfile.empty()) {
      int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(e, 2);
    } else
      dup2(n, 2);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
  }
  void arm() {
    itimerval t{};
    t.it_value.tv_sec = cpu_limit_s;
    setitimer(ITIMER_PROF, &t, nullptr);
  }

  // one case in this process; returns 0 ok, 1 fail, 2 discard
  int one(size_t sub, Src &s) {
    s.sh->sub = sub;
    s.sh->nch = 0;
    s.sh->key[0] = 0;
    s.sh->msg[0] = 0;
    s.sh->desc[0] = 0;
    s.sh->state = 1;
    int rc = 0;
    try {
      subs[sub].fn(s);
    } catch (Failure &f) {
      snprintf(s.sh->key, sizeof s.sh->key, "%s", f.key.c_str());
      snprintf(s.sh->msg, sizeof s.sh->msg, "%s", f.msg.c_str());
      rc = 1;
    } catch (Discard &) {
      rc = 2;
    } catch (std::exception &e) {
      snprintf(s.sh->key, sizeof s.sh->key, "unexpected-exception");
      snprintf(s.sh->msg, sizeof s.sh->msg, "exception: %s", e.what());
      rc = 1;
    }
    if (rc == 1)
      s.sh->state = 2;
    return rc;
  }

  // worker w: its share of the cases, [from the first to stop_sub/stop_idx].
  void worker(int w, Shared *sh, const std::string &out, bool to_end,
              uint64_t stop_sub, uint64_t stop_idx) {
    std::map<std::string, uint64_t> labels, persub, kh;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0, disc = 0;
    bool early = false;
    std::vector<uint8_t> seen(COVSZ, 0);
    for (size_t k = 0; k < subs.size() && !early; k++) {
      uint64_t n = uint64_t((thorough_ ? subs[k].thorough : subs[k].quick) * scale_);
      std::vector<std::pair<std::vector<uint64_t>, std::vector<uint64_t>>> corpus;
      if (subs[k].guided)
        std::fill(seen.begin(), seen.end(), 0);
      int nsamp = 0;
      uint64_t cnt = 0;
      for (uint64_t i = w; i < n; i += W, ++cnt) {
        if (!to_end && (k > stop_sub || (k == stop_sub && i > stop_idx)))
          return;
        if ((cnt & 31) == 0 && now_s() > deadline_) {
          early = true;
          break;
        }
        Src s;
        s.sh = sh;
        s.labels = &labels;
        s.rng = mix(mix(seed_, k * 1000003 + 17), i);
        s.want_note = (w == 0 && nsamp < 2 && to_end);
        std::vector<uint64_t> pre;
        if (subs[k].guided && !corpus.empty() && splitmix(s.rng) % 5 >= 2) {
          pre = mutate(corpus, s.rng);
          s.pre = &pre;
          s.rng_tail = true;
        }
        sh->idx = i;
        if (subs[k].guided) {
          memset(cov_map(), 0, COVSZ);
          cov_prev() = 0;
          cov_on() = true;
        }
        arm();
        int rc = one(k, s);
        cov_on() = false;
        sh->evals = ++evals;
        ++persub[subs[k].name];
        if (rc == 1) {
          if (known_.count(sh->key)) {
            ++kh[sh->key];
            sh->state = 0;
            continue;
          }
          _exit(10);
        }
        if (rc == 2) {
          ++disc;
          continue;
        }
        if (subs[k].guided) {
          bool nw = false;
          uint8_t *m = cov_map();
          for (uint32_t j = 0; j < COVSZ; j++)
            if (m[j]) {
              uint8_t b = bucket(m[j]);
              if (!(seen[j] & b)) {
                seen[j] |= b;
                nw = true;
              }
            }
          if (nw && corpus.size() < 4000 && sh->nch < 20000)
            corpus.emplace_back(
                std::vector<uint64_t>(sh->ch, sh->ch + sh->nch),
                std::vector<uint64_t>(sh->bd, sh->bd + sh->nch));
        }
        if (s.nontrivial_) {
          uint64_t h = k + 1;
          for (uint64_t j = 0; j < sh->nch; j++)
            h = mix(h, sh->ch[j]);
          distinct.insert(h);
          if (s.want_note && sh->desc[0]) {
            ++nsamp;
            samples.push_back(subs[k].name + ": " +
                              std::string(sh->desc).substr(0, 1500));
          }
        }
        sh->state = 0;
      }
      if (subs[k].guided)
        labels["guided-corpus:" + subs[k].name] += corpus.size();
    }
    if (!to_end)
      return;
    itimerval t{};
    setitimer(ITIMER_PROF, &t, nullptr);
    std::ofstream f(out, std::ios::binary);
    auto wmap = [&](std::map<std::string, uint64_t> &m) {
      f << m.size() << "\n";
      for (auto &x : m)
        f << x.second << " " << x.first << "\n";
    };
    f << evals << " " << disc << " " << early << "\n";
    wmap(labels);
    wmap(persub);
    wmap(kh);
    f << distinct.size() << "\n";
    for (auto x : distinct)
      f.write((char *)&x, 8);
    f << "\n" << samples.size() << "\n";
    for (auto &s : samples)
      f << s.size() << "\n" << s << "\n";
    f.close();
    sh->state = 3;
  }
  static uint8_t bucket(uint8_t c) {
    if (c <= 3)
      return 1 << (c - 1);
    if (c < 8)
      return 8;
    if (c < 16)
      return 16;
    if (c < 32)
      return 32;
    if (c < 128)
      return 64;
    return 128;
  }
  static std::vector<uint64_t>
  mutate(const std::vector<std::pair<std::vector<uint64_t>, std::vector<uint64_t>>> &c,
         uint64_t &rng) {
    auto R = [&](uint64_t n) { return n ? splitmix(rng) % n : 0; };
    // favour recent entries
    size_t a = R(2) ? R(c.size()) : c.size() - 1 - R(std::min<size_t>(c.size(), 32));
    auto v = c[a].first;
    const auto &b = c[a].second;
    int n = 1 + R(4);
    for (int k = 0; k < n && !v.empty(); k++) {
      size_t p = R(v.size());
      switch (R(8)) {
      case 0:
      case 1:
      case 2: {
        uint64_t hi = p < b.size() ? b[p] : 255;
        v[p] = hi == UINT64_MAX ? splitmix(rng) : R(hi + 1);
        break;
      }
      case 3:
        v[p] = p < b.size() ? (R(2) ? b[p] : 0) : 0;
        break;
      case 4: {
        int64_t d = int64_t(R(9)) - 4;
        v[p] = uint64_t(std::max<int64_t>(0, int64_t(v[p]) + d));
        break;
      }
      case 5: { // delete a chunk
        size_t l = 1 + R(std::min<size_t>(v.size() - p, 24));
        v.erase(v.begin() + p, v.begin() + p + l);
        break;
      }
      case 6: { // duplicate a chunk
        size_t l = 1 + R(std::min<size_t>(v.size() - p, 24));
        std::vector<uint64_t> t(v.begin() + p, v.begin() + p + l);
        v.insert(v.begin() + R(v.size() + 1), t.begin(), t.end());
        break;
      }
      default: { // splice
        const auto &o = c[R(c.size())].first;
        if (!o.empty()) {
          size_t q = R(o.size());
          v.resize(p);
          v.insert(v.end(), o.begin() + q, o.end());
        }
      }
      }
    }
    return v;
  }

  struct Result {
    int kind = 0; // 0 ok 1 failure 2 crash 3 hang
    std::string key, msg, desc;
    std::vector<uint64_t> ch;
    bool bad() const { return kind != 0; }
  };

  Result finish(Shared *sh, int st, const std::string &errfile) {
    Result r;
    r.ch.assign(sh->ch, sh->ch + sh->nch);
    r.desc = sh->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
      r.kind = 1;
      r.key = sh->key;
      r.msg = sh->msg;
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
      r.kind = 3;
      r.key = "hang";
      r.msg = fmt("no return within %ld s of processor time", cpu_limit_s);
    } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      r.kind = 2;
      r.key = "crash";
      r.msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st))
                              : fmt("exit status %d", WEXITSTATUS(st));
      if (!errfile.empty()) {
        std::ifstream f(errfile);
        std::string l;
        int k = 0;
        while (std::getline(f, l))
          if (l.find("runtime error") != std::string::npos ||
              l.find("ERROR: ") != std::string::npos ||
              l.find("SUMMARY") != std::string::npos ||
              l.find("ssertion") != std::string::npos ||
              l.find("what()") != std::string::npos ||
              l.find("terminate called") != std::string::npos ||
              (l.find("    #") == 0 && l.find("/repo/") != std::string::npos))
            if (k++ < 12)
              r.msg += "\n  " + l.substr(0, 400);
      }
    }
    return r;
  }

  // run one case in a forked child
  Result run_one(size_t sub, const std::vector<uint64_t> &ch, bool detail) {
    static Shared *sh = nullptr;
    if (!sh)
      sh = map_shared();
    sh->nch = 0;
    sh->state = 0;
    sh->key[0] = sh->msg[0] = sh->desc[0] = 0;
    std::string ef = detail ? tmp_ + "/err" : "";
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      child_setup(ef);
      arm();
      Src s;
      s.sh = sh;
      s.pre = &ch;
      s.want_note = detail;
      int rc = one(sub, s);
      if (rc == 1 && !known_.count(sh->key))
        _exit(10);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    clean_child_files(p);
    return finish(sh, st, ef);
  }
  void clean_child_files(pid_t p) {
    for (const char *n : {"f", "g", "h", "cap"})
      unlink((tmp_ + "/" + n + "." + std::to_string(p)).c_str());
  }

  /// the same case up to so many times, until it fails
  Result again(size_t sub, const std::vector<uint64_t> &ch, bool detail, int tries) {
    Result r;
    for (int k = 0; k < tries && !r.bad(); k++)
      r = run_one(sub, ch, detail);
    return r;
  }
  std::vector<uint64_t> shrink(size_t sub, std::vector<uint64_t> ch,
                               const Result &orig) {
    bool racy = subs[sub].racy;
    double end = now_s() + (orig.kind == 3 ? 20 : 40);
    auto same = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &out) {
      if (now_s() > end)
        return false;
      Result r = again(sub, c, false, racy ? 8 : 1);
      if (racy ? r.bad() : r.kind == orig.kind && r.key == orig.key) {
        out = r.ch;
        return true;
      }
      return false;
    };
    auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
      if (a.size() != b.size())
        return a.size() < b.size();
      return a < b;
    };
    bool prog = true;
    while (prog && now_s() < end) {
      prog = false;
      for (size_t len = 256; len >= 1; len /= 2) {
        for (size_t p = ch.size(); p-- > 0 && now_s() < end;) {
          if (p + len > ch.size())
            continue;
          auto c = ch;
          c.erase(c.begin() + p, c.begin() + p + len);
          std::vector<uint64_t> o;
          if (same(c, o) && less(o, ch)) {
            ch = o;
            prog = true;
            if (p > ch.size())
              p = ch.size();
          } else if (len > 1)
            p = p > len / 2 ? p - len / 2 : 0;
          if (!p)
            break;
        }
      }
      for (size_t p = 0; p < ch.size() && now_s() < end; p++) {
        if (!ch[p])
          continue;
        uint64_t lo = 0, hi = ch[p];
        while (lo < hi && now_s() < end) {
          uint64_t m = lo + (hi - lo) / 2;
          auto c = ch;
          c[p] = m;
          std::vector<uint64_t> o;
          if (same(c, o) && less(o, ch)) {
            ch = o;
            prog = true;
            hi = m;
            if (p >= ch.size())
              break;
          } else
            lo = m + 1;
        }
      }
    }
    return ch;
  }

  int run(const std::string &replaydir) {
    std::vector<Shared *> sh(W);
    std::vector<pid_t> pid(W);
    for (int w = 0; w < W; w++) {
      sh[w] = map_shared();
      pid[w] = start_worker(w, sh[w], true, 0, 0);
    }
    bool bad = false;
    int bw = -1;
    std::vector<int> st(W, 0);
    std::vector<bool> done(W, false);
    for (int left = W; left > 0; left--) {
      int s;
      pid_t p = waitpid(-1, &s, 0);
      for (int w = 0; w < W; w++)
        if (pid[w] == p) {
          st[w] = s;
          done[w] = true;
          clean_child_files(p);
          if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) {
            if (!bad) {
              bad = true;
              bw = w;
              for (int x = 0; x < W; x++)
                if (!done[x])
                  kill(pid[x], SIGKILL);
            }
          }
        }
    }
    for (int w = 0; w < W; w++) {
      if (!merge(tmp_ + "/out" + std::to_string(w)))
        evals_ += sh[w]->evals;
    }
    for (auto &k : known_hit_)
      printf("KNOWN-FINDING: property=%s %s (%lu cases)\n", prop.c_str(),
             known_text_[k.first].c_str(), (unsigned long)k.second);
    for (auto &k : known_)
      if (!known_hit_.count(k))
        printf("KNOWN-FINDING: property=%s %s (not met in this run)\n",
               prop.c_str(), known_text_[k].c_str());
    if (!bad) {
      printf("OK property=%s cases=%lu distinct_nontrivial=%zu%s\n",
             prop.c_str(), (unsigned long)evals_, distinct_.size(),
             stopped_early_ ? " (stopped at the time budget)" : "");
      for (auto &l : labels_)
        printf("  %10lu  %s\n", (unsigned long)l.second, l.first.c_str());
      return 0;
    }
    // a failing case
    Shared *f = sh[bw];
    size_t sub = f->sub;
    uint64_t idx = f->idx;
    std::vector<uint64_t> ch(f->ch, f->ch + f->nch);
    printf("failing case: worker %d sub %s index %lu key '%s' (%zu choices)\n",
           bw, subs[sub].name.c_str(), (unsigned long)idx, f->key, ch.size());
    fflush(stdout);
    if (system(("mkdir -p '" + replaydir + "'").c_str())) {
    }
    std::string rf = replaydir + "/" + prop + "-" + subs[sub].name + "-" +
                     std::to_string(seed_) + ".replay";
    const int tries = subs[sub].racy ? 60 : 1;
    Result r = again(sub, ch, false, tries);
    if (r.bad()) {
      ch = shrink(sub, ch, r);
      int n = 0;
      for (int k = 0; k < 3; k++) {
        Result q = again(sub, ch, true, tries);
        if (q.bad()) {
          n++;
          r = q;
        }
      }
      if (n == 3 || (subs[sub].racy && n)) {
        write_replay(rf, "case", sub, ch, 0, 0, r);
        report(r, rf, sub);
        return 1;
      }
      printf("internal: shrunk case does not replay (%d of 3)\n", n);
      return 2;
    }
    // depends on what ran before it in the process: replay the worker's history
    int n = 0;
    for (int k = 0; k < 3; k++) {
      Result q = run_range(bw, sub, idx);
      if (q.bad()) {
        n++;
        r = q;
      }
    }
    if (n == 3) {
      write_replay(rf, "range", sub, ch, bw, idx, r);
      report(r, rf, sub);
      return 1;
    }
    // what was seen depends on more than the case (a schedule, an address)
    for (int k = 0; k < 40 && !r.bad(); k++)
      r = run_one(sub, ch, true);
    if (!r.bad() && subs[sub].racy) {
      r.kind = 1; // threads were seen to disturb each other
      r.key = f->key[0] ? f->key : "crash";
      r.msg = std::string(f->msg) + " (in this run; the schedule does not come back easily)";
      r.desc = f->desc;
    }
    if (r.bad()) {
      write_replay(rf, "case", sub, ch, 0, 0, r);
      report(r, rf, sub);
      return 1;
    }
    printf("internal: failure does not replay (%d of 3)\n", n);
    return 2;
  }

  pid_t start_worker(int w, Shared *sh, bool to_end, uint64_t ss, uint64_t si) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      child_setup(to_end ? "" : tmp_ + "/err");
      worker(w, sh, tmp_ + "/out" + std::to_string(w), to_end, ss, si);
      _exit(0);
    }
    return p;
  }
  Result run_range(int w, size_t sub, uint64_t idx) {
    Shared *sh = map_shared();
    pid_t p = start_worker(w, sh, false, sub, idx);
    int st;
    waitpid(p, &st, 0);
    clean_child_files(p);
    Result r = finish(sh, st, tmp_ + "/err");
    munmap(sh, sizeof(Shared));
    return r;
  }

  void report(const Result &r, const std::string &rf, size_t sub) {
    printf("counterexample (%s):\n%s\n%s: %s\n", subs[sub].name.c_str(),
           r.desc.c_str(), r.key.c_str(), r.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rf.c_str());
    fflush(stdout);
  }

  void write_replay(const std::string &fn, const char *kind, size_t sub,
                    const std::vector<uint64_t> &ch, int w, uint64_t idx,
                    const Result &r) {
    std::ofstream f(fn);
    f << "property " << prop << "\nkind " << kind << "\nsub " << subs[sub].name
      << "\nseed " << seed_ << "\nthorough " << thorough_ << "\nworker " << w
      << "\nindex " << idx << "\nchoices " << ch.size();
    for (auto c : ch)
      f << " " << c;
    f << "\n# key " << esc(r.key) << "\n# " << esc(r.msg) << "\n# case:\n";
    std::istringstream is(r.desc);
    std::string l;
    while (std::getline(is, l))
      f << "# " << l << "\n";
  }

  int do_replay(const std::string &fn) {
    std::ifstream f(fn);
    std::string k, kind, sub;
    uint64_t idx = 0;
    int w = 0;
    std::vector<uint64_t> ch;
    while (f >> k) {
      if (k == "property") {
        std::string p;
        f >> p;
      } else if (k == "kind")
        f >> kind;
      else if (k == "sub")
        f >> sub;
      else if (k == "seed")
        f >> seed_;
      else if (k == "thorough")
        f >> thorough_;
      else if (k == "worker")
        f >> w;
      else if (k == "index")
        f >> idx;
      else if (k == "choices") {
        size_t n;
        f >> n;
        ch.resize(n);
        for (auto &c : ch)
          f >> c;
        break;
      }
    }
    size_t si = 0;
    while (si < subs.size() && subs[si].name != sub)
      ++si;
    if (si == subs.size()) {
      printf("unknown sub-property %s\n", sub.c_str());
      return 2;
    }
    Result r = kind == "range" ? run_range(w, si, idx) : again(si, ch, true, subs[si].racy ? 200 : 1);
    if (!r.bad()) {
      printf("replay: property holds on %s\n%s\n", fn.c_str(), r.desc.c_str());
      return 0;
    }
    report(r, fn, si);
    return 1;
  }

  bool merge(const std::string &fn) {
    std::ifstream f(fn, std::ios::binary);
    if (!f)
      return false;
    uint64_t e, d;
    bool early;
    if (!(f >> e >> d >> early))
      return false;
    evals_ += e;
    discards_ += d;
    stopped_early_ |= early;
    auto rmap = [&](std::map<std::string, uint64_t> &m) {
      size_t n;
      f >> n;
      for (size_t k = 0; k < n; k++) {
        uint64_t v;
        std::string s;
        f >> v;
        f.get();
        std::getline(f, s);
        m[s] += v;
      }
    };
    rmap(labels_);
    rmap(persub_);
    rmap(known_hit_);
    size_t n;
    f >> n;
    f.get();
    for (size_t k = 0; k < n; k++) {
      uint64_t x;
      f.read((char *)&x, 8);
      distinct_.insert(x);
    }
    f >> n;
    for (size_t k = 0; k < n; k++) {
      size_t l;
      f >> l;
      f.get();
      std::string s(l, 0);
      f.read(&s[0], l);
      samples_.push_back(s);
    }
    return true;
  }

  static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if (c == '\n')
        o += "\\n";
      else if (c < 32 || c > 126)
        o += fmt("\\u%04x", c);
      else
        o += c;
    }
    return o + "\"";
  }
  void write_evidence(const std::string &fn, const std::string &tier,
                      double wall, int rc) {
    std::ofstream f(fn);
    auto m = [&](std::map<std::string, uint64_t> &x) {
      std::string o = "{";
      for (auto &p : x)
        o += (o.size() > 1 ? "," : "") + js(p.first) + ":" +
             std::to_string(p.second);
      return o + "}";
    };
    f << "{\"property\":" << js(prop) << ",\"tier\":" << js(tier)
      << ",\"seed\":" << seed_ << ",\"level\":\"exploration\",\"coverage\":{"
      << "\"evaluations\":" << evals_
      << ",\"distinct_nontrivial\":" << distinct_.size()
      << ",\"rule\":" << js(rule) << ",\"samples\":[";
    for (size_t k = 0; k < samples_.size() && k < 12; k++)
      f << (k ? "," : "") << js(samples_[k]);
    f << "],\"discarded\":" << discards_
      << ",\"stopped_at_time_budget\":" << (stopped_early_ ? "true" : "false")
      << ",\"cases_per_subproperty\":" << m(persub_)
      << ",\"classes\":" << m(labels_)
      << ",\"known_finding_cases\":" << m(known_hit_) << "},\"assumptions\":[";
    for (size_t k = 0; k < assumptions.size(); k++)
      f << (k ? "," : "") << js(assumptions[k]);
    f << "],\"wall_s\":" << fmt("%.2f", wall)
      << ",\"violations\":" << (rc == 1 ? 1 : 0) << "}\n";
  }
};

} // namespace pbt

// coverage callback: called by the instrumented objects of the code under test
extern "C" __attribute__((no_sanitize("address", "undefined"))) void
__sanitizer_cov_trace_pc();
#ifdef PBT_MAIN
extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void
__sanitizer_cov_trace_pc() {
  if (!pbt::cov_on())
    return;
  uint64_t pc = (uint64_t)__builtin_return_address(0) -
                (uint64_t)&__executable_start;
  uint64_t &prev = pbt::cov_prev();
  uint32_t ix = uint32_t(((pc * 0x9e3779b97f4a7c15ull) >> 40) ^ prev) &
                (pbt::COVSZ - 1);
  prev = ((pc * 0x9e3779b97f4a7c15ull) >> 41);
  uint8_t *m = pbt::cov_map();
  if (m[ix] != 255)
    ++m[ix];
}
#endif
