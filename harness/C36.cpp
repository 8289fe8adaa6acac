// C36 the window of epochs an SP3 interpolator reads
#define PBT_MAIN
#include "pbt.hpp"
#include "mangle.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

template <int SEC> static int init(Sp3c &r, int times) {
  ngpt::LagrangeSp3Interpolator<SEC> l(r);
  int st = 0;
  while (times--)
    st = l.initialize();
  return st;
}
static int init(int sec, Sp3c &r, int times) {
  switch (sec) {
  case 60: return init<60>(r, times);
  case 450: return init<450>(r, times);
  case 900: return init<900>(r, times);
  default: return init<3600>(r, times);
  }
}
static void window(Src &s) {
  int sec = s.pick(std::vector<int>{900, 60, 450, 3600});
  File f;
  f.h = header(s);
  int lo = sec / 15; // (of 2 * 15 + 1 epochs at most)
  switch (s.u(2)) {
  case 0: // a part of the time asked for
    f.h.interval = 2L * sec * Ep::SEC / s.i(1, 30) / 100 * 100;
    break;
  case 1:
    f.h.interval = s.i(std::max(1, lo), 4 * sec) * Ep::SEC;
    break;
  default:
    f.h.interval = s.i(std::max(1, lo), 4 * sec) * Ep::SEC + s.i(1, 999999) * 100L;
  }
  const long us = f.h.interval / 100;
  const int K = int(2L * sec * 1000000L / us) + 1; // epochs 0..K make the window
  int n = std::max(1, K + 1 + int(s.iz(-3, 4)));
  bool few = s.flip();
  if (s.p(1, 3)) { // more satellites than the header announces
    f.h.nsats = s.i(1, std::min(f.h.nsats, 3));
    f.h.sats.resize(f.h.nsats);
  }
  std::vector<std::pair<char, int>> pool;
  for (int k = s.i(1, 8); k > 0; k--) {
    char c;
    int p;
    satname(s, &c, &p);
    pool.push_back({c, p});
  }
  Rec shape = record(s);
  shape.more.clear();
  size_t all = 0, most = 0;
  std::set<std::pair<char, int>> seen;
  for (int k = 0; k < n; k++) {
    Epoch e;
    e.t = f.h.start.plus(k * f.h.interval);
    size_t m = few ? s.i(0, 2) : s.u(pool.size());
    for (size_t j = 0; j < m; j++) {
      Rec r = shape;
      std::tie(r.sys, r.prn) = s.flip() && j < pool.size() ? pool[j] : s.pick(pool);
      r.v[0] = fmt("%14.6f", double(100 * k + j));
      seen.insert({r.sys, r.prn});
      e.r.push_back(r);
    }
    most = std::max(most, e.r.size());
    all += m;
    f.e.push_back(e);
  }
  auto L = f.h.lines();
  int bad = s.p(1, 6) ? s.u(n - 1) : -1;
  for (int k = 0; k < n; k++) {
    auto E = f.e[k].lines();
    if (k == bad) {
      auto &l = E[s.u(E.size() - 1)];
      l[0] == '*' ? l.replace(14, 2, "xx") : l.replace(6, 6, "#1 2 3");
    }
    L.insert(L.end(), E.begin(), E.end());
  }
  L.push_back("EOF");
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return fmt("%d s, interval %ld us: epochs 0 to %d of %d make the window\n", sec, us, K, n) + text; });
  Sp3c r(fn.c_str());
  auto v = r.allocate_epoch_vector();
  Time t;
  int c;
  for (int round = s.i(1, 2); round > 0; round--) {
    for (int k = s.iz(0, 4); k > 0; k--)
      r.get_next_epoch(t, v, c);
    int st = init(sec, r, s.i(1, 2));
    if (bad >= 0 && bad <= K && bad < n)
      CHECK(st > 0, "broken", "status %d with an epoch %d that cannot be read", st, bad);
    else if (n < K + 1)
      CHECK(st != 0, "short", "status %d, though there are only %d epochs", st, n);
    else if (n > K + 1) {
      CHECK(st == 0, "status", "status %d", st);
      if (bad == K + 1)
        continue;
      c = -7;
      st = r.get_next_epoch(t, v, c);
      CHECK(st == (n > K + 2 ? 0 : -1), "after", "status %d of the epoch behind the window", st);
      same(f.e[K + 1], t, v, c);
    }
  }
  if (n > K + 1 && bad < 0) {
    s.label(seen.size() > size_t(f.h.nsats) ? "more satellites than announced" : "complete");
    if (most > 1)
      s.nontrivial();
  } else
    s.label(bad >= 0 ? "broken epoch" : n == K + 1 ? "just enough" : "too short");
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C36";
  e.rule = "files of 1-36 epochs of 0-8 satellites that come and go (also more "
           "than the header announces), windows of 1-31 epochs, files with fewer, "
           "just enough or more epochs, or with one that cannot be read; the file "
           "being read before, and the window filled once or twice. Non-trivial: "
           "more epochs than the window needs, all readable, and two satellites "
           "in one of them";
  e.subs = {{"window", 40000, 1500000, window}};
  return e.main(argc, argv);
}
