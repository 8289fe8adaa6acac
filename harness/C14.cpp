// C14 selecting the navigation message to use at an epoch
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_gen.hpp"
using namespace pbt;
using namespace nav;

template <class T> static void select(Src &s) {
  constexpr long F = T::template sec_factor<long>();
  File f;
  f.head = header(s);
  int n = s.i(1, 8);
  Ep t0 = anyep(s);
  std::string systems = s.flip() ? std::string(1, s.chr("GREC")) : "GREC";
  for (int k = 0; k < n; k++) {
    Msg m = message(s, systems);
    if (s.p(5, 6))
      m.prn = s.i(1, 2);
    if (s.p(7, 8))
      m.toc = t0;
    t0 = t0.plus(s.w({3, 2, 1}) == 0 ? 7200 : s.i(0, 5 * 3600));
    set_toe(s, m, s.w({2, 1}) ? s.iz(-7200, 7200) : 0);
    int h = m.sys == 'R' ? 6 : 24;
    m.f[h] = put(s, s.p(1, 4) ? s.i(1, 63) : 0);
    if (m.sys == 'G')
      m.f[28] = put(s, s.p(1, 2) ? 4 : s.i(0, 26));
    f.m.push_back(m);
  }
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  NavigationRnx r(fn.c_str());
  int pos = 0, q = s.i(1, 4);
  for (int k = 0; k < q; k++) {
    const Msg &b = s.pick(f.m);
    char c = s.p(7, 8) ? b.sys : s.chr("GREC");
    int prn = s.p(7, 8) ? b.prn : s.i(1, 3);
    long fit = b.sys == 'G' ? 3600 * long(b.num(28)) : b.sys == 'R' ? 900 : 14400;
    Ep t;
    switch (s.w({2, 2, 2, 2})) {
    case 0:
      t = b.sys == 'R' ? b.toe().plus(s.flip() ? fit : -fit) : s.flip() ? b.toc : b.toc.plus(fit);
      break;
    case 1:
      t = b.toc.plus(-14400);
      break;
    case 2:
      t = b.toc.plus(s.iz(-20000, 20000));
      break;
    default:
      t = b.toc.plus(s.i(0, fit));
    }
    long fr = s.iz(-2, 2);
    auto at = t.dt<T>(fr);
    auto us = [&](const Ep &e) { return (e - t) * F - fr; }; // e - at
    int want = 1, i = pos;
    for (; i < n; i++) {
      const Msg &m = f.m[i];
      if (m.sys != c || m.prn != prn)
        continue;
      if (us(m.toc) > 14400 * F) {
        want = -1;
        ++i;
        break;
      }
      if (m.num(m.sys == 'R' ? 6 : 24) != 0)
        continue;
      bool ok;
      if (c == 'R')
        ok = us(m.toe()) <= 900 * F && -us(m.toe()) < 900 * F;
      else {
        long w = c == 'G' ? 3600 * long(m.num(28)) : 14400;
        ok = us(m.toc) <= 0 && -us(m.toc) < w * F;
      }
      if (ok) {
        want = 0;
        break;
      }
    }
    NavDataFrame d;
    NavigationRnx::pos_type cur;
    int st = r.find_next_valid(at, cur, d, sys(c), prn);
    s.note([&] {
      return fmt("%c%02d at %s %+ld units from message %d -> %d, expected %s %d", c, prn,
                 t.txt().c_str(), fr, pos, st, want ? "none" : "message", i);
    });
    s.label(want == 0 ? std::string("found ") + c : want < 0 ? "too far ahead" : "none");
    if (want <= 0)
      s.nontrivial();
    if (want == 0) {
      CHECK(st == 0, "found", "status %d, message %d is valid", st, i);
      same(f.m[i], d, "selected");
    } else
      CHECK(st < 0, "none", "status %d, but no message is valid", st);
    if (s.p(1, 3))
      r.rewind(cur);
    else
      pos = want == 0 ? i + 1 : std::min(i, n);
    if (s.p(1, 4)) {
      r.rewind();
      pos = 0;
    }
    // the position after the search
    int ps = 0;
    auto y = r.peak_satsys(ps);
    if (pos < n)
      CHECK(ps == 0 && y == sys(f.m[pos].sys), "position", "next message should be %d (%c)", pos,
            f.m[pos].sys);
    else
      CHECK(ps < 0, "position", "should be at the end, peek status is %d", ps);
  }
}
/// the valid message comes after thousands of others
static void longer(Src &s) {
  File f;
  f.head = header(s);
  char c = s.chr("GREC");
  Msg want = message(s, std::string(1, c)), filler = want;
  want.prn = 2;
  int h = c == 'R' ? 6 : 24;
  want.f[h] = put(s, 0);
  if (c == 'G')
    want.f[28] = put(s, 4);
  set_toe(s, want, 0);
  filler = want;
  int how = s.u(2);
  if (how == 0)
    filler.prn = 1;
  else if (how == 1) // not healthy
    filler.f[h] = put(s, 1);
  else { // another system
    filler = message(s, c == 'R' ? "G" : "R");
    filler.prn = 2;
  }
  std::string block, text = f.text();
  for (auto &l : filler.lines())
    block += l + "\n";
  if (text.back() != '\n')
    text += '\n';
  int n = s.i(100, 7000);
  for (int k = 0; k < n; k++)
    text += block;
  bool there = s.p(4, 5);
  if (there)
    for (auto &l : want.lines())
      text += l + "\n";
  std::string fn = write_file(text, "f");
  s.note([&] { return fmt("%d messages of %c%02d, then %c%02d", n, filler.sys, filler.prn, want.sys, want.prn); });
  NavigationRnx r(fn.c_str());
  NavDataFrame d;
  NavigationRnx::pos_type cur;
  int st = r.find_next_valid((c == 'R' ? want.toe() : want.toc).plus(60).dt<ngpt::milliseconds>(), cur, d, sys(c), 2);
  if (there) {
    CHECK(st == 0, "far", "status %d searching over %d messages", st, n);
    same(want, d, "far");
  } else
    CHECK(st < 0, "far", "status %d, but none is valid", st);
  r.rewind(cur);
  st = r.read_next_record(d);
  CHECK(st == 0, "back", "status %d", st);
  same(filler, d, "back");
  s.nontrivial();
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C14";
  e.rule = "files of 1-8 messages of few satellites, mostly in order of time, "
           "healthy or not, with various fit intervals; 1-4 searches at epochs "
           "at, just beside and away from the limits, with rewinding; searches over up to 7000 messages. "
           "Non-trivial: a message is selected, or the search ends because the "
           "next one is more than four hours ahead";
  e.subs = {{"milliseconds", 30000, 400000, select<ngpt::milliseconds>},
            {"seconds", 8000, 100000, select<ngpt::seconds>},
            {"microseconds", 8000, 100000, select<ngpt::microseconds>},
            {"long", 40, 600, longer}};
  return e.main(argc, argv);
}
