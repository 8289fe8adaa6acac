// C30 SP3 files: damaged ones never crash, hang or invent satellites
#define PBT_MAIN
#include "pbt.hpp"
#include "mangle.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

/// which headers may be accepted
static bool fine(const std::vector<std::string> &L) {
  auto is = [&](size_t k, const char *t) { return k < L.size() && L[k].compare(0, 2, t) == 0; };
  if (L.empty() || L[0].size() < 2 || L[0][0] != '#' || (L[0][1] != 'c' && L[0][1] != 'd') || !is(1, "##"))
    return false;
  size_t k = 2, n = 0;
  for (; is(k, "+ "); k++)
    ++n;
  if (!n || !is(k, "++"))
    return false;
  while (k < L.size() && !L[k].empty() && L[k][0] == '+') // (only the first has to be '++')
    ++k;
  static const char *must[] = {"%c", "%c", "%f", "%f", "%i", "%i"};
  for (auto m : must)
    if (!is(k++, m))
      return false;
  return true;
}
/// headers with one decisive thing wrong
static void heads(Src &s) {
  File f = file(s, 1, 3);
  auto L = f.h.lines();
  size_t acc = 2 + f.h.nlines, pct = 2 + 2 * f.h.nlines;
  std::string why;
  switch (s.u(4)) {
  case 0: {
    size_t k = s.w({1, 3}) ? pct + s.u(5) : s.u(1), at = s.u(1);
    char c = s.chr("xcif#*+/ "), had = L[k][at];
    if (k == 0 && at == 1)
      c = s.chr("ab xPV");
    if (c == had)
      c = '!';
    L[k][at] = c;
    why = fmt("'%c' at %zu:%zu", c, k, at);
    break;
  }
  case 1: {
    size_t k = pct + s.u(5);
    L.erase(L.begin() + k);
    why = fmt("no line %zu", k);
    break;
  }
  case 2:
    L.resize(s.u(pct + 5));
    why = "ends early";
    break;
  case 3:
    if (s.flip())
      L.erase(L.begin() + acc, L.begin() + pct);
    else
      L.erase(L.begin() + 2, L.begin() + acc);
    why = "a block of + is lost";
    break;
  default: {
    size_t k = pct + s.u(4);
    if (L[k].substr(0, 2) == L[k + 1].substr(0, 2))
      k = pct + 1;
    std::swap(L[k], L[k + 1]);
    why = fmt("lines %zu and %zu exchanged", k, k + 1);
  }
  }
  for (auto &e : f.e)
    for (auto &l : e.lines())
      L.push_back(l);
  L.push_back("EOF");
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return why + "\n" + text; });
  s.nontrivial();
  bool ok = true;
  try {
    Sp3c r(fn.c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "accepted", "a header with %s was accepted", why.c_str());
}
/// an epoch with one number that is none is not delivered
static void broken(Src &s) {
  File f = file(s, 4, 4);
  int n = f.e.size();
  if (!n)
    return;
  int k = s.u(n - 1);
  auto L = f.h.lines();
  std::vector<std::string> E;
  for (int j = 0; j < n; j++) {
    auto x = f.e[j].lines();
    if (j == k)
      E = x;
  }
  std::vector<size_t> pos;
  for (size_t j = 1; j < E.size(); j++)
    if (E[j][0] == 'P')
      pos.push_back(j);
  std::string why;
  char bad = s.chr("x#?*");
  bool toolong = s.p(1, 16);
  if (toolong) { // a line beyond what a line can be: refused, or else read as if nothing were
    auto &l = E[s.u(E.size() - 1)];
    l.resize(std::max<size_t>(l.size(), 80), ' ');
    l.resize(s.pick(std::vector<int>{127, 128, 129, 200, 1000, 5000}), s.chr("  x0"));
    why = "line (too long)";
  } else if (!k && s.p(1, 20)) {
    E[0][0] = s.chr("x+# <");
    why = "label of an epoch";
  } else if (pos.empty() || s.p(1, 3)) {
    static const int where[] = {3, 8, 11, 14, 17, 20}, width[] = {4, 2, 2, 2, 2, 11};
    int j = s.u(5);
    if (j && s.p(1, 3)) { // no such date or time of day
      static const std::vector<std::string> no[] = {{},
                                                    {" 0", "00", "13", "99", "-1"},
                                                    {" 0", "00", "32", "99", "-1"},
                                                    {"24", "25", "99", "-1"},
                                                    {"60", "61", "99", "-1"},
                                                    {"60.00000000", "61.00000000", "99.99999900", "-1.00000000", "-0.50000000"}};
      E[0].replace(where[j], width[j], s.pick(no[j]));
    } else
      E[0].replace(where[j], width[j], s.p(1, 3) ? spoilt(s, E[0].substr(where[j], width[j])) : std::string(width[j], s.p(1, 4) ? ' ' : bad));
    why = fmt("part %d of the epoch", j);
  } else {
    size_t l = s.pick(pos);
    switch (s.w({1, 1, 4, 1})) {
    case 0:
      E[l][1] = s.chr("x1-g");
      why = "letter of a system";
      break;
    case 1:
      E[l].replace(2, 2, s.pick(std::vector<std::string>{"xx", "  ", " -", "x1", "1x", "0#"}));
      why = "number of a satellite";
      break;
    case 3: { // ends before the last coordinate
      int j = s.u(3);
      E[l].resize(j ? 4 + 14 * j + s.u(2) : s.i(3, 6));
      while (E[l].size() > 3 && E[l].back() != ' ' && s.p(1, 2))
        E[l].back() = ' ';
      if (E[l].find_last_not_of(' ') >= size_t(4 + 14 * j) && E[l].find_last_not_of(' ') != std::string::npos)
        E[l].resize(std::max(3, 4 + 14 * j));
      why = fmt("coordinate %d", j);
      break;
    }
    default: {
      int j = s.u(3);
      E[l].replace(4 + 14 * j, 14, s.p(1, 3) ? spoilt(s, E[l].substr(4 + 14 * j, 14)) : s.flip() ? std::string(14, ' ') : s.flip() ? std::string(14, bad) : std::string("   ") + bad + "12.345678 ");
      why = fmt("coordinate %d", j);
    }
    }
  }
  for (int j = 0; j < n; j++)
    for (auto &l : j == k ? E : f.e[j].lines())
      L.push_back(l);
  L.push_back("EOF");
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return why + "\n" + text; });
  s.nontrivial();
  Sp3c r(fn.c_str());
  auto vec = r.allocate_epoch_vector();
  for (int j = 0; j <= k; j++) {
    int c = -7;
    Time t;
    int st = r.get_next_epoch(t, vec, c);
    if (j == k && toolong && st <= 0)
      CHECK(c == int(f.e[j].r.size()) && t == f.e[j].t.time(), "long",
            "status %d, %d satellites of %zu for an epoch with a line that is too long", st, c, f.e[j].r.size());
    else if (j == k)
      CHECK(st > 0, "broken", "status %d for an epoch with an unreadable %s", st, why.c_str());
    else
      CHECK(st == 0, "before", "status %d for epoch %d", st, j);
  }
  r.rewind();
  int c = -7;
  Time t;
  int st = r.get_next_epoch(t, vec, c);
  CHECK(k ? st == 0 : st > 0 || toolong, "again", "status %d for the first epoch after rewinding", st);
}
static void damage(Src &s) {
  File f = file(s, 3, 4);
  std::string good = f.text(), why, text;
  size_t body = good.find("\n*  ") + 1;
  switch (s.u(2)) {
  case 0:
    text = damaged(s, good, why);
    break;
  case 1:
    text = good.substr(0, body) + damaged(s, good.substr(body), why);
    why = "behind the header: " + why;
    break;
  default:
    text = damaged(s, good.substr(0, body), why) + good.substr(body);
  }
  std::string fn = write_file(text, "f"), gn = write_file(good, "g");
  s.note([&] { return why + "\n" + text; });
  auto L = split_lines(text);
  std::unique_ptr<Sp3c> r;
  // (complaints of the header go to the standard error)
  try {
    r.reset(new Sp3c(fn.c_str()));
  } catch (std::runtime_error &) {
  }
  if (!r) {
    s.label("header refused");
    return;
  }
  CHECK(fine(L), "accepted", "a header that cannot be one was accepted");
  capture_stdout([&] { r->print_members(); });
  auto all = [&] {
    std::vector<std::string> v;
    auto vec = r->allocate_epoch_vector();
    for (size_t k = 0; k < L.size() + 5; k++) {
      for (auto &x : vec)
        x = Sp3EpochSvRecord{ngpt::SATELLITE_SYSTEM::mixed, 4711, {{1, 2, 3, 4}}, {}};
      int n = -7;
      Time t;
      int st = r->get_next_epoch(t, vec, n);
      std::string x = fmt("%d", st);
      if (st <= 0) {
        CHECK(n >= 0 && size_t(n) <= vec.size(), "number", "%d satellites", n);
        x += " " + show(t) + ":";
        for (int j = 0; j < n; j++) {
          char c = ngpt::satsys_to_char(vec[j].s_);
          bool there = false;
          for (auto &l : L)
            there |= l.size() > 2 && l[0] == 'P' && l[1] == c && atoi(l.substr(2, 2).c_str()) == vec[j].prn_;
          CHECK(there, "invented", "%c%02d was collected, but is nowhere in the file", c, vec[j].prn_);
          x += fmt(" %c%d", c, vec[j].prn_);
          for (double d : vec[j].vals_) {
            CHECK(std::isfinite(d), "finite", "value %g", d);
            x += fmt(" %.17g", d);
          }
          x += fmt(" %d", int(vec[j].flag_.bits_));
        }
      }
      v.push_back(x);
      if (st < 0 || st == 1)
        return v;
    }
    // every call passes a line or ends
    fail("endless", fmt("%zu reads of a file of %zu lines did not reach an end", v.size(), L.size()));
    return v;
  };
  auto a = all();
  int okay = 0;
  for (auto &x : a)
    okay += x[0] == '0' || x[0] == '-';
  s.label(a.back()[0] == '-' ? "read to the end" : "stopped");
  if (okay)
    s.nontrivial();
  r->rewind();
  auto b = all();
  for (size_t k = 0; k < std::max(a.size(), b.size()); k++)
    CHECK(k < a.size() && k < b.size() && a[k] == b[k], "history",
          "read %zu gave [%s] at first, [%s] after rewinding", k, k < a.size() ? a[k].c_str() : "",
          k < b.size() ? b[k].c_str() : "");
  // the object can be used for another file
  *r = Sp3c(gn.c_str());
  auto vec = r->allocate_epoch_vector();
  for (size_t k = 0; k < f.e.size(); k++) {
    int n = -7;
    Time t;
    int st = r->get_next_epoch(t, vec, n);
    CHECK(st == (k + 1 < f.e.size() ? 0 : -1), "afterwards", "status %d for an epoch of a good file", st);
    same(f.e[k], t, vec, n);
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C30";
  e.rule = "random files of 1-3 epochs damaged in 1-12 ways (fields and "
           "characters replaced, lines cut, lost, repeated, exchanged, "
           "lengthened, columns shifted, CRLF, truncation), read to the end "
           "twice, then the object is assigned an undamaged file; kept inputs "
           "chosen by branch coverage; and headers with one decisive thing wrong, "
           "which must be refused, and epochs with one number that is none, which "
           "must not be delivered. Non-trivial: at least one epoch is read";
  e.subs = {{"damage", 30000, 400000, damage, true}, {"headers", 4000, 50000, heads},
            {"broken", 12000, 150000, broken}};
  return e.main(argc, argv);
}
