// C27 ANTEX: damaged files never crash, hang or corrupt, nor confuse later queries
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
#include "mangle.hpp"
using namespace pbt;
using namespace atx;

static bool has_type_line(const std::string &text, const std::function<bool(const std::string &)> &ok) {
  for (auto &l : split_lines(text))
    if (l.size() >= 76 && l.compare(60, 16, "TYPE / SERIAL NO") == 0 && ok(l))
      return true;
  return false;
}
static void damage(Src &s) {
  File f = file(s);
  if (f.ants.size() > 3)
    f.ants.resize(3);
  std::string why, t = damaged(s, f.text(), why);
  s.note([&] { return why + "\n" + t; });
  std::string fn = write_file(t, "f"), good = write_file(f.text(), "g");
  ngpt::Antex a;
  bool bound = true;
  try {
    a.reset_to_file(fn.c_str());
  } catch (std::runtime_error &) {
    bound = false;
  }
  s.label(bound ? "header accepted" : "header refused");
  if (bound)
    s.nontrivial();
  struct R {
    int st;
    std::string l;
  };
  std::vector<std::function<R()>> qs;
  int n = s.i(2, 4);
  for (int k = 0; k < n; k++) {
    if (s.flip()) {
      RQuery q = rquery(s, f);
      qs.push_back([&a, &t, q] {
        ngpt::AntennaPcoList l;
        int st = a.get_antenna_pco(q.ant(), l, q.must);
        if (!st)
          CHECK(has_type_line(t, [&](const std::string &x) {
                  std::string n = x.substr(0, 15).c_str(); // (up to a null character)
                  n.resize(15, ' ');
                  return n == q.name.substr(0, 15);
                }),
                "invented", "[%s] found, but it is nowhere in the file", q.name.c_str());
        return R{st, st ? "" : listed(l)};
      });
    } else {
      SQuery q = squery(s, f);
      qs.push_back([&a, &t, q] {
        ngpt::AntennaPcoList l;
        ngpt::Satellite sv;
        int st = a.get_antenna_pco(q.prn, ngpt::char_to_satsys(q.sys), q.t.dt(), l, &sv);
        if (!st)
          CHECK(has_type_line(t,
                              [&](const std::string &x) {
                                return x[20] == q.sys && atoi(x.substr(21, 5).c_str()) == q.prn;
                              }),
                "invented", "%c%d found, but it is nowhere in the file", q.sys, q.prn);
        return R{st, st ? "" : listed(l) + sv.to_string(false)};
      });
    }
  }
  std::vector<R> first;
  for (auto &q : qs)
    first.push_back(q());
  for (int k = 0; k < n; k++) {
    int j = s.u(n - 1);
    R r = qs[j]();
    CHECK(r.st == first[j].st && r.l == first[j].l, "history",
          "the same query answered %d %s, then %d %s", first[j].st, first[j].l.c_str(), r.st,
          r.l.c_str());
  }
  // the object can still be used for another file
  a.reset_to_file(good.c_str());
  RQuery q = rquery(s, f);
  int which, want = expect(f, q, which);
  ngpt::AntennaPcoList l;
  int got = a.get_antenna_pco(q.ant(), l, q.must);
  CHECK((got == 0) == (want == 0), "afterwards", "status %d, expected %d", got, want);
  if (!want)
    CHECK(listed(l) == expected(f.ants[which]), "afterwards", "got %s expected %s",
          listed(l).c_str(), expected(f.ants[which]).c_str());
}
/// the block that would answer has one decisive thing wrong: it does not, and
/// all others do
static void broken(Src &s) {
  File f = file(s);
  if (f.ants.empty())
    return;
  size_t k = s.u(f.ants.size() - 1);
  Ant &a = f.ants[k];
  if (a.anyprn)
    return;
  auto L = f.lines();
  size_t b = 0;
  for (size_t j = 0, c = 0; j < L.size(); j++)
    if (L[j].size() >= 76 && L[j].compare(60, 16, "START OF ANTENNA") == 0 && c++ == k)
      b = j;
  auto at = [&](const char *label, size_t nth = 0) {
    for (size_t j = b;; j++)
      if (L[j].size() > 60 && L[j].compare(60, strlen(label), label) == 0 && !nth--)
        return j;
  };
  std::string why;
  char c = s.chr("x#?*");
  bool validity = false;
  switch (a.sat ? s.u(a.until ? 8 : 7) : s.u(5)) {
  case 0: {
    static const char *labels[] = {"METH / BY / # / DATE", "DAZI", "ZEN1 / ZEN2 / DZEN", "# OF FREQUENCIES"};
    const char *l = labels[s.u(3)];
    L[at(l)].replace(60, strlen(l), s.flip() ? std::string(strlen(l), c) : "COMMENT" + std::string(20, ' '));
    why = fmt("no %s", l);
    break;
  }
  case 1:
    L[at("# OF FREQUENCIES")].replace(0, 6, s.p(1, 3) ? spoilt(s, L[at("# OF FREQUENCIES")].substr(0, 6)) : s.flip() ? std::string(6, c) : std::string(6, ' '));
    why = "number of frequencies";
    break;
  case 2: {
    size_t n = s.u(a.fr.size() - 1);
    L[at("NORTH / EAST / UP", 0)] = L[at("NORTH / EAST / UP", 0)]; // (there is one)
    size_t j = at("START OF FREQUENCY", n) + 1;
    int w = s.u(2);
    L[j].replace(10 * w, 10, s.p(1, 3) ? spoilt(s, L[j].substr(10 * w, 10)) : s.flip() ? std::string(10, ' ') : std::string(s.i(1, 3), ' ') + std::string(1, c) + "12345678901");
    L[j].resize(60, ' ');
    L[j] += "NORTH / EAST / UP";
    why = fmt("offset %d of frequency %zu", w, n);
    break;
  }
  case 3: {
    size_t n = s.u(a.fr.size() - 1), j = at("START OF FREQUENCY", n) + 1;
    L[j].replace(60, 17, std::string(17, s.flip() ? c : ' '));
    why = fmt("no offsets of frequency %zu", n);
    break;
  }
  case 4: {
    size_t n = s.u(a.fr.size() - 1), j = at("START OF FREQUENCY", n);
    if (s.flip())
      L[j][3] = s.chr("XA1-g");
    else
      L[j].replace(4, 2, s.flip() ? "  " : "xx");
    why = fmt("code of frequency %zu", n);
    break;
  }
  case 5: { // one frequency less than announced
    L[at("# OF FREQUENCIES")].replace(0, 6, fmt("%6zu", a.fr.size() + s.i(1, 3)));
    why = "too many frequencies announced";
    break;
  }
  case 6: {
    size_t j = at("VALID FROM");
    if (s.flip())
      L[j].replace(60, 10, std::string(10, c));
    else {
      int w = s.u(5);
      L[j].replace(6 * w, 6, "    " + std::string(2, c));
    }
    validity = true;
    why = "start of validity";
    break;
  }
  case 7: {
    size_t j = b + 1;
    switch (s.u(3)) {
    case 0:
    case 1:
      L[j].replace(40, 4, std::string(1, a.sys) + std::string(3, c));
      break;
    case 2: // a vehicle of another system
      L[j].replace(40, 4, std::string(1, a.sys == 'G' ? 'R' : 'G') + "701");
      break;
    default:
      L[j].replace(21, 2, std::string(2, c));
    }
    validity = true;
    why = "satellite number";
    break;
  }
  default: {
    int w = s.u(5);
    L[at("VALID UNTIL")].replace(6 * w, 6, "    " + std::string(2, c));
    validity = true;
    why = "end of validity";
  }
  }
  std::string t = join_lines(L), fn = write_file(t, "f");
  s.note([&] { return fmt("block %zu, ", k) + why + "\n" + t; });
  s.nontrivial();
  ngpt::Antex x(fn.c_str());
  auto ask = [&](size_t j, ngpt::AntennaPcoList &l, bool info) {
    const Ant &y = f.ants[j];
    ngpt::Satellite sv;
    if (y.sat) {
      auto w = (y.until && s.flip() ? y.u : y.f).dt();
      return info ? x.get_satellite_info(y.prn, ngpt::char_to_satsys(y.sys), w, sv)
                  : x.get_antenna_pco(y.prn, ngpt::char_to_satsys(y.sys), w, l, s.flip() ? &sv : nullptr);
    }
    RQuery q;
    q.name = y.name;
    q.serial = y.serial;
    q.must = !y.serial.empty() && s.flip();
    return x.get_antenna_pco(q.ant(), l, q.must);
  };
  for (int r = s.i(1, 3); r > 0; r--) {
    size_t j = s.flip() ? k : s.u(f.ants.size() - 1);
    if (f.ants[j].anyprn)
      continue;
    ngpt::AntennaPcoList l;
    if (j == k) {
      bool info = a.sat && validity && s.flip();
      int st = ask(k, l, info);
      CHECK(st != 0, "broken", "status %d for block %zu, of an unreadable %s", st, k, why.c_str());
    } else {
      int st = ask(j, l, false);
      CHECK(st == 0, "others", "status %d for block %zu, though only block %zu is damaged", st, j, k);
      CHECK(listed(l) == expected(f.ants[j]), "others", "got %s expected %s", listed(l).c_str(),
            expected(f.ants[j]).c_str());
    }
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C27";
  e.rule = "random ANTEX files damaged in 1-12 ways (fields and characters "
           "replaced, lines cut, lost, repeated, exchanged, lengthened, columns "
           "shifted, CRLF, truncation), queried with repetition, then the object "
           "is bound to the undamaged file; kept inputs chosen by branch "
           "coverage; files with one block that cannot be read, which must not "
           "answer while all others do. Non-trivial: the header is accepted";
  e.subs = {{"damage", 40000, 600000, damage, true}, {"broken", 12000, 150000, broken}};
  return e.main(argc, argv);
}
