// C11 ANTEX: offsets of every frequency, in order, as written
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
using namespace pbt;
using namespace atx;

/// all the offsets of several antennas, into one list or several
static void several(Src &s, const File &f) {
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  ngpt::Antex x(fn.c_str());
  ngpt::AntennaPcoList kept;
  int n = s.i(2, 5);
  for (int k = 0; k < n; k++) {
    ngpt::AntennaPcoList own, &l = s.p(3, 4) ? kept : own;
    if (s.p(1, 5)) { // one that is not there: nothing of an earlier answer is left
      int st = s.flip() ? x.get_antenna_pco(97, ngpt::SATELLITE_SYSTEM::irnss, Ep{57000, 7}.dt(), l)
                        : x.get_antenna_pco(ngpt::ReceiverAntenna("NOSUCHANTENNA   NONE"), l, s.flip());
      CHECK(st > 0 && listed(l).empty(), "stale", "status %d for an absent antenna, offsets %s", st, listed(l).c_str());
    }
    const Ant &a = s.pick(f.ants);
    if (a.anyprn)
      continue;
    s.note([&] { return "asked for " + a.typeline(); });
    ngpt::ReceiverAntenna r(a.name.c_str());
    if (!a.serial.empty())
      r.set_serial_nr(a.serial.c_str());
    int st = a.sat ? x.get_antenna_pco(a.prn, ngpt::char_to_satsys(a.sys), a.f.plus(a.until && a.u <= a.f ? 0 : 1).dt(), l)
                   : x.get_antenna_pco(r, l, false);
    CHECK(st == 0, "status", "status %d for %s", st, a.typeline().c_str());
    CHECK(listed(l) == expected(a), "values", "got %s, expected %s", listed(l).c_str(), expected(a).c_str());
  }
  if (f.ants.size() > 1)
    s.nontrivial();
}
static void reuse(Src &s) {
  File f = file(s);
  if (f.ants.empty())
    f.ants.push_back(receiver(s, s.pick(models()), ""));
  several(s, f);
}
static void longer(Src &s) { several(s, long_file(s)); }
static void values(Src &s) {
  File f;
  header(s, f);
  bool sat = s.flip();
  Ant a = sat ? satellite(s, s.chr("GRECJ"), s.i(1, 36)) : receiver(s, s.pick(models()), "");
  while (s.p(2, 3) && a.fr.size() < 20) {
    Freq x;
    x.sys = a.sat ? a.sys : s.chr("GRECJS");
    x.band = s.i(1, 9);
    x.n = number(s);
    x.e = number(s);
    x.u = number(s);
    x.rms = !a.endrms && s.p(1, 6);
    a.fr.push_back(x);
  }
  if (s.p(1, 3)) {
    a.ncol = s.i(4, 62); // up to the 511 characters a grid line may have
    a.dazi = s.p(1, 4) ? 5 * s.i(1, 6) : 0;
    while (a.dazi && 360 % a.dazi)
      a.dazi += 5;
  }
  if (sat) {
    a.from = true;
    a.f = Ep{50000, 0};
  }
  int before = s.w({2, 1, 1});
  for (int k = 0; k < before; k++)
    f.ants.push_back(receiver(s, "OTHER           NONE", fmt("%d", k)));
  f.ants.push_back(a);
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  if (a.fr.size() > 1)
    s.nontrivial();
  s.label(a.endrms ? "rms at the end" : "");
  ngpt::Antex x(fn.c_str());
  for (int k = 0; k < 2; k++) {
    ngpt::AntennaPcoList l;
    int st = sat ? x.get_antenna_pco(a.prn, ngpt::char_to_satsys(a.sys), Ep{50100, 5}.dt(), l)
                 : x.get_antenna_pco(ngpt::ReceiverAntenna(a.name.c_str()), l);
    CHECK(st == 0, "status", "status %d", st);
    CHECK(listed(l) == expected(a), "values", "got %s, expected %s", listed(l).c_str(),
          expected(a).c_str());
  }
}
/// offsets made by hand
static void made(Src &s) {
  struct V {
    char sys;
    int band;
    double n, e, u;
  };
  std::vector<V> v;
  int n = s.i(1, 5);
  for (int k = 0; k < n; k++)
    v.push_back({s.chr("GRECJSI"), int(s.i(1, 9)), s.dec(-999, 9999, 2), s.dec(-999, 9999, 2), s.dec(-999, 9999, 2)});
  int given = s.u(3);
  auto show = [](const V &x) { return fmt("%c%d %.17g %.17g %.17g;", x.sys, x.band, x.n, x.e, x.u); };
  std::string all;
  if (given < 1)
    v[0].n = 0;
  if (given < 2)
    v[0].e = 0;
  if (given < 3)
    v[0].u = 0;
  auto code = [](const V &x) {
    ngpt::ObservationCode c;
    c.band() = x.band;
    return c;
  };
  auto pco = [&](const V &x) {
    return ngpt::AntennaPco(code(x), ngpt::char_to_satsys(x.sys), x.n, x.e, x.u);
  };
  auto sy = ngpt::char_to_satsys(v[0].sys);
  ngpt::AntennaPco first = given == 0   ? ngpt::AntennaPco(code(v[0]), sy)
                           : given == 1 ? ngpt::AntennaPco(code(v[0]), sy, v[0].n)
                           : given == 2 ? ngpt::AntennaPco(code(v[0]), sy, v[0].n, v[0].e)
                                        : pco(v[0]);
  ngpt::AntennaPcoList l(first);
  for (int k = 1; k < n; k++)
    l.__vecref__().push_back(pco(v[k]));
  for (auto &x : v)
    all += show(x);
  s.note([&] { return all; });
  s.nontrivial();
  CHECK(listed(l) == all, "made", "%s instead of %s", listed(l).c_str(), all.c_str());
  ngpt::AntennaPcoList c(l), none;
  c.__vecref__().clear();
  CHECK(listed(l) == all && listed(c).empty() && listed(none).empty(), "copy", "%s, %s", listed(l).c_str(), listed(c).c_str());
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C11";
  e.rule = "one antenna with 1-20 frequencies (repeated systems and bands, "
           "offsets of up to ten columns, RMS blocks in between or at the end, "
           "grid lines up to 511 characters) behind 0-2 others; several antennas of "
           "a file (of up to 700 blocks, or blocks of up to 4000 lines) read into "
           "one list or several; lists made by hand. Non-trivial: at least two frequencies or antennas";
  e.subs = {{"values", 30000, 400000, values}, {"reuse", 12000, 150000, reuse}, {"long", 200, 3000, longer},
            {"made", 20000, 200000, made}};
  return e.main(argc, argv);
}
