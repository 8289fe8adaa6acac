// C10 ANTEX: finding the satellite antenna in use at an epoch
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
using namespace pbt;
using namespace atx;

static void ask(Src &s, const File &f) {
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  ngpt::Antex a(fn.c_str());
  ngpt::AntennaPcoList kept;
  int n = s.i(1, 4);
  for (int k = 0; k < n; k++) {
    if (s.p(1, 4)) {
      RQuery q = rquery(s, f);
      ngpt::AntennaPcoList l;
      a.get_antenna_pco(q.ant(), l, q.must);
    }
    SQuery q = squery(s, f);
    s.note([&] { return fmt("query %c%02d at %s", q.sys, q.prn, q.t.txt("0").c_str()); });
    int want = expect(f, q);
    int of_sat = 0;
    for (auto &x : f.ants)
      of_sat += x.sat && x.sys == q.sys && x.prn == q.prn;
    if (of_sat)
      s.nontrivial();
    s.label(want >= 0 ? "found" : of_sat ? "not valid then" : "absent");
    auto sys = ngpt::char_to_satsys(q.sys);
    int how = s.u(2);
    ngpt::AntennaPcoList own, &l = how && s.flip() ? kept : own;
    ngpt::Satellite sv(ngpt::SATELLITE_SYSTEM::irnss, 99);
    sv.svn() = 777;
    int got = how == 0   ? a.get_satellite_info(q.prn, sys, q.t.dt(), sv)
              : how == 1 ? a.get_antenna_pco(q.prn, sys, q.t.dt(), l, &sv)
                         : a.get_antenna_pco(q.prn, sys, q.t.dt(), l);
    if (want < 0) {
      CHECK(got > 0, "not-found", "status %d, but no block for %c%d is valid then", got, q.sys, q.prn);
      CHECK(listed(l) == "", "list-cleared", "offsets left: %s", listed(l).c_str());
      continue;
    }
    const Ant &w = f.ants[want];
    CHECK(got == 0, "found", "status %d, block %d expected", got, want);
    if (how < 2)
      CHECK(sat_text(sv, w.type) == sat_text(w), "satellite", "got %s, expected %s",
            sat_text(sv, w.type).c_str(), sat_text(w).c_str());
    if (how > 0)
      CHECK(listed(l) == expected(w), "which-block", "got %s, expected (block %d) %s",
            listed(l).c_str(), want, expected(w).c_str());
  }
}
static void lookup(Src &s) { ask(s, file(s)); }
static void longer(Src &s) { ask(s, long_file(s)); }
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C10";
  e.rule = "random ANTEX files (satellite blocks with disjoint validity "
           "intervals, adjacent to the second or open ended; SVN and COSPAR id "
           "present or not) and 1-4 queries each at epochs on, just beside and "
           "far from the limits, with receiver queries in between; files of up to "
           "700 blocks or of blocks of up to 4000 lines. "
           "Non-trivial: the file has a block for the satellite asked for";
  e.assumptions = {"validity intervals of one satellite do not overlap in the file",
                   "dates read by the ggdatetime stand-in (whole seconds, fractions cut off)"};
  e.subs = {{"lookup", 40000, 600000, lookup}, {"long", 250, 4000, longer}};
  return e.main(argc, argv);
}
