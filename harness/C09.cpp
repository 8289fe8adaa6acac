// C09 ANTEX: finding a receiver antenna (serial preferred, else type mean)
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
using namespace pbt;
using namespace atx;

static void ask(Src &s, const File &f) {
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  ngpt::Antex a(fn.c_str());
  ngpt::AntennaPcoList kept;
  int n = s.i(1, 4);
  for (int k = 0; k < n; k++) {
    if (s.p(1, 4)) { // some other query in between
      SQuery q = squery(s, f);
      ngpt::AntennaPcoList l;
      a.get_antenna_pco(q.prn, ngpt::char_to_satsys(q.sys), q.t.dt(), l);
    }
    RQuery q = rquery(s, f);
    s.note([&] { return fmt("query [%s] serial [%s] must %d", q.name.c_str(), q.serial.c_str(), q.must); });
    int which, want = expect(f, q, which);
    ngpt::AntennaPcoList own, &l = s.flip() ? kept : own;
    if (s.flip()) // must be cleared
      l.__vecref__().emplace_back(ngpt::ObservationCode("C1C"), ngpt::SATELLITE_SYSTEM::gps, 1, 2, 3);
    int got = a.get_antenna_pco(q.ant(), l, q.must);
    s.label(want == 0 ? (f.ants[which].serial.empty() ? "type mean" : "exact serial")
            : want == 10 ? "serial required"
                         : "absent");
    if (f.ants.size() >= 2)
      s.nontrivial();
    if (want == 0) {
      CHECK(got == 0, "found", "status %d for [%s][%s] must=%d, block %d expected", got,
            q.name.c_str(), q.serial.c_str(), q.must, which);
      std::string g = listed(l), e = expected(f.ants[which]);
      CHECK(g == e, "which-block", "got %s, expected (block %d) %s", g.c_str(), which, e.c_str());
    } else if (want == 10)
      CHECK(got == 10, "serial-required", "status %d, expected 10", got);
    else
      CHECK(got > 0 && got != 10, "absent", "status %d for an antenna that is not in the file", got);
    if (want)
      CHECK(listed(l) == "", "list-cleared", "offsets left: %s", listed(l).c_str());
  }
}
static void lookup(Src &s) { ask(s, file(s)); }
static void longer(Src &s) { ask(s, long_file(s)); }
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C09";
  e.rule = "random ANTEX files (receiver blocks sharing models, radomes and "
           "serial prefixes, satellite blocks, comments, RMS blocks, azimuth "
           "grids) and 1-4 queries each on one object, with satellite queries "
           "in between; files of up to 700 blocks or of blocks of up to 4000 lines. "
           "One list is used for all queries, or one for each.  Non-trivial: the file has at least two antenna blocks";
  e.subs = {{"lookup", 40000, 600000, lookup}, {"long", 250, 4000, longer}};
  return e.main(argc, argv);
}
