// C16 satellite clock offsets
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_ref.hpp"
using namespace pbt;
using namespace navref;

template <class T> static void at(Src &s, const Msg &m, const NavDataFrame &d, Ep t, long fr) {
  constexpr long F = T::template sec_factor<long>();
  double x[6] = {1e99, 1e99, 1e99, 1e99, 1e99, 1e99}, clk = 1e99;
  int st = d.stateNclock(t.dt<T>(fr), x, clk);
  R tk = R((t - m.toe()) * F + fr) / F;
  // GLONASS: the reference time of the clock is that of the ephemeris
  R dt = m.sys == 'R' ? tk : R((t - m.toc) * F + fr) / F;
  R w = clock(m, dt, tk);
  s.note([&] { return fmt("t-ToC = %.6Lf s: %.18g", dt, clk); });
  CHECK(st == 0, "status", "status %d at t-ToC = %.6Lf", st, dt);
  CHECK(fabsl(R(clk) - w) < 2e-16L + 4e-16L * fabsl(w), "clock",
        "%c%02d at t-ToC = %.6Lf: %.18g s, expected %.18Lg s", m.sys, m.prn, dt, clk, w);
}
static void offset(Src &s) {
  Msg m = message(s, "GECR");
  orbit(s, m);
  s.note([&] {
    std::string r;
    for (auto &l : m.lines())
      r += l + "\n";
    return r;
  });
  s.label(std::string(1, m.sys));
  s.nontrivial();
  NavDataFrame d;
  frame(m, d);
  for (int k = 0; k < 3; k++) {
    long lim = m.sys == 'R' ? 899 : s.p(1, 4) ? 290000 : 14400;
    Ep t = m.toe().plus(s.iz(-lim, lim));
    switch (s.u(2)) {
    case 0:
      at<ngpt::seconds>(s, m, d, t, 0);
      break;
    case 1:
      at<ngpt::milliseconds>(s, m, d, t, s.iz(-999, 999));
      break;
    default:
      at<ngpt::microseconds>(s, m, d, t, s.iz(-999999, 999999));
    }
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C16";
  e.rule = "random clock polynomials and orbits written to and read from a "
           "file, ToC and ToE up to two hours apart, evaluated at three epochs "
           "each in three time units, compared to a long double computation to "
           "2e-16 s. All cases are non-trivial";
  e.subs = {{"offset", 60000, 800000, offset}};
  return e.main(argc, argv);
}
