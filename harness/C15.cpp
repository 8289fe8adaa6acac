// C15 GPS, Galileo and BeiDou positions from broadcast elements
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_ref.hpp"
using namespace pbt;
using namespace navref;

template <class T> static void at(Src &s, const Msg &m, const NavDataFrame &d, Ep t, long fr) {
  constexpr long F = T::template sec_factor<long>();
  double x[3] = {1e99, 1e99, 1e99}, clk = 1e99;
  int st = d.stateNclock(t.dt<T>(fr), x, clk);
  R tk = R((t - m.toe()) * F + fr) / F, w[3];
  position(m, tk, w);
  s.note([&] { return fmt("t-ToE = %.6Lf s: %.4f %.4f %.4f", tk, x[0], x[1], x[2]); });
  CHECK(st == 0, "status", "status %d at t-ToE = %.6Lf", st, tk);
  for (int k = 0; k < 3; k++)
    CHECK(fabsl(R(x[k]) - w[k]) < 2e-5L, "position",
          "%c%02d at t-ToE = %.6Lf: (%.6f %.6f %.6f), expected (%.6Lf %.6Lf %.6Lf)", m.sys, m.prn, tk,
          x[0], x[1], x[2], w[0], w[1], w[2]);
}
static void positions(Src &s) {
  Msg m = message(s, "GEC");
  if (s.p(2, 3))
    m.prn = s.i(1, 63);
  orbit(s, m);
  s.note([&] {
    std::string r;
    for (auto &l : m.lines())
      r += l + "\n";
    return r;
  });
  s.label(geo(m) ? "C geostationary" : std::string(1, m.sys));
  s.nontrivial();
  NavDataFrame d;
  frame(m, d);
  for (int k = 0; k < 3; k++) {
    long dt;
    switch (s.w({1, 3, 2, 1})) {
    case 0:
      dt = 0;
      break;
    case 1:
      dt = s.iz(-7200, 7200);
      break;
    case 2:
      dt = s.iz(-100000, 100000);
      break;
    default:
      dt = s.iz(-295000, 295000);
    }
    Ep t = m.toe().plus(dt);
    switch (s.u(2)) {
    case 0:
      at<ngpt::seconds>(s, m, d, t, 0);
      break;
    case 1:
      at<ngpt::milliseconds>(s, m, d, t, s.iz(-999, 999));
      break;
    default:
      at<ngpt::microseconds>(s, m, d, t, s.iz(-999999, 999999));
    }
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C15";
  e.rule = "random realistic broadcast elements (eccentricity up to 0.5, BeiDou "
           "geostationary satellites included) written to and read from a file, "
           "evaluated at three epochs each up to 3.5 days from ToE in three time "
           "units, compared to a long double computation to 20 micrometres. All "
           "cases are non-trivial";
  e.assumptions = {"elements of the usual orbit sizes"};
  e.subs = {{"position", 60000, 800000, positions}};
  return e.main(argc, argv);
}
