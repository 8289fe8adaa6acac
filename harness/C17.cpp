// C17 GLONASS positions and velocities by numerical integration
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_ref.hpp"
using namespace pbt;
using namespace navref;

template <class T> static void at(Src &s, const Msg &m, const NavDataFrame &d, Ep t, long fr) {
  constexpr long F = T::template sec_factor<long>();
  double x[6] = {1e99, 1e99, 1e99, 1e99, 1e99, 1e99}, clk = 1e99;
  int st = d.stateNclock(t.dt<T>(fr), x, clk);
  R tk = R((t - m.toe()) * F + fr) / F, w[6];
  glonass(m, tk, w);
  s.note([&] {
    return fmt("t-ToE = %.6Lf s: %.4f %.4f %.4f %.7f %.7f %.7f -> %d", tk, x[0], x[1], x[2], x[3], x[4],
               x[5], st);
  });
  if (fabsl(tk) > 900) { // computed, but warned about
    CHECK(st == -1, "status-far", "status %d at t-ToE = %.6Lf", st, tk);
    s.label("more than 15 min");
  } else
    CHECK(st == 0, "status", "status %d at t-ToE = %.6Lf", st, tk);
  // (the errors of both integrations grow with the time)
  const R h = fabsl(tk) / 3600, f = h > 1 ? h * h : 1;
  for (int k = 0; k < 3; k++) {
    CHECK(fabsl(R(x[k]) - w[k]) < 5e-3L * f, "position",
          "R%02d at t-ToE = %.6Lf: (%.6f %.6f %.6f), expected (%.6Lf %.6Lf %.6Lf)", m.prn, tk, x[0],
          x[1], x[2], w[0], w[1], w[2]);
    CHECK(fabsl(R(x[k + 3]) - w[k + 3]) < 5e-6L * f, "velocity",
          "R%02d at t-ToE = %.6Lf: (%.9f %.9f %.9f), expected (%.9Lf %.9Lf %.9Lf)", m.prn, tk, x[3],
          x[4], x[5], w[3], w[4], w[5]);
  }
}
static void state(Src &s) {
  Msg m = message(s, "R");
  orbit(s, m);
  s.note([&] {
    std::string r;
    for (auto &l : m.lines())
      r += l + "\n";
    return r;
  });
  s.nontrivial();
  NavDataFrame d;
  frame(m, d);
  for (int k = 0; k < 3; k++) {
    long dt;
    switch (s.w({1, 2, 4, 1})) {
    case 0:
      dt = 0;
      break;
    case 1:
      dt = 60 * s.iz(-15, 15);
      break;
    case 2:
      dt = s.iz(-899, 899);
      break;
    default:
      dt = s.p(1, 8) ? s.iz(-36000, 36000) : s.iz(-3600, 3600);
    }
    Ep t = m.toe().plus(dt);
    switch (s.u(2)) {
    case 0:
      at<ngpt::seconds>(s, m, d, t, 0);
      break;
    case 1:
      at<ngpt::milliseconds>(s, m, d, t, s.iz(-999, 999));
      break;
    default:
      at<ngpt::microseconds>(s, m, d, t, s.iz(-999999, 999999));
    }
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C17";
  e.rule = "random GLONASS states near circular orbits with accelerations, "
           "written to and read from a file, propagated to three epochs each "
           "(on and off full minutes, across midnight, up to ten hours away, in three time units), "
           "compared to a long double integration with steps of at most 10 s to "
           "5 mm and 5 micrometres/s. All cases are non-trivial";
  e.subs = {{"state", 20000, 250000, state}};
  return e.main(argc, argv);
}
