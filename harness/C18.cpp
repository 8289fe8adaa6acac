// C18 health, fit interval, accuracy and issue of data of a message
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_ref.hpp"
#include <limits>
using namespace pbt;
using namespace navref;

template <class F> static bool throws(F f) {
  try {
    f();
  } catch (std::runtime_error &) {
    return true;
  }
  return false;
}
static void scalars(Src &s) {
  Msg m = message(s, "GRECJIS");
  int h = m.sys == 'R' ? 6 : 24;
  int health = s.w({1, 2}) ? s.i(0, 511) : 0;
  m.f[h] = put(s, health);
  int fit = s.w({2, 1}) ? s.i(0, 26) : 4;
  int ura = s.i(0, 15);
  if (m.sys == 'G') {
    m.f[28] = put(s, fit);
    m.f[23] = put(s, ura);
  }
  int iod = s.i(0, 1023);
  double sisa = s.p(1, 5) ? -1 : s.dec(0, 6, 2);
  if (m.sys == 'E') {
    m.f[3] = put(s, iod);
    m.f[23] = put(s, sisa);
  }
  s.note([&] {
    std::string r;
    for (auto &l : m.lines())
      r += l + "\n";
    return r;
  });
  s.label(std::string(1, m.sys));
  s.nontrivial();
  NavDataFrame d;
  frame(m, d);
  if (m.sys != 'R' && !kepler(m.sys)) {
    double x[6], c;
    CHECK(throws([&] { d.sv_health(); }), "unsupported", "health of a %c message", m.sys);
    CHECK(throws([&] { d.fit_interval(); }), "unsupported", "fit interval of a %c message", m.sys);
    CHECK(throws([&] { d.toe2date<ngpt::seconds>(); }), "unsupported", "ToE of a %c message", m.sys);
    CHECK(throws([&] { d.stateNclock(m.toc.dt<ngpt::seconds>(), x, c); }), "unsupported",
          "state of a %c message", m.sys);
    return;
  }
  CHECK(d.sv_health() == health, "health", "%c health %d, expected %d", m.sys, d.sv_health(), health);
  long w = m.sys == 'G' ? 3600L * fit : m.sys == 'R' ? 900 : 14400;
  CHECK(d.fit_interval() == w, "fit", "%c fit interval %ld s, expected %ld", m.sys, d.fit_interval(), w);
  if (m.sys == 'G') {
    static const float t[] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f,  11.3f, 16.f,  32.f,
                              64.f, 128.f, 256.f, 512.f, 1024.f, 2048.f, 4096.f};
    float g = d.gps_ura();
    if (ura < 15)
      CHECK(std::fabs(g - t[ura]) < 1e-4f * t[ura], "ura", "URA index %d -> %g m, expected %g m", ura, g, t[ura]);
    else
      CHECK(g == std::numeric_limits<float>::max(), "ura", "URA index 15 -> %g", g);
    CHECK(d.gps_fit_interval() == w, "fit", "gps_fit_interval %d", d.gps_fit_interval());
  }
  if (m.sys == 'E') {
    CHECK(d.gal_sisa() == float(m.num(23)), "sisa", "SISA %g, expected %g", d.gal_sisa(), m.num(23));
    CHECK(d.gal_iod_nav() == iod, "iod", "IODnav %d, expected %d", d.gal_iod_nav(), iod);
  }
  // dates in any unit
  Ep toe = m.toe();
  CHECK(d.toe<ngpt::microseconds>() == toe.dt<ngpt::microseconds>() &&
            d.toc<ngpt::microseconds>() == m.toc.dt<ngpt::microseconds>() &&
            d.toc<ngpt::milliseconds>() == m.toc.dt<ngpt::milliseconds>() &&
            d.toe2date<ngpt::milliseconds>() == toe.dt<ngpt::milliseconds>() &&
            d.toe2date<ngpt::microseconds>() == toe.dt<ngpt::microseconds>(),
        "dates", "ToC or ToE differ between time units");
  // seconds since the start of the day of ToE / ToC
  Ep t = m.toc.plus(s.iz(-200000, 200000));
  long us = s.i(0, 999999);
  double a = d.ref2toe(t.dt<ngpt::microseconds>(us)), b = d.ref2toc(t.dt<ngpt::microseconds>(us));
  double wa = double(t - Ep{toe.mjd, 0}) + us * 1e-6, wb = double(t - Ep{m.toc.mjd, 0}) + us * 1e-6;
  CHECK(std::fabs(a - wa) < 1e-9 && std::fabs(b - wb) < 1e-9, "ref",
        "seconds since 0h of ToE %.7f (expected %.7f), of ToC %.7f (expected %.7f)", a, wa, b, wb);
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C18";
  e.rule = "random messages of all systems written to and read from a file with "
           "every health value, fit interval, URA index, SISA and issue of data. "
           "All cases are non-trivial";
  e.subs = {{"scalars", 40000, 400000, scalars}};
  return e.main(argc, argv);
}
