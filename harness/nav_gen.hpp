// navigation RINEX 3 files: a model, a writer and a random generator
#pragma once
#include "navrnx.hpp"
#include "pbt.hpp"

namespace nav {
using namespace pbt;
using ngpt::NavDataFrame;
using ngpt::NavigationRnx;
using ngpt::SATELLITE_SYSTEM;

struct Ep {
  long mjd = 58849;
  int sod = 0;
  bool operator==(const Ep &o) const { return mjd == o.mjd && sod == o.sod; }
  Ep plus(long s) const {
    long t = sod + s, d = t / 86400;
    t %= 86400;
    if (t < 0) {
      t += 86400;
      --d;
    }
    return Ep{mjd + d, int(t)};
  }
  long operator-(const Ep &o) const { return (mjd - o.mjd) * 86400 + sod - o.sod; }
  template <class T> ngpt::datetime<T> dt(long frac = 0) const {
    return ngpt::datetime<T>(ngpt::modified_julian_day(mjd),
                             T(sod * T::template sec_factor<long>() + frac));
  }
  std::string txt() const {
    auto y = ngpt::modified_julian_day(mjd).to_ymd();
    return fmt("%04d %02d %02d %02d %02d %02d", y.__year.as_underlying_type(),
               y.__month.as_underlying_type(), y.__dom.as_underlying_type(), sod / 3600,
               sod / 60 % 60, sod % 60);
  }
};
inline SATELLITE_SYSTEM sys(char c) { return ngpt::char_to_satsys(c); }
/// lines of a message, and numbers in the last of them
inline int nlines(char c) { return c == 'R' || c == 'S' ? 4 : 8; }
inline int nlast(char c) { return c == 'R' || c == 'S' ? 4 : c == 'E' || c == 'I' ? 1 : 2; }
inline bool kepler(char c) { return c == 'G' || c == 'E' || c == 'C'; }

struct Msg {
  char sys = 'G';
  int prn = 1;
  Ep toc;
  bool padded = true;  // "G01" rather than "G 1"
  std::string f[31];   // nineteen columns each, as written
  std::string spare;   // text of the spare field(s) of line 5 (galileo, beidou)
  std::string last;    // text after the last number of the last line
  int n() const { return 3 + 4 * (nlines(sys) - 2) + nlast(sys); }
  bool spare_field(int k) const { // not checked
    return ((sys == 'E' || sys == 'C') && k == 22) || (sys == 'C' && k == 20) ||
           (sys == 'I' && (k == 20 || k == 22 || k == 26));
  }
  double num(int k) const {
    std::string t = f[k];
    for (char &c : t)
      if (c == 'D' || c == 'd')
        c = 'e';
    return strtod(t.c_str(), nullptr);
  }
  /// the number as the frame is to hold it
  double val(int k) const {
    static const std::set<int> km = {3, 4, 5, 7, 8, 9, 11, 12, 13};
    return sys == 'R' && km.count(k) ? num(k) * 1e3 : num(k);
  }
  Ep toe() const {
    if (sys == 'R') {
      // seconds of the UTC week (from Sunday), in the week nearest to ToC
      long sow = ((toc.mjd - 44244) % 7) * 86400L + toc.sod;
      long d = long(num(2)) - sow;
      while (d > 302400)
        d -= 604800;
      while (d < -302400)
        d += 604800;
      return toc.plus(d);
    }
    long week = long(num(21)) + (sys == 'C' ? 1356 : 0);
    return Ep{44244 + 7 * week, 0}.plus(long(num(11)));
  }
  std::vector<std::string> lines() const {
    std::vector<std::string> L;
    L.push_back(fmt(padded ? "%c%02d " : "%c%2d ", sys, prn) + toc.txt() + f[0] + f[1] + f[2]);
    int k = 3;
    for (int l = 1; l < nlines(sys); l++) {
      std::string t = "    ";
      int m = l + 1 < nlines(sys) ? 4 : nlast(sys);
      for (int j = 0; j < m; j++, k++)
        t += f[k];
      if (m < 4)
        t += last;
      L.push_back(t);
    }
    return L;
  }
};
struct File {
  std::vector<std::string> head;
  std::vector<Msg> m;
  bool last_newline = true;
  std::string text() const {
    std::string t;
    for (auto &h : head)
      t += h + "\n";
    if (m.empty() && !last_newline)
      t.pop_back();
    for (size_t k = 0; k < m.size(); k++) {
      auto L = m[k].lines();
      for (size_t j = 0; j < L.size(); j++) {
        t += L[j];
        if (last_newline || k + 1 < m.size() || j + 1 < L.size())
          t += "\n";
      }
    }
    return t;
  }
};
inline std::string col(std::string s, const char *label) {
  s.resize(60, ' ');
  return s + label;
}
inline std::vector<std::string> header(Src &s) {
  static const std::vector<std::string> v = {"     3.04", "     3.02", "     3.03", "     3.00",
                                             "     3.05", "3.04"};
  std::vector<std::string> h;
  std::string l = s.pick(v);
  l.resize(20, ' ');
  l += "N: GNSS NAV DATA    ";
  l += s.chr("MGRECJSI");
  h.push_back(col(l, "RINEX VERSION / TYPE"));
  int n = s.i(0, 6);
  for (int k = 0; k < n; k++)
    h.push_back(col(s.p(1, 4) ? decoy(s, {"END OF HEADER", "     2.11           O", "G01 2020 01 01 00 00 00"}, 60)
                              : s.str("ABC xyz 0123", 0, 59),
                    k % 2 ? "COMMENT" : "PGM / RUN BY / DATE"));
  h.push_back(col("", "END OF HEADER"));
  return h;
}
/// nineteen columns holding about v
inline std::string put(Src &s, double v) {
  std::string t = fmt("%19.12e", v);
  if (t.size() != 19)
    t = fmt("%19.11e", v);
  if (t.size() != 19)
    t = " 0.000000000000e+00";
  char x = s.chr("DEde");
  for (char &c : t)
    if (c == 'e')
      c = x;
  return t;
}
inline std::string any_number(Src &s) {
  switch (s.w({6, 2, 1, 1})) {
  case 0: {
    double m = s.dec(-9.999999999999, 9.999999999999, 12);
    return put(s, m * std::pow(10.0, int(s.iz(-30, 20))));
  }
  case 1:
    return put(s, double(s.iz(-1000, 1000)));
  case 2: { // Fortran style without a leading digit
    std::string t = fmt("%s.%012llu%c%c%02d", s.flip() ? "-" : " ",
                        (unsigned long long)s.u(999999999999ull), s.chr("DE"), s.chr("+-"),
                        int(s.u(30)));
    t.insert(t.begin(), 19 - t.size(), ' ');
    return t;
  }
  default: {
    std::string t = fmt("%.6f", s.dec(-99999, 99999, 6));
    t.insert(t.begin(), 19 - t.size(), ' ');
    return t;
  }
  }
}
inline Ep anyep(Src &s) {
  Ep e;
  e.mjd = s.i(44250, 60000);
  switch (s.w({2, 2, 1})) {
  case 0:
    e.sod = 1800 * s.i(0, 47);
    break;
  case 1:
    e.sod = s.i(0, 86399);
    break;
  default:
    e.sod = s.flip() ? 0 : 86399;
  }
  return e;
}
/// put a time of ephemeris delta seconds after ToC into the message
inline void set_toe(Src &s, Msg &m, long delta) {
  Ep t = m.toc.plus(delta);
  if (m.sys == 'R') {
    m.f[2] = put(s, double(((t.mjd - 44244) % 7) * 86400L + t.sod));
    return;
  }
  long week = (t.mjd - 44244) / 7, sow = (t.mjd - 44244) % 7 * 86400L + t.sod;
  if (s.p(1, 10) && sow < 86400) { // (seen in real files at the week's end)
    week -= 1;
    sow += 604800;
  }
  if (m.sys == 'C')
    week -= 1356;
  m.f[11] = put(s, double(sow));
  m.f[21] = put(s, double(week));
}
/// any numbers at all, apart from the time of ephemeris
inline Msg message(Src &s, const std::string &systems) {
  Msg m;
  m.sys = s.chr(systems);
  m.prn = s.p(2, 3) ? s.i(1, 4) : s.i(1, 99);
  m.padded = !s.p(1, 5);
  m.toc = anyep(s);
  for (auto &x : m.f)
    x = any_number(s);
  set_toe(s, m, s.w({2, 1}) ? s.iz(-7200, 7200) : 0);
  static const std::string blank(19, ' ');
  for (int k = 3; k < m.n(); k++)
    if (m.spare_field(k))
      m.f[k] = s.flip() ? blank : " 0.000000000000D+00";
  int free = nlast(m.sys);
  if (free < 4)
    switch (s.w({2, 1, 1})) {
    case 0:
      break;
    case 1:
      m.last = std::string(19 * (4 - free), ' ');
      break;
    default:
      for (int k = free; k < 4; k++)
        m.last += " 0.000000000000D+00";
    }
  return m;
}
/// realistic broadcast values (written with 13 digits)
inline void orbit(Src &s, Msg &m) {
  auto P = [&](int k, double v) { m.f[k] = put(s, v); };
  P(0, s.dec(-1e-3, 1e-3, 12));
  P(1, s.iz(-100000, 100000) * 1e-13);
  if (m.sys != 'R') // (message frame time there)
    P(2, s.p(1, 4) ? s.iz(-1000, 1000) * 1e-18 : 0);
  if (m.sys == 'R') {
    double r = 25.508e3 + s.dec(-60, 60, 6);
    double u = s.dec(0, 6.283, 6), i = s.dec(1.08, 1.17, 6), o = s.dec(0, 6.283, 6);
    double v = std::sqrt(398600.4418 / r) * (1 + s.dec(-2e-3, 2e-3, 6));
    double vr = s.dec(-0.05, 0.05, 6);
    auto rot = [&](double a, double b, double *x) {
      x[0] = a * std::cos(o) - b * std::cos(i) * std::sin(o);
      x[1] = a * std::sin(o) + b * std::cos(i) * std::cos(o);
      x[2] = b * std::sin(i);
    };
    double x[3], w[3];
    rot(r * std::cos(u), r * std::sin(u), x);
    rot(vr * std::cos(u) - v * std::sin(u), vr * std::sin(u) + v * std::cos(u), w);
    w[0] += 7.2921151467e-5 * x[1];
    w[1] -= 7.2921151467e-5 * x[0];
    for (int k = 0; k < 3; k++) {
      P(3 + 4 * k, x[k]);
      P(4 + 4 * k, w[k]);
      P(5 + 4 * k, s.iz(-4, 4) * 9.313225746155e-10);
    }
    P(6, 0);
    P(10, s.iz(-7, 6));
    P(14, s.i(0, 5));
    return;
  }
  bool geo = m.sys == 'C' && (m.prn <= 5 || m.prn >= 59);
  P(3, s.i(0, 255));                                  // IODE / IODnav / AODE
  P(4, s.dec(-200, 200, 5));                          // Crs
  P(5, s.dec(-6e-9, 6e-9, 13));                       // Delta n
  P(6, s.dec(-3.14159, 3.14159, 8));                  // M0
  P(7, s.dec(-1e-5, 1e-5, 12));                       // Cuc
  P(8, s.p(1, 3) ? s.dec(0, 0.5, 6) : s.dec(0, 0.03, 8)); // e
  P(9, s.dec(-1e-5, 1e-5, 12));                       // Cus
  P(10, geo || s.p(1, 8) ? s.dec(6480, 6500, 8)
        : m.sys == 'E'   ? s.dec(5430, 5450, 8)
        : m.sys == 'C'   ? s.dec(5280, 5290, 8)
                         : s.dec(5145, 5160, 8));     // sqrt(A)
  P(12, s.dec(-4e-7, 4e-7, 13));                      // Cic
  P(13, s.dec(-3.14159, 3.14159, 8));                 // OMEGA0
  P(14, s.dec(-4e-7, 4e-7, 13));                      // Cis
  P(15, geo ? s.dec(0, 0.2, 8) : s.dec(0.88, 1.05, 8)); // i0
  P(16, s.dec(-500, 500, 5));                         // Crc
  P(17, s.dec(-3.14159, 3.14159, 8));                 // omega
  P(18, s.dec(-1e-8, 1e-8, 14));                      // OMEGADOT
  P(19, s.dec(-1e-9, 1e-9, 14));                      // IDOT
  P(24, 0);
  P(25, s.iz(-50, 50) * 4.656612873077e-10);
}
inline std::string brief(const File &f) {
  std::string r;
  for (auto &m : f.m)
    for (auto &l : m.lines())
      r += l + "\n";
  return r;
}
/// compare a frame with the message it was read from
inline void same(const Msg &m, const NavDataFrame &n, const char *what) {
  CHECK(n.system() == sys(m.sys) && n.prn() == m.prn, "satellite", "%s: %c%d read as %c%d", what,
        m.sys, m.prn, ngpt::satsys_to_char(n.system()), n.prn());
  CHECK(n.toc() == m.toc.dt<ngpt::seconds>(), "toc", "%s: ToC %s read as mjd %ld sod %ld", what,
        m.toc.txt().c_str(), n.toc().mjd().as_underlying_type(),
        n.toc().sec().as_underlying_type());
  for (int k = 0; k < m.n(); k++)
    if (!m.spare_field(k)) {
      double w = m.val(k), g = n.data(k);
      CHECK(g == w || std::fabs(g - w) <= 1e-15 * std::fabs(w), "number",
            "%s: number %d of %c%d is %.17g, expected %.17g", what, k, m.sys, m.prn, g, w);
    }
  if (m.sys == 'R' || kepler(m.sys))
    CHECK(n.toe<ngpt::seconds>() == m.toe().dt<ngpt::seconds>(), "toe",
          "%s: ToE is mjd %ld sod %ld, expected %s (ToC %s)", what,
          n.toe<ngpt::seconds>().mjd().as_underlying_type(),
          n.toe<ngpt::seconds>().sec().as_underlying_type(), m.toe().txt().c_str(),
          m.toc.txt().c_str());
}
} // namespace nav
