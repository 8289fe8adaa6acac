// SP3-c and SP3-d orbit files: a model, a writer and a random generator
#pragma once
#include "pbt.hpp"
#include "sp3c.hpp"
#include <memory>

namespace sp3 {
using namespace pbt;
using ngpt::Sp3c;
using ngpt::Sp3EpochSvRecord;
using ngpt::Sp3Event;
typedef ngpt::datetime<ngpt::microseconds> Time;

/// an instant, in units of 10 ns (as the format has them)
struct Ep {
  long mjd = 58849;
  long t = 0; // of the day
  static constexpr long SEC = 100000000L, DAY = 86400L * SEC;
  Ep plus(long d) const {
    long m = mjd + d / DAY, x = t + d % DAY;
    if (x < 0)
      x += DAY, --m;
    if (x >= DAY)
      x -= DAY, ++m;
    return Ep{m, x};
  }
  /// nearest microsecond
  Time time() const { return Time(ngpt::modified_julian_day(mjd), ngpt::microseconds((t + 50) / 100)); }
  std::string txt(bool zeros = false) const {
    auto y = ngpt::modified_julian_day(mjd).to_ymd();
    long s = t / SEC;
    return fmt(zeros ? "%04d %02d %02d %02ld %02ld %02ld.%08ld" : "%4d %2d %2d %2ld %2ld %2ld.%08ld", y.__year.as_underlying_type(),
               y.__month.as_underlying_type(), y.__dom.as_underlying_type(), s / 3600, s / 60 % 60,
               s % 60, t % SEC);
  }
};
inline std::string show(const Time &t) {
  return fmt("%ld %.6f", long(t.mjd().as_underlying_type()), t.sec().as_underlying_type() * 1e-6);
}
struct Rec {
  char sys = 'G';
  int prn = 1;
  std::string v[4];     // fourteen columns each
  std::string sdev;     // columns 61-74
  std::string flags = "      "; // columns 75-80
  bool trim = false;    // no trailing blanks
  std::vector<std::string> more; // velocity and correlation lines
  bool zero = true;     // "01" rather than " 1"
  std::string line() const {
    std::string l = fmt(zero ? "P%c%02d" : "P%c%2d", sys, prn) + v[0] + v[1] + v[2] + v[3] + sdev + flags;
    if (trim)
      while (!l.empty() && l.back() == ' ')
        l.pop_back();
    return l;
  }
  double val(int k) const { return strtod(v[k].c_str(), nullptr) * (k < 3 ? 1e3 : 1.0); }
};
struct Epoch {
  Ep t;
  bool zeros = false; // "01" rather than " 1"
  std::vector<Rec> r;
  std::vector<std::string> lines() const {
    std::vector<std::string> L = {"*  " + t.txt(zeros)};
    for (auto &x : r) {
      L.push_back(x.line());
      L.insert(L.end(), x.more.begin(), x.more.end());
    }
    return L;
  }
};
struct Head {
  char version = 'c', pv = 'P';
  Ep start;
  bool zeros = false;
  int epochs = 96;
  std::string data = "ORBIT", crd = "IGS97", orb = "HLM", agency = " IGS", tsys = "GPS";
  long interval = 900 * Ep::SEC;
  int nsats = 2;
  std::vector<std::string> sats;
  int nlines = 5; // of satellites, and of accuracies
  std::vector<std::string> comments;
  std::vector<std::string> lines() const {
    std::vector<std::string> L;
    L.push_back(fmt("#%c%c", version, pv) + start.txt(zeros) +
                fmt(" %7d %-5s %-5s %-3s %-4s", epochs, data.c_str(), crd.c_str(), orb.c_str(),
                    agency.c_str()));
    long d = start.mjd - 44244, sow = (d % 7) * Ep::DAY + start.t;
    // fraction of the day, to 13 decimals (rounded)
    __int128 fr = ((__int128)start.t * 10000000000000LL + Ep::DAY / 2) / Ep::DAY;
    L.push_back(fmt("## %4ld %6ld.%08ld %5ld.%08ld %5ld %ld.%013lld", d / 7, sow / Ep::SEC,
                    sow % Ep::SEC, interval / Ep::SEC, interval % Ep::SEC, start.mjd,
                    long(fr / 10000000000000LL), (long long)(fr % 10000000000000LL)));
    for (int k = 0; k < nlines; k++) {
      std::string l = k ? "+        " : fmt("+  %3d   ", nsats);
      for (int j = 0; j < 17; j++)
        l += size_t(k * 17 + j) < sats.size() ? sats[k * 17 + j] : "  0";
      L.push_back(l);
    }
    for (int k = 0; k < nlines; k++) {
      std::string l = "++       ";
      for (int j = 0; j < 17; j++)
        l += size_t(k * 17 + j) < sats.size() ? "  2" : "  0";
      L.push_back(l);
    }
    L.push_back("%c M  cc " + tsys + " ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
    L.push_back("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
    L.push_back("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000");
    L.push_back("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000");
    L.push_back("%i    0    0    0    0      0      0      0      0         0");
    L.push_back("%i    0    0    0    0      0      0      0      0         0");
    for (auto &c : comments)
      L.push_back("/*" + c);
    return L;
  }
};
struct File {
  Head h;
  std::vector<Epoch> e;
  bool last_newline = true;
  std::string text() const {
    std::string t;
    for (auto &l : h.lines())
      t += l + "\n";
    for (auto &x : e)
      for (auto &l : x.lines())
        t += l + "\n";
    t += "EOF";
    if (last_newline)
      t += "\n";
    return t;
  }
};

inline Ep instant(Src &s) {
  Ep e;
  e.mjd = s.i(44251, 68000); // from the second GPS week on: week 0 is refused
  switch (s.w({3, 3, 2, 2})) {
  case 0:
    e.t = 0;
    break;
  case 1:
    e.t = s.i(0, 95) * 900L * Ep::SEC;
    break;
  case 2:
    e.t = s.i(0, 86399) * Ep::SEC;
    break;
  default: // with microseconds, and some with tens of nanoseconds
    e.t = s.i(0, 86399) * Ep::SEC + s.i(0, 999999) * 100L;
    if (s.p(1, 3)) {
      int ns = s.i(1, 98);
      e.t += ns >= 50 ? ns + 1 : ns; // nothing halfway
    }
  }
  return e;
}
inline std::string satname(Src &s, char *c = nullptr, int *n = nullptr) {
  char sys = s.flip() ? 'G' : s.chr("GRECJIS");
  int prn = s.i(1, 99);
  if (c)
    *c = sys, *n = prn;
  return fmt("%c%02d", sys, prn);
}
inline std::string txt(Src &s, int n) {
  std::string t = s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", n, n);
  return t;
}
inline Head header(Src &s) {
  Head h;
  h.version = s.chr("cd");
  h.pv = s.chr("PV");
  h.start = instant(s);
  h.zeros = s.p(1, 4);
  h.epochs = s.p(1, 3) ? s.i(1, 9999999) : s.i(1, 96);
  h.data = s.p(1, 2) ? "ORBIT" : txt(s, s.i(1, 5));
  h.crd = s.p(1, 3) ? "IGS14" : txt(s, s.i(1, 5));
  h.orb = s.p(1, 3) ? "HLM" : txt(s, 3);
  h.agency = s.p(1, 3) ? " IGS" : txt(s, s.i(1, 4));
  h.tsys = s.p(1, 2) ? "GPS" : txt(s, 3);
  switch (s.u(2)) {
  case 0:
    h.interval = s.pick(std::vector<long>{900, 300, 30, 1, 86400, 3600}) * Ep::SEC;
    break;
  case 1:
    h.interval = s.i(1, 99999) * Ep::SEC;
    break;
  default:
    h.interval = s.i(0, 99999) * Ep::SEC + s.i(1, 999999) * 100L;
  }
  h.nsats = s.flip() ? s.i(1, 5) : h.version == 'c' ? s.i(1, 85) : s.i(1, s.p(1, 12) ? 999 : 180);
  for (int k = 0; k < h.nsats; k++)
    h.sats.push_back(satname(s));
  h.nlines = std::max(5, (h.nsats + 16) / 17);
  int n = s.i(0, 6);
  if (h.version == 'c' && s.flip())
    n = 4;
  for (int k = 0; k < n; k++)
    h.comments.push_back(s.p(1, 4)   ? ""
                         : s.p(1, 4) ? decoy(s, {"EOF", "* 2020  1  1  0  0  0.00000000", "PG01  1.0", "+   3 G01G02G03", "%f 1", "/*"}, 77)
                                     : " " + s.str("ABC 0123xyz*/+#", 0, 77));
  return h;
}
/// a number of F14.6
inline std::string number(Src &s, long hi, bool all_columns = false) {
  long v = 0;
  switch (s.w({4, 1, 1})) {
  case 0:
    v = s.i(-hi, hi) * 1000000L + s.i(0, 999999);
    break;
  case 1:
    v = s.i(-9999999, 9999999);
    break;
  default:
    v = s.i(-2, 2);
  }
  if (all_columns && s.p(1, 8)) // fills its columns
    v = s.flip() ? -s.i(100000, 999999) * 1000000L - s.i(0, 999999)
                 : s.i(1000000, 9999999) * 1000000L + s.i(0, 999999);
  std::string t = fmt("%s%ld.%06ld", v < 0 ? "-" : "", std::labs(v) / 1000000, std::labs(v) % 1000000);
  return std::string(14 - t.size(), ' ') + t;
}
inline Rec record(Src &s) {
  Rec r;
  satname(s, &r.sys, &r.prn);
  r.zero = !s.p(1, 8);
  for (int k = 0; k < 3; k++)
    r.v[k] = s.p(1, 15) ? "      0.000000" : number(s, 45000, true);
  r.v[3] = s.p(1, 5) ? s.pick(std::vector<std::string>{" 999999.999999", " 999999.000000", " 999998.999999",
                                                        "1000000.000000", "      0.000000", "-999999.999999"})
                     : number(s, 99999);
  if (s.flip())
    r.sdev = fmt(" %2d %2d %2d %3d ", s.i(0, 99), s.i(0, 99), s.i(0, 99), s.i(0, 999));
  else
    r.sdev = std::string(14, ' ');
  if (s.flip()) {
    r.flags[0] = s.chr(" E");
    r.flags[1] = s.chr(" P");
    r.flags[4] = s.chr(" M");
    r.flags[5] = s.chr(" P");
  }
  r.trim = s.flip();
  if (s.p(1, 6))
    r.more.push_back("EP   55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000");
  if (s.p(1, 6)) {
    r.more.push_back(fmt("V%c%02d", r.sys, r.prn) + number(s, 45000) + number(s, 45000) +
                     number(s, 45000) + number(s, 99999));
    if (s.flip())
      r.more.push_back("EV   22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567");
  }
  return r;
}
inline Epoch epoch(Src &s, int most, Ep t) {
  Epoch e;
  e.t = t;
  e.zeros = s.p(1, 4);
  int n = s.p(1, 6) ? most : s.i(0, most);
  for (int k = 0; k < n; k++)
    e.r.push_back(record(s));
  return e;
}
inline File file(Src &s, int most_epochs, int most_sats = 6) {
  File f;
  f.h = header(s);
  if (s.p(3, 4)) { // mostly small headers
    f.h.nsats = std::min(f.h.nsats, most_sats);
    f.h.sats.resize(f.h.nsats);
    f.h.nlines = 5;
  }
  int n = s.i(1, most_epochs);
  Ep t = f.h.start;
  for (int k = 0; k < n; k++) {
    f.e.push_back(epoch(s, std::min(f.h.nsats, most_sats), t));
    t = s.p(1, 5) ? instant(s) : t.plus(f.h.interval);
  }
  f.last_newline = !s.p(1, 4);
  return f;
}
/// compare what was read with the epoch of the model
inline void same(const Epoch &e, const Time &t, const std::vector<Sp3EpochSvRecord> &v, int n) {
  CHECK(t == e.t.time(), "time", "epoch %s instead of %s", show(t).c_str(), show(e.t.time()).c_str());
  CHECK(n == int(e.r.size()), "number", "%d satellites instead of %zu", n, e.r.size());
  CHECK(size_t(n) <= v.size(), "vector", "%d satellites in a vector of %zu", n, v.size());
  for (int k = 0; k < n; k++) {
    auto &r = e.r[k];
    CHECK(ngpt::satsys_to_char(v[k].s_) == r.sys && v[k].prn_ == r.prn, "satellite", "%c%d instead of %s",
          ngpt::satsys_to_char(v[k].s_), v[k].prn_, r.line().c_str());
    for (int j = 0; j < 4; j++) {
      double x = r.val(j);
      CHECK(std::fabs(v[k].vals_[j] - x) <= 1e-12 * std::fabs(x), "value", "value %d is %.17g, not %.17g of [%s]", j,
            v[k].vals_[j], x, r.line().c_str());
    }
  }
}
inline void same_flags(const Rec &r, const Sp3EpochSvRecord &v) {
  bool nopos = false;
  for (int k = 0; k < 3; k++)
    nopos |= r.val(k) == 0;
  const struct {
    Sp3Event e;
    bool on;
    const char *what;
  } all[] = {{Sp3Event::bad_abscent_position, nopos, "absent position"},
             {Sp3Event::bad_abscent_clock, r.val(3) >= 999999, "absent clock"},
             {Sp3Event::clock_event, r.flags[0] == 'E', "clock event"},
             {Sp3Event::clock_prediction, r.flags[1] == 'P', "clock prediction"},
             {Sp3Event::maneuver, r.flags[4] == 'M', "maneuver"},
             {Sp3Event::orbit_prediction, r.flags[5] == 'P', "orbit prediction"}};
  for (auto &a : all)
    CHECK(v.flag_.is_set(a.e) == a.on, a.what, "flag '%s' is %d for [%s]", a.what, int(v.flag_.is_set(a.e)),
          r.line().c_str());
}
} // namespace sp3
