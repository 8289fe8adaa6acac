// observation RINEX 3 files: a model, a writer and a random generator
#pragma once
#include "obsrnx.hpp"
#include "pbt.hpp"
#include <map>
#include <memory>

namespace obs {
using namespace pbt;
using ngpt::GnssObservable;
using ngpt::ObservationCode;
using ngpt::ObservationRnx;
using ngpt::SATELLITE_SYSTEM;
typedef std::map<SATELLITE_SYSTEM, std::vector<std::vector<std::pair<std::size_t, double>>>> ReadMap;
typedef std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> Wanted;
typedef std::vector<std::pair<ngpt::Satellite, std::vector<double>>> Out;

inline SATELLITE_SYSTEM sys(char c) { return ngpt::char_to_satsys(c); }
inline std::string col(std::string s, const std::string &label) {
  s.resize(60, ' ');
  return s + label;
}
inline std::string pad(std::string s, size_t n) {
  s.resize(std::max(n, s.size()), ' ');
  return s;
}
inline std::string rstrip(std::string s) {
  while (!s.empty() && s.back() == ' ')
    s.pop_back();
  return s;
}
/// one observation, sixteen columns or less
struct Val {
  bool blank = true;
  std::string f; // F14.3
  char lli = ' ', ssi = ' ';
  double num() const { return blank ? -999.99 : strtod(f.c_str(), nullptr); }
  std::string txt() const { return (blank ? std::string(14, ' ') : f) + lli + ssi; }
};
struct Sat {
  char sys;
  int prn;
  bool padded;
  std::vector<Val> v;
  int trim; // trailing blanks: 0 kept, 1 removed, 2 blanks added
  std::string line() const {
    std::string t = fmt(padded ? "%c%02d" : "%c%2d", sys, prn);
    for (auto &x : v)
      t += x.txt();
    if (trim == 1)
      t = rstrip(t);
    return t;
  }
};
struct Epoch {
  int y, mo, d, h, mi;
  std::string s; // F11.7
  char flag = '0';
  bool padded = true;   // "01" rather than " 1"
  std::string clk;      // receiver clock offset, or nothing
  std::vector<Sat> sats;
  std::vector<std::string> event; // records of a special event
  bool blank_date = false;
  bool special() const { return flag > '1'; }
  long mjd() const {
    long yy = y - (mo <= 2), era = yy / 400, yoe = yy % 400;
    long doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 678881;
  }
  double sod() const { return (h * 60. + mi) * 60. + strtod(s.c_str(), nullptr); }
  std::string line() const {
    std::string t = fmt(padded ? "> %04d %02d %02d %02d %02d" : "> %4d %2d %2d %2d %2d", y, mo, d, h, mi) + s;
    if (blank_date)
      t = pad(">", 29);
    t += fmt("  %c%3zu", flag, special() ? event.size() : sats.size());
    if (!clk.empty())
      t += "      " + clk;
    return t;
  }
};
struct Head {
  std::string version = "     3.04";
  char type = 'O', satsys = 'M';
  std::string marker, number, rec, rectype, recvers, serial, ant;
  double xyz[3] = {0, 0, 0}, hen[3] = {0, 0, 0};
  std::map<char, std::vector<std::string>> types;
  std::vector<char> order; // of systems
  int y = 2019, mo = 1, d = 1, h = 0, mi = 0;
  std::string s = "    0.0000000"; // F13.7
  int rcv = -1;                    // RCV CLOCK OFFS APPL, -1 none
  std::vector<std::string> lines;  // as written
  size_t maxobs() const {
    size_t m = 0;
    for (auto &t : types)
      m = std::max(m, t.second.size());
    return m;
  }
  std::vector<std::string> obstypes(char c) const {
    std::vector<std::string> L;
    auto &t = types.at(c);
    for (size_t k = 0; k < t.size(); k++) {
      if (k % 13 == 0)
        L.push_back(k ? "      " : fmt("%c  %3zu", c, t.size()));
      L.back() += " " + t[k];
    }
    for (auto &l : L)
      l = col(l, "SYS / # / OBS TYPES");
    return L;
  }
};
struct File {
  Head head;
  std::vector<Epoch> ep;
  bool last_newline = true;
  std::string text() const {
    std::string t;
    for (auto &l : head.lines)
      t += l + "\n";
    for (auto &e : ep) {
      t += e.line() + "\n";
      if (e.special())
        for (auto &l : e.event)
          t += l + "\n";
      else
        for (auto &x : e.sats)
          t += x.line() + "\n";
    }
    if (!last_newline)
      t.pop_back();
    return t;
  }
};
inline bool valid_date(int y, int m, int d) {
  static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  return d >= 1 && d <= n[m - 1] + (m == 2 && leap);
}
template <class E> inline void date(Src &s, E &e) {
  e.y = s.i(1990, 2040);
  e.mo = s.i(1, 12);
  e.d = s.p(1, 4) ? s.i(28, 31) : s.i(1, 28);
  while (!valid_date(e.y, e.mo, e.d))
    --e.d;
  e.h = s.i(0, 23);
  e.mi = s.i(0, 59);
}
inline std::string code(Src &s) {
  std::string c;
  c += s.chr("CLDS");
  c += s.chr("125678934");
  c += s.chr("CWPQXLIZSABDEMNY");
  return c;
}
inline std::string name(Src &s, size_t n) {
  static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-./_";
  size_t len = s.w({6, 1}) ? n : s.i(1, n);
  std::string t = s.str(a, 1, 1);
  while (t.size() < len)
    t += s.p(1, 6) ? ' ' : s.chr(a);
  return rstrip(t);
}
/// the header; types of observation of (at least one of) the systems
inline Head header(Src &s, size_t maxtypes = 28) {
  Head h;
  static const std::vector<std::string> v = {"     3.04", "     3.02", "     3.03", "     3.00", "     3.05"};
  h.version = s.pick(v);
  h.satsys = s.chr("MGRECJSI");
  h.marker = name(s, s.flip() ? 4 : 60);
  h.number = s.p(1, 4) ? "" : name(s, 20);
  h.rec = name(s, 20);
  h.rectype = name(s, 20);
  h.recvers = name(s, 20);
  h.serial = s.p(1, 3) ? "" : name(s, 20);
  if (!h.serial.empty() && s.p(1, 4)) // right-justified, or nearly
    h.serial = std::string(s.i(0, 20 - long(h.serial.size())), ' ') + h.serial;
  {
    static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    h.ant = s.str(a, 3, 15);
    if (s.p(2, 3))
      h.ant = pad(h.ant, 16) + (s.flip() ? "NONE" : s.str(a, 4, 4));
  }
  for (double &x : h.xyz)
    x = s.p(1, 8) ? 0 : s.dec(-9999999, 99999999, 4);
  for (double &x : h.hen)
    x = s.p(1, 2) ? 0 : s.dec(-99, 99, 4);
  std::string all = "GRECJSI";
  int ns = s.i(1, 5);
  for (int k = 0; k < ns; k++) {
    char c = all[s.u(all.size() - 1)];
    all.erase(all.find(c), 1);
    h.order.push_back(c);
    size_t n;
    switch (s.w({3, 2, 2})) {
    case 0:
      n = s.i(1, 5);
      break;
    case 1:
      n = s.i(1, maxtypes);
      break;
    default:
      n = s.pick(std::vector<int>{12, 13, 14, 25, 26, 27});
    }
    n = std::min(n, maxtypes);
    if (maxtypes >= 28 && s.p(1, 40))
      n = s.i(28, 130);
    auto &t = h.types[c];
    for (int tries = 0; t.size() < n && tries < 200; tries++) {
      std::string x = code(s);
      if (std::find(t.begin(), t.end(), x) == t.end())
        t.push_back(x);
    }
  }
  date(s, h);
  h.s = fmt("%12.6f0", s.p(1, 2) ? s.i(0, 59) : s.dec(0, 59.999999, 6));
  h.rcv = s.p(1, 3) ? s.i(0, 1) : -1;
  std::vector<std::vector<std::string>> r;
  r.push_back({col(h.marker, "MARKER NAME")});
  if (!h.number.empty())
    r.push_back({col(h.number, "MARKER NUMBER")});
  r.push_back({col(pad(h.rec, 20) + pad(h.rectype, 20) + h.recvers, "REC # / TYPE / VERS")});
  r.push_back({col(pad(h.serial, 20) + h.ant, "ANT # / TYPE")});
  r.push_back({col(fmt("%14.4f%14.4f%14.4f", h.xyz[0], h.xyz[1], h.xyz[2]), "APPROX POSITION XYZ")});
  r.push_back({col(fmt("%14.4f%14.4f%14.4f", h.hen[0], h.hen[1], h.hen[2]), "ANTENNA: DELTA H/E/N")});
  r.push_back({col(fmt("%6d%6d%6d%6d%6d", h.y, h.mo, h.d, h.h, h.mi) + h.s + "     GPS", "TIME OF FIRST OBS")});
  if (h.rcv >= 0)
    r.push_back({col(fmt("%6d", h.rcv), "RCV CLOCK OFFS APPL")});
  std::vector<std::string> types;
  for (char c : h.order)
    for (auto &l : h.obstypes(c))
      types.push_back(l);
  r.push_back(types);
  r.push_back({col("    30.000", "INTERVAL")});
  r.push_back({col(name(s, 60), "PGM / RUN BY / DATE")});
  // records that are not used, some of whose labels begin like those that are
  static const std::vector<std::pair<std::string, std::string>> other = {
      {"GEODETIC", "MARKER TYPE"},
      {"OBSERVER            AGENCY", "OBSERVER / AGENCY"},
      {"        9.8765        8.7654        7.6543", "ANTENNA: DELTA X/Y/Z"},
      {"G L1C        0.1234        0.2345        0.3456", "ANTENNA: PHASECENTER"},
      {"        0.1000        0.2000        0.3000", "ANTENNA: B.SIGHT XYZ"},
      {"        0.1000", "ANTENNA: ZERODIR AZI"},
      {"  1111.1111     2222.2222     3333.3333", "CENTER OF MASS: XYZ"},
      {"DBHZ", "SIGNAL STRENGTH UNIT"},
      {"  2001    02    03    04    05   06.0000000     GPS", "TIME OF LAST OBS"},
      {"G", "SYS / DCBS APPLIED"},
      {"G", "SYS / PCVS APPLIED"},
      {"G   10  2 L1C L2W", "SYS / SCALE FACTOR"},
      {"G L2S -0.25000  2 G01 G02", "SYS / PHASE SHIFT"},
      {"  2 R01  1 R02 -4", "GLONASS SLOT / FRQ #"},
      {" C1C  -71.940 C1P  -71.940", "GLONASS COD/PHS/BIS"},
      {"    18    18  1929     7", "LEAP SECONDS"},
      {"    12", "# OF SATELLITES"},
      {"   G01    12    12", "PRN / # OF OBS"}};
  int no = s.p(1, 2) ? 0 : s.i(1, 8);
  for (int k = 0; k < no; k++) {
    auto &o = s.pick(other);
    r.push_back({col(o.first, o.second)});
  }
  int nc = s.i(0, 4);
  for (int k = 0; k < nc; k++)
    r.push_back({col(s.p(1, 3) ? decoy(s, {"END OF HEADER", "G    3 C1C L1C S1C", "SYS / # / OBS TYPES", "MARKER NAME",
                                           "     2.11           OBSERVATION DATA", "> 2020 01 01 00 00  0.0000000  0  1"}, 60)
                               : name(s, 60), "COMMENT")});
  // records in any order after the first (systems' own lines stay together)
  for (size_t k = r.size(); k > 1; k--)
    std::swap(r[k - 1], r[k - 1 - s.u(k - 1)]);
  std::string l = h.version;
  l.resize(20, ' ');
  l += "OBSERVATION DATA    ";
  l += h.satsys;
  h.lines.push_back(col(l, "RINEX VERSION / TYPE"));
  for (auto &x : r)
    for (auto &y : x)
      h.lines.push_back(y);
  h.lines.push_back(col("", "END OF HEADER"));
  if (s.flip())
    for (auto &x : h.lines)
      x = pad(x, 80);
  return h;
}
inline Val value(Src &s) {
  Val v;
  v.blank = s.p(1, 4);
  if (!v.blank) {
    double x;
    switch (s.w({4, 2, 1, 1})) {
    case 0:
      x = s.dec(20000000, 26000000, 3);
      break;
    case 1:
      x = s.dec(-99999, 99999, 3);
      break;
    case 2:
      x = s.dec(-99999999, 999999999, 3);
      break;
    default:
      x = 0;
    }
    v.f = fmt("%14.3f", x);
    if (v.f.size() > 14)
      v.f = "         0.000";
    if (strtod(v.f.c_str(), nullptr) == -999.99) // that is how blanks are read
      v.f = "      -999.991";
  }
  if (!v.blank || s.p(1, 6)) {
    v.lli = s.flip() ? ' ' : s.chr("01234567");
    v.ssi = s.flip() ? ' ' : s.chr("0123456789");
  }
  return v;
}
inline Epoch epoch(Src &s, const Head &h, int maxsats = 10, bool exactly = false) {
  Epoch e;
  date(s, e);
  e.s = fmt("%11.7f", s.flip() ? s.i(0, 59) : s.dec(0, 59.9999999, 7));
  e.flag = s.p(1, 8) ? '1' : '0';
  e.padded = !s.p(1, 6);
  if (s.p(1, 3))
    e.clk = fmt("%15.12f", s.dec(-0.9, 0.9, 12));
  int n = exactly ? maxsats : s.i(0, maxsats);
  std::set<std::pair<char, int>> have;
  for (int k = 0; exactly ? int(have.size()) < n : k < n; k++) {
    Sat x;
    x.sys = s.pick(h.order);
    x.prn = s.i(1, s.p(1, 5) ? 99 : 32);
    if (!have.insert({x.sys, x.prn}).second) {
      if (!exactly)
        continue;
      for (x.prn = 1; !have.insert({x.sys, x.prn}).second;)
        ++x.prn; // the first that is free
    }
    x.padded = !s.p(1, 8);
    auto &t = h.types.at(x.sys);
    for (size_t j = 0; j < t.size(); j++)
      x.v.push_back(value(s));
    x.trim = s.u(1);
    e.sats.push_back(x);
  }
  return e;
}
/// a special event: header lines or cycle slip records follow
inline Epoch event(Src &s, const Head &h) {
  Epoch e = epoch(s, h, 0);
  e.flag = s.chr("23456");
  e.clk.clear();
  if (e.flag == '6') {
    Epoch x = epoch(s, h, 4);
    for (auto &r : x.sats)
      e.event.push_back(r.line());
  } else {
    int n = s.p(3, 4) ? s.i(0, 4) : s.i(5, s.p(1, 8) ? 999 : 130);
    for (int k = 0; k < n; k++)
      e.event.push_back(k > 4 ? e.event[k % 5] : s.p(1, 6) ? col(decoy(s, {"> 2020 01 01 00 00  0.0000000  0  1", "END OF HEADER", "G01  20000000.000"}, 60), "COMMENT")
                                           : s.flip() ? col(name(s, 60), "COMMENT") : col(name(s, 60), "MARKER NAME"));
    e.blank_date = s.p(1, 3);
  }
  return e;
}
/// a combination of one or more observations of a system
inline GnssObservable wanted(Src &s, char c, const std::vector<std::string> &t) {
  auto coef = [&]() -> double { return s.w({2, 1}) ? s.dec(-3, 3, 3) : 1.0; };
  GnssObservable o(sys(c), ObservationCode(s.pick(t).c_str()), coef());
  int n = s.w({3, 2, 1, 1});
  for (int k = 0; k < n; k++)
    o.add(sys(c), ObservationCode(s.pick(t).c_str()), coef());
  return o;
}
inline Wanted wanted(Src &s, const Head &h) {
  Wanted w;
  for (char c : h.order)
    if (s.p(3, 4)) {
      int n = s.i(1, 6);
      for (int k = 0; k < n; k++)
        w[sys(c)].push_back(wanted(s, c, h.types.at(c)));
    }
  return w;
}
inline int column(const std::vector<std::string> &t, const std::string &c) {
  for (size_t k = 0; k < t.size(); k++)
    if (t[k] == c)
      return k;
  return -1;
}
inline std::string brief(const File &f) {
  std::string r;
  for (char c : f.head.order)
    for (auto &l : f.head.obstypes(c))
      r += l + "\n";
  std::string t = f.text();
  size_t at = t.find("END OF HEADER");
  return r + t.substr(at);
}
/// compare what was collected with the epoch
inline void same(const File &f, const Epoch &e, Wanted &w, const Out &out, int sats,
                 const ngpt::modified_julian_day &mjd, double sod) {
  CHECK(mjd.as_underlying_type() == e.mjd() && std::fabs(sod - e.sod()) < 1e-8, "epoch",
        "epoch %s read as mjd %ld, %.8f s", e.line().c_str(), long(mjd.as_underlying_type()), sod);
  size_t n = 0;
  for (auto &x : e.sats) {
    auto it = w.find(sys(x.sys));
    if (it == w.end() || it->second.empty())
      continue;
    CHECK(n < size_t(sats), "satellites", "only %d satellites collected", sats);
    auto &g = out[n++];
    CHECK(g.first.system() == sys(x.sys) && g.first.prn() == x.prn, "satellite",
          "satellite %zu is %c%d, expected %c%d", n - 1, ngpt::satsys_to_char(g.first.system()),
          g.first.prn(), x.sys, x.prn);
    for (size_t k = 0; k < it->second.size(); k++) {
      double want = 0, size = 0;
      bool missing = false;
      for (auto &p : it->second[k].underlying_vector()) {
        int c = column(f.head.types.at(x.sys), p.__type.code().to_string());
        missing |= x.v[c].blank;
        want += x.v[c].num() * p.__coef;
        size += std::fabs(x.v[c].num() * p.__coef);
      }
      if (missing)
        want = -999.99;
      CHECK(std::fabs(g.second[k] - want) <= (missing ? 0 : 1e-14 * size), "value",
            "%c%02d %s = %.12g, expected %.12g", x.sys, x.prn, it->second[k].to_string().c_str(),
            g.second[k], want);
    }
  }
  CHECK(n == size_t(sats), "satellites", "%d satellites collected, expected %zu", sats, n);
}
} // namespace obs
