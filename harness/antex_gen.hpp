// ANTEX files: a model, a writer and a random generator (used by C08-C11, C27)
#pragma once
#include "antex.hpp"
#include "pbt.hpp"
#include <sstream>

namespace atx {
using namespace pbt;
typedef ngpt::datetime<ngpt::seconds> Dt;

inline std::string pad(std::string s, size_t n) {
  s.resize(n, ' ');
  return s;
}
inline std::string rec(const std::string &body, const std::string &label) {
  return pad(body, 60) + label;
}
struct Ep {
  long mjd = 51544;
  int sod = 0;
  bool operator<=(const Ep &o) const { return mjd < o.mjd || (mjd == o.mjd && sod <= o.sod); }
  Dt dt() const { return Dt(ngpt::modified_julian_day(mjd), ngpt::seconds(sod)); }
  std::string txt(const char *frac) const {
    auto y = ngpt::modified_julian_day(mjd).to_ymd();
    return fmt("%6d%6d%6d%6d%6d%5d.%s", y.__year.as_underlying_type(),
               y.__month.as_underlying_type(), y.__dom.as_underlying_type(), sod / 3600,
               sod / 60 % 60, sod % 60, frac);
  }
  Ep plus(long s) const {
    long t = sod + s;
    long d = t / 86400;
    t %= 86400;
    if (t < 0) {
      t += 86400;
      --d;
    }
    return Ep{mjd + d, int(t)};
  }
};
struct Freq {
  char sys = 'G';
  int band = 1;
  std::string n, e, u; // ten columns each
  bool rms = false;
};
struct Ant {
  bool sat = false;
  // receiver
  std::string name, serial; // 20 columns, up to 20
  // satellite
  std::string type; // 20 columns
  char sys = 'G';
  int prn = 1;
  bool anyprn = false; // blank satellite code
  int svn = -1;
  std::string cospar;
  bool from = false, until = false;
  Ep f, u;
  std::vector<Freq> fr;
  // layout
  bool sinex = false, noazi_only = true, endrms = false;
  int comments = 0;
  bool untilfirst = false; // VALID UNTIL before VALID FROM
  bool commentsfirst = false; // comments before them
  int dazi = 0, ncol = 5;
  std::string typeline() const {
    if (!sat)
      return rec(name + pad(serial, 20), "TYPE / SERIAL NO");
    std::string l = type;
    l += anyprn ? std::string(20, ' ') : pad(fmt("%c%02d", sys, prn), 20);
    l += svn >= 0 ? pad(fmt("%c%03d", sys, svn), 10) : std::string(10, ' ');
    l += pad(cospar, 10);
    return rec(l, "TYPE / SERIAL NO");
  }
};
struct File {
  std::string version = "     1.4";
  char sys = 'M';
  char pcv = 'A';
  std::vector<std::string> head; // lines after the second, before END OF HEADER
  bool eoh = true;
  std::vector<Ant> ants;
  bool last_newline = true;

  std::vector<std::string> lines() const {
    std::vector<std::string> L;
    L.push_back(rec(pad(version, 20) + sys, "ANTEX VERSION / SYST"));
    L.push_back(rec(std::string(1, pcv), "PCV TYPE / REFANT"));
    for (auto &h : head)
      L.push_back(h);
    if (eoh)
      L.push_back(rec("", "END OF HEADER"));
    for (auto &a : ants) {
      L.push_back(rec("", "START OF ANTENNA"));
      L.push_back(a.typeline());
      L.push_back(rec("ROBOT               Geo++ GmbH               2    11-FEB-19",
                      "METH / BY / # / DATE"));
      L.push_back(rec(fmt("%8.1f", double(a.dazi)), "DAZI"));
      L.push_back(rec(fmt("  %6.1f%6.1f%6.1f", 0.0, 5.0 * (a.ncol - 1), 5.0),
                      "ZEN1 / ZEN2 / DZEN"));
      L.push_back(rec(fmt("%6zu", a.fr.size()), "# OF FREQUENCIES"));
      if (a.commentsfirst)
        comments(L, a);
      for (int pass = 0; pass < 2; pass++) {
        if (a.until && pass != a.untilfirst)
          L.push_back(rec(a.u.txt(a.u.sod % 60 == 59 ? "9999999" : "0000000"), "VALID UNTIL"));
        if (a.from && !pass)
          L.push_back(rec(a.f.txt("0000000"), "VALID FROM"));
      }
      if (a.sinex)
        L.push_back(rec("IGS14_2035", "SINEX CODE"));
      if (!a.commentsfirst)
        comments(L, a);
      for (auto &f : a.fr) {
        L.push_back(rec(fmt("   %c%02d", f.sys, f.band), "START OF FREQUENCY"));
        L.push_back(rec(f.n + f.e + f.u, "NORTH / EAST / UP"));
        grid(L, a);
        L.push_back(rec(fmt("   %c%02d", f.sys, f.band), "END OF FREQUENCY"));
        if (f.rms)
          rms(L, a, f);
      }
      if (a.endrms)
        for (auto &f : a.fr)
          rms(L, a, f);
      L.push_back(rec("", "END OF ANTENNA"));
    }
    return L;
  }
  static void comments(std::vector<std::string> &L, const Ant &a) {
    for (int k = 0; k < a.comments; k++)
      L.push_back(rec(k % 3 == 0   ? "END OF ANTENNA START OF FREQUENCY"
                      : k % 3 == 1 ? "VALID UNTIL 1980     1     1     0     0    0.0000000"
                                   : "calibrated together",
                      "COMMENT"));
  }
  static void grid(std::vector<std::string> &L, const Ant &a) {
    std::string r = "   NOAZI";
    for (int k = 0; k < a.ncol; k++)
      r += fmt("%8.2f", -0.25 * k * k + 1.0);
    L.push_back(r);
    if (a.dazi)
      for (int z = 0; z <= 360; z += a.dazi) {
        r = fmt("%8.1f", double(z));
        for (int k = 0; k < a.ncol; k++)
          r += fmt("%8.2f", 0.125 * k - z / 100.0);
        L.push_back(r);
      }
  }
  static void rms(std::vector<std::string> &L, const Ant &a, const Freq &f) {
    L.push_back(rec(fmt("   %c%02d", f.sys, f.band), "START OF FREQ RMS"));
    L.push_back(rec("      0.10      0.20      0.30", "NORTH / EAST / UP"));
    grid(L, a);
    L.push_back(rec(fmt("   %c%02d", f.sys, f.band), "END OF FREQ RMS"));
  }
  std::string text() const {
    std::string t;
    auto L = lines();
    for (size_t i = 0; i < L.size(); i++) {
      t += L[i];
      if (i + 1 < L.size() || last_newline)
        t += '\n';
    }
    return t;
  }
};

// ---------------------------------------------------------------- drawing ---
inline std::string number(Src &s) {
  switch (s.w({4, 2, 1, 1})) {
  case 0:
    return fmt("%10.2f", s.dec(-300, 4000, 2));
  case 1:
    return fmt("%10.2f", s.dec(-3, 3, 2));
  case 2: // all ten columns used: nothing separates the fields
    return fmt("%10.2f", -s.dec(100000, 999999, 2));
  default:
    return fmt("%10.3f", s.dec(1000, 99999, 3));
  }
}
inline void freqs(Src &s, Ant &a) {
  int n = s.w({1, 6, 6, 3, 1}) ;
  if (n == 0)
    n = 1;
  for (int k = 0; k < n; k++) {
    Freq f;
    f.sys = a.sat ? a.sys : s.chr("GRECJS");
    f.band = s.i(1, 9);
    f.n = number(s);
    f.e = number(s);
    f.u = number(s);
    f.rms = s.p(1, 6);
    a.fr.push_back(f);
  }
  a.sinex = s.flip();
  a.comments = s.w({5, 1, 1, 1});
  if (a.comments == 3)
    a.comments = s.w({2, 1}) ? s.i(3, 60) : 3;
  a.untilfirst = s.p(1, 8);
  a.commentsfirst = s.p(1, 6);
  a.ncol = s.w({3, 3, 1}) == 2 ? s.i(20, 60) : s.i(4, 19);
  a.dazi = s.p(1, 5) ? 30 : 0;
  if (s.p(1, 8)) {
    a.endrms = true;
    for (auto &f : a.fr)
      f.rms = false;
  }
}
inline const std::vector<std::string> &models() {
  static const std::vector<std::string> m = {
      "TRM59800.00     SCIS", "TRM59800.00     NONE", "TRM59800.80     SCIS",
      "TRM59800.0      NONE", "LEIAR25.R4      LEIT", "LEIAR25.R4      LEIM",
      "LEIAR25         LEIT", "AOAD/M_T        NONE", "JAVRINGANT_DM   JVDM",
      "AOAD/M_TA_NGS   NONE", "A               NONE"};
  return m;
}
inline const std::vector<std::string> &serials() {
  static const std::vector<std::string> m = {
      "", "1", "12", "2", "5", "1440911917", "14409119170000000000", "14409119170000000001",
      "CR6200313801", "CR620031380", "               12345", "     7", "           700000007", "                  42"};
  return m;
}
inline Ant receiver(Src &s, const std::string &name, const std::string &serial) {
  Ant a;
  a.name = name;
  a.serial = serial;
  freqs(s, a);
  if (s.p(1, 8)) { // (some files give validity for receivers too)
    a.from = true;
    a.f = Ep{51000, 0};
  }
  return a;
}
inline Ant satellite(Src &s, char sys, int prn) {
  static const std::vector<std::string> types = {"BLOCK IIA", "BLOCK IIR-M", "GLONASS-K1",
                                                 "GALILEO-2", "BEIDOU-2G", "BLOCK III"};
  Ant a;
  a.sat = true;
  a.type = pad(s.pick(types), 20);
  a.sys = sys;
  a.prn = prn;
  if (s.p(2, 3))
    a.svn = s.i(0, 999);
  if (s.p(2, 3))
    a.cospar = fmt("%04d-%03d%c", int(s.i(1978, 2021)), int(s.i(1, 120)), s.chr("ABCDEF"));
  freqs(s, a);
  return a;
}
inline Ep anyep(Src &s) {
  Ep e;
  e.mjd = s.i(48000, 59500);
  e.sod = s.w({2, 1, 2}) == 0 ? 0 : s.i(0, 86399);
  return e;
}
/// blocks for one satellite: disjoint validity intervals, the last maybe open
inline void intervals(Src &s, std::vector<Ant> &out, char sys, int prn) {
  int n = s.w({3, 3, 2, 1}) + 1;
  Ep t = anyep(s);
  for (int k = 0; k < n; k++) {
    Ant a = satellite(s, sys, prn);
    a.from = true;
    a.f = t;
    bool open = k + 1 == n && s.p(2, 3);
    if (!open) {
      a.until = true;
      a.u = t.plus(s.w({3, 1}) ? s.i(0, 5) : s.i(60, 200 * 86400L));
      t = a.u.plus(s.w({2, 1}) ? s.i(2, 400 * 86400L) : 1);
    }
    out.push_back(a);
  }
}
inline void header(Src &s, File &f) {
  f.version = s.p(1, 4) ? "     1.3" : "     1.4";
  f.sys = s.chr("MGREJCS");
  int n = s.w({3, 2, 2}) == 2 ? s.i(3, 40) : s.u(3);
  for (int k = 0; k < n; k++)
    f.head.push_back(rec(s.p(1, 4) ? decoy(s, {"END OF HEADER", "START OF ANTENNA", "     1.3            G", "R"}, 60)
                                   : s.str("ABC igs 0123-", 0, 59), "COMMENT"));
}
inline File file(Src &s) {
  File f;
  header(s, f);
  // receivers: distinct (name, serial)
  std::set<std::string> seen;
  int n = s.i(0, 6);
  std::vector<std::string> pool;
  for (int k = s.i(1, 3); k > 0; k--)
    pool.push_back(s.pick(models()));
  for (int k = 0; k < n; k++) {
    std::string m = s.pick(pool), r = s.p(2, 5) ? "" : s.pick(serials());
    if (seen.insert(m + r).second)
      f.ants.push_back(receiver(s, m, r));
  }
  // satellites
  std::set<std::string> sseen;
  n = s.i(0, 3);
  std::vector<Ant> sats;
  for (int k = 0; k < n; k++) {
    char sys = s.chr("GRECJ");
    int prn = s.p(1, 3) ? s.i(10, 36) : s.i(1, 3);
    if (sseen.insert(fmt("%c%d", sys, prn)).second)
      intervals(s, sats, sys, prn);
  }
  if (s.p(1, 6)) { // "all representatives of the antenna type"
    Ant a = satellite(s, s.chr("GREC"), 1);
    a.anyprn = true;
    a.svn = -1;
    a.cospar = "";
    sats.push_back(a);
  }
  // satellites first (as in igs14.atx), last or mixed
  switch (s.w({2, 1, 2})) {
  case 0:
    f.ants.insert(f.ants.begin(), sats.begin(), sats.end());
    break;
  case 1:
    f.ants.insert(f.ants.end(), sats.begin(), sats.end());
    break;
  default:
    for (auto &a : sats)
      f.ants.insert(f.ants.begin() + s.u(f.ants.size()), a);
  }
  f.last_newline = !s.p(1, 4);
  return f;
}
/// a file with very long blocks (dense azimuth grids, many frequencies, RMS
/// values) or very many blocks
inline File long_file(Src &s) {
  File f;
  header(s, f);
  bool dense = s.flip();
  int n = dense ? s.i(2, 4) : s.i(50, 700);
  int ncol = s.i(4, 19), dazi = s.pick(std::vector<int>{5, 10, 30}), nfr = s.i(4, 25);
  bool rms = s.flip();
  Ep t = anyep(s);
  for (int k = 0; k < n; k++) {
    Ant a;
    if (k % 3 == 1) {
      a.sat = true;
      a.type = pad("BLOCK IIA", 20);
      a.sys = "GREC"[k / 3 % 4];
      a.prn = 1 + k / 12 % 36;
      a.svn = k;
      a.cospar = fmt("%04d-%03dA", 1980 + k % 40, k % 1000);
      a.from = a.until = true;
      a.f = t.plus(400L * 86400 * (k / 432));
      a.u = a.f.plus(300L * 86400);
    } else {
      a.name = models()[k % 5];
      a.serial = k < 5 ? "" : fmt("%d", 1000 + k);
    }
    a.ncol = ncol;
    a.dazi = dense ? dazi : 0;
    int m = dense ? nfr : 1 + k % 2;
    for (int j = 0; j < m; j++) {
      Freq x;
      x.sys = a.sat ? a.sys : "GREC"[j % 4];
      x.band = 1 + j % 8;
      x.n = fmt("%10.2f", k + j / 100.);
      x.e = fmt("%10.2f", -0.25 * j);
      x.u = fmt("%10.2f", 50 + k / 100. + j);
      x.rms = dense && rms;
      a.fr.push_back(x);
    }
    f.ants.push_back(a);
  }
  return f;
}
// ---------------------------------------------------------------- queries ---
struct RQuery {
  std::string name, serial; // "" = none
  bool must = false;
  ngpt::ReceiverAntenna ant() const {
    ngpt::ReceiverAntenna a(name.c_str());
    if (!serial.empty())
      a.set_serial_nr(serial.c_str());
    return a;
  }
};
/// expected status; which = index of the block whose offsets are to be returned
inline int expect(const File &f, const RQuery &q, int &which) {
  which = -1;
  int model = -1;
  for (size_t k = 0; k < f.ants.size(); k++) {
    const Ant &a = f.ants[k];
    if (a.sat || a.name != q.name)
      continue;
    if (!q.serial.empty() && a.serial == q.serial) {
      which = k;
      return 0;
    }
    if (a.serial.empty())
      model = k;
  }
  if (model < 0)
    return 1;
  if (q.must)
    return 10;
  which = model;
  return 0;
}
struct SQuery {
  char sys = 'G';
  int prn = 1;
  Ep t;
};
inline int expect(const File &f, const SQuery &q) {
  for (size_t k = 0; k < f.ants.size(); k++) {
    const Ant &a = f.ants[k];
    if (a.sat && !a.anyprn && a.sys == q.sys && a.prn == q.prn && a.from && a.f <= q.t &&
        (!a.until || q.t <= a.u))
      return k;
  }
  return -1;
}
inline RQuery rquery(Src &s, const File &f) {
  RQuery q;
  std::vector<int> r;
  for (size_t k = 0; k < f.ants.size(); k++)
    if (!f.ants[k].sat)
      r.push_back(k);
  if (!r.empty() && s.p(4, 5)) {
    const Ant &a = f.ants[s.pick(r)];
    q.name = a.name;
    switch (s.w({2, 1, 1})) {
    case 0:
      q.serial = a.serial;
      break;
    case 1:
      break;
    default:
      q.serial = s.pick(serials());
    }
    if (s.p(1, 8)) // nearly the same radome
      q.name[s.i(16, 19)] = s.chr("ABCD");
  } else {
    q.name = s.pick(models());
    q.serial = s.pick(serials());
  }
  q.must = s.p(1, 3);
  return q;
}
inline SQuery squery(Src &s, const File &f) {
  SQuery q;
  std::vector<int> r;
  for (size_t k = 0; k < f.ants.size(); k++)
    if (f.ants[k].sat && !f.ants[k].anyprn)
      r.push_back(k);
  if (!r.empty() && s.p(7, 8)) {
    const Ant &a = f.ants[s.pick(r)];
    q.sys = a.sys;
    q.prn = a.prn;
    const Ep &e = a.until && s.flip() ? a.u : a.f;
    switch (s.w({3, 2, 2})) {
    case 0:
      q.t = e.plus(s.iz(-1, 1));
      break;
    case 1:
      q.t = e.plus(s.iz(-86400 * 300L, 86400 * 300L));
      break;
    default:
      q.t = anyep(s);
    }
    if (s.p(1, 10)) {
      if (s.flip())
        q.prn = s.i(1, 36);
      else
        q.sys = s.chr("GRECJ");
    }
  } else {
    q.sys = s.chr("GRECJS");
    q.prn = s.i(1, 36);
    q.t = anyep(s);
  }
  return q;
}
/// the offsets of a list, as text: "G1 n e u;..."
inline std::string listed(ngpt::AntennaPcoList &l) {
  std::string r;
  for (auto &p : l.__vecref__()) {
    std::ostringstream o;
    o.precision(17);
    p.dummy_print(o);
    std::string t = o.str();
    double v[3] = {0, 0, 0};
    size_t b = t.find('[');
    size_t c = t.find("] ");
    CHECK(b == 1 && c != std::string::npos && b + 2 < t.size() &&
              sscanf(t.c_str() + c + 2, "%lf, %lf, %lf", v, v + 1, v + 2) == 3,
          "pco-print", "unexpected text \"%s\"", t.c_str());
    r += fmt("%c%c %.17g %.17g %.17g;", t[0], t[b + 2], v[0], v[1], v[2]);
  }
  return r;
}
inline std::string expected(const Ant &a) {
  std::string r;
  for (auto &f : a.fr)
    r += fmt("%c%d %.17g %.17g %.17g;", f.sys, f.band, strtod(f.n.c_str(), nullptr),
             strtod(f.e.c_str(), nullptr), strtod(f.u.c_str(), nullptr));
  return r;
}
inline std::string sat_text(const Ant &a) {
  return fmt("%c%d svn %d type [%s] cospar [%s]", a.sys, a.prn, a.svn, a.type.c_str(),
             a.cospar.c_str());
}
inline std::string sat_text(ngpt::Satellite &v, const std::string &type) {
  return fmt("%c%d svn %d type [%s] cospar [%s]", ngpt::satsys_to_char(v.system()), v.prn(),
             v.svn(), v.antenna().is_same(type.c_str()) ? type.c_str() : "different", v.cospar());
}
inline std::string brief(const File &f) {
  std::string r = fmt("ANTEX %s %c %c, %zu header lines\n", f.version.c_str(), f.sys, f.pcv,
                      f.head.size());
  for (auto &a : f.ants) {
    r += "  " + a.typeline();
    if (a.from)
      r += " from " + a.f.txt("0");
    if (a.until)
      r += " until " + a.u.txt("0");
    r += " : " + expected(a) + "\n";
  }
  return r;
}
} // namespace atx
