// Bernese SATELLIT files: a model, a writer and a random generator
#pragma once
#include "bern_utils.hpp"
#include "pbt.hpp"
#include <memory>

namespace bern {
using namespace pbt;
using ngpt::BernSatellit;
typedef ngpt::datetime<ngpt::seconds> Time;

struct When {
  long mjd = 50000, sod = 0;
  bool operator<(const When &o) const { return mjd != o.mjd ? mjd < o.mjd : sod < o.sod; }
  Time time() const { return Time(ngpt::modified_julian_day(mjd), ngpt::seconds(sod)); }
  When plus(long s) const {
    long t = mjd * 86400 + sod + s;
    return When{t / 86400, t % 86400};
  }
  std::string txt() const {
    auto y = ngpt::modified_julian_day(mjd).to_ymd();
    return fmt("%4d %02d %02d %02ld %02ld %02ld", y.__year.as_underlying_type(), y.__month.as_underlying_type(),
               y.__dom.as_underlying_type(), sod / 3600, sod / 60 % 60, sod % 60);
  }
};
struct Rec {
  int prn = 101, svn = 714, nr = 1, frq = 0;
  bool has_svn = true, open = true;
  std::string type = "MW", name = "GLONASS", signals;
  When from, to;
  std::string line() const {
    std::string l = fmt("%3d  %-4s  %-17s", prn, type.c_str(), name.c_str());
    l += has_svn ? fmt("%03d  %6d  ", svn, nr) : std::string(13, ' ');
    l += from.txt() + "  " + (open ? std::string(19, ' ') : to.txt());
    l += fmt("  %9.4f %9.4f %9.4f", 0.0, 0.0, 1.8);
    l.resize(117, ' ');
    l += "0.0     0.0     1.0        0.0     1.0     0.0";
    l.resize(171, ' ');
    l += name;
    l.resize(193, ' ');
    l += fmt("%4d  ", frq) + signals;
    return l;
  }
};
struct File {
  std::vector<std::string> part1;
  std::vector<Rec> r;
  int end = 0; // 0: blank line and part 3, 1: part 3 at once, 2: nothing, 3: nothing, no newline
  std::vector<Rec> part3; // lines behind PART 3 that look like records
  std::string text() const {
    std::string t = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2      15-JAN-20 10:00\n"
                    "--------------------------------------------------------------------------------\n\n";
    for (auto &l : part1)
      t += l + "\n";
    t += "\nPART 2: ON-BOARD SENSORS\n------------------------\n";
    t += "                                              START TIME           END TIME                 SENSOR "
         "OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)\n";
    t += "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY  "
         "      DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL "
         "LIST___________------>\n\n";
    for (size_t k = 0; k < r.size(); k++) {
      t += r[k].line();
      if (end != 3 || k + 1 < r.size())
        t += "\n";
    }
    if (end == 0)
      t += "\n";
    if (end < 2) {
      t += "PART 3: AIR DRAG\n----------------\n\n";
      for (auto &x : part3)
        t += x.line() + "\n";
    }
    return t;
  }
};
inline When when(Src &s) {
  When w;
  w.mjd = s.i(45000, 60000);
  w.sod = s.flip() ? 0 : s.i(0, 86399);
  return w;
}
inline Rec record(Src &s) {
  Rec r;
  r.prn = s.flip() ? s.i(101, 130) : s.i(1, 999);
  r.svn = s.p(2, 3) ? s.i(701, 709) : s.i(1, 999);
  r.nr = s.i(0, 999);
  r.frq = s.i(-7, 13);
  r.type = s.p(1, 5) ? s.pick(std::vector<std::string>{"SLR", "M", "MX", "XW", " MW", "LEO", "mw", "OPT"}) : "MW";
  r.has_svn = r.type == "MW" || s.flip();
  r.name = s.pick(std::vector<std::string>{"GLONASS", "GLONASS-M", "GLONASS-K1", "BLOCK IIF", "GALILEO-2", "BEIDOU-3M CAST", "SEVENTEEN LETTERS"});
  r.from = when(s);
  r.open = s.p(1, 3);
  r.to = r.from.plus(s.flip() ? s.i(1, 100000) : s.i(1, 300000000L));
  if (s.p(1, 3))
    r.signals = "L1C L1P L2C L2P";
  if (s.p(1, 8))
    for (int k = s.p(1, 3) ? s.i(30, 300) : s.i(10, 30); k; k--)
      r.signals += " C1P";
  return r;
}
inline File file(Src &s, int most) {
  File f;
  f.part1 = {"PART 1: PHYSICAL SATELLITE PARAMETERS", "-------------------------------------"};
  int n = s.p(1, 12) ? s.i(6, 900) : s.i(0, 5);
  for (int k = 0; k < n; k++)
    f.part1.push_back(fmt("%3d   1  %s", s.i(1, 200), s.str("ABCMW PART2:0123 ", 0, 100).c_str()));
  if (s.p(1, 6))
    f.part1.push_back(record(s).line().substr(0, 199));
  n = s.i(0, most);
  for (int k = 0; k < n; k++) {
    Rec r = record(s);
    // the same vehicle, over the following span, with another number
    if (k && s.p(1, 3)) {
      r = f.r[s.u(k - 1)];
      r.open = false;
      if (!s.p(1, 3)) {
        r.from = r.to;
        r.to = r.from.plus(s.i(1, 100000000L));
      }
      r.frq = s.i(-7, 13);
      r.prn = s.i(101, 130);
    }
    f.r.push_back(r);
  }
  f.end = s.w({4, 1, 1, 1});
  n = s.i(0, 2);
  for (int k = 0; k < n; k++)
    f.part3.push_back(record(s));
  return f;
}
struct Query {
  int svn;
  When t;
};
inline Query query(Src &s, const File &f) {
  Query q;
  q.svn = s.i(1, 999);
  q.t = when(s);
  std::vector<Rec> all = f.r;
  all.insert(all.end(), f.part3.begin(), f.part3.end());
  if (!all.empty() && !s.p(1, 8)) {
    const Rec &r = s.pick(all);
    q.svn = r.svn;
    switch (s.w({3, 2, 2, 2, 2, 2, 1})) {
    case 0: {
      long span = (r.to.mjd - r.from.mjd) * 86400 + r.to.sod - r.from.sod;
      q.t = r.from.plus(s.i(0, span - 1));
      break;
    }
    case 1:
      q.t = r.from;
      break;
    case 2:
      q.t = r.to;
      break;
    case 3:
      q.t = r.to.plus(-1);
      break;
    case 4:
      q.t = r.from.plus(-1);
      break;
    case 5:
      q.t = r.to.plus(s.i(1, 1000000));
    }
  }
  return q;
}
/// what the answer has to be
inline const Rec *find(const File &f, const Query &q) {
  for (auto &r : f.r)
    if (r.type == "MW" && r.svn == q.svn && !(q.t < r.from) && (r.open || q.t < r.to))
      return &r;
  return nullptr;
}
inline void ask(BernSatellit &b, const File &f, const Query &q) {
  const Rec *r = find(f, q);
  errno = q.svn % 3 ? 0 : ERANGE; // of no concern here
  int frq = 4711, prn = 4711, st = b.get_frequency_channel(q.svn, q.t.time(), frq, prn);
  if (!r) {
    CHECK(st == -1, "found", "vehicle %d at %s: status %d, channel %d, number %d, but there is none", q.svn,
          q.t.txt().c_str(), st, frq, prn);
    return;
  }
  CHECK(st == 0, "lost", "vehicle %d at %s: status %d", q.svn, q.t.txt().c_str(), st);
  CHECK(frq == r->frq, "channel", "vehicle %d at %s: channel %d instead of %d", q.svn, q.t.txt().c_str(), frq, r->frq);
  CHECK(prn == r->prn, "number", "vehicle %d at %s: number %d instead of %d", q.svn, q.t.txt().c_str(), prn, r->prn);
}
} // namespace bern
