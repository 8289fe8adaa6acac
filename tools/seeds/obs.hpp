// observation RINEX files and reading them
#pragma once
#include "obsrnx.hpp"
#include <map>
struct Sys {
  char c;
  std::vector<std::string> codes;
};
inline std::string obs_head(const std::vector<Sys> &s, const std::string &more = std::string()) {
  std::string t = col("     3.04           OBSERVATION DATA    M: Mixed", "RINEX VERSION / TYPE") + more;
  for (auto &q : s)
    for (size_t i = 0; i < q.codes.size(); i += 13) {
      std::string l = i ? "      " : fmt("%c  %3d", q.c, (int)q.codes.size());
      for (size_t k = i; k < q.codes.size() && k < i + 13; k++)
        l += " " + q.codes[k];
      t += col(l, "SYS / # / OBS TYPES");
    }
  return t + col("", "END OF HEADER");
}
inline std::string obs_epoch(const char *date, int n, int flag = 0) { return fmt("> %s  %d%3d\n", date, flag, n); }
/// a satellite line; values of 1e99 are blank
inline std::string obs_sat(char s, int prn, const std::vector<double> &v) {
  std::string t = fmt("%c%02d", s, prn);
  for (double d : v)
    t += d > 1e98 ? std::string(16, ' ') : fmt("%14.3f  ", d);
  return t + "\n";
}
typedef std::map<ngpt::SATELLITE_SYSTEM, std::vector<ngpt::GnssObservable>> Wanted;
struct Reader {
  ngpt::ObservationRnx r;
  Wanted w;
  decltype(r.set_read_map(w)) m;
  decltype(r.initialize_epoch_vector(m)) v;
  int n = 0;
  ngpt::modified_julian_day d;
  double s = 0;
  Reader(const char *f, Wanted q, bool skip = false) : r(f), w(q), m(r.set_read_map(w, skip)), v(r.initialize_epoch_vector(m)) {}
  int next() { return r.read_next_epoch(m, v, n, d, s); }
};
inline ngpt::GnssObservable raw(ngpt::SATELLITE_SYSTEM s, const char *code, double k = 1) {
  return ngpt::GnssObservable(s, ngpt::ObservationCode(code), k);
}
