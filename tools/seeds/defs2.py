S("C19-antenna-serial", "C19",
  [("src/obsrnx.cpp", "if (!ngpt::string_is_empty(line, 20))\n        ant.set_serial_nr(line);", "if (!ngpt::string_is_empty(line, 5))\n        ant.set_serial_nr(line);")],
  "an antenna serial number that does not start in the first five columns (right justified)",
  "the serial number of the antenna is lost",
  OBS, r'''
#include "obs.hpp"
int main() {
  for (const char *sn : {"12345678", "      12345678", "            12345678"}) {
    std::string h = fmt("%-20s", sn) + fmt("%-20s", "ASH701945C_M    SNOW");
    ngpt::ObservationRnx r(file("o.rnx", obs_head({{'G', {"C1C"}}}, col(h, "ANT # / TYPE"))));
    std::ostringstream o;
    auto *b = std::cout.rdbuf(o.rdbuf());
    r.print_members();
    std::cout.rdbuf(b);
    EXPECT(o.str().find("Antenna Sn   :1") != std::string::npos);
  }
}''', extra=["obs.hpp"])

S("C19-many-header-lines", "C19",
  [("src/obsrnx.cpp", "constexpr int MAX_HEADER_LINES{1000};", "constexpr int MAX_HEADER_LINES{100};")],
  "a header of more than a hundred lines (spliced files, or many phase shift records)",
  "the file is refused",
  OBS, r'''
#include "obs.hpp"
int main() {
  for (int n : {1, 90, 150, 400}) {
    ngpt::ObservationRnx r(file("o.rnx", obs_head({{'G', {"C1C"}}}, rep(col("spliced", "COMMENT"), n))));
    EXPECT(r.max_obs() == 1);
  }
}''', extra=["obs.hpp"])

S("C19-max-obs-last", "C19",
  [("src/obsrnx.cpp", """  for (auto const &[key, val] : __obstmap)
    if ((sz = val.size()) > max)
      max = sz;
#else""", """  for (auto const &[key, val] : __obstmap)
    if ((sz = val.size()) != max)
      max = sz;
#else""")],
  "a file where the system with the most observables is not the last one",
  "the maximum is that of the last system, and the line buffer is too short for the others",
  OBS, r'''
#include "obs.hpp"
int main() {
  std::vector<std::string> big(13, "C1C"), small(2, "C1C");
  EXPECT(ngpt::ObservationRnx(file("o.rnx", obs_head({{'G', small}, {'E', big}}))).max_obs() == 13);
  EXPECT(ngpt::ObservationRnx(file("o.rnx", obs_head({{'E', big}, {'G', small}}))).max_obs() == 13);
  EXPECT(ngpt::ObservationRnx(file("o.rnx", obs_head({{'G', big}, {'E', small}}))).max_obs() == 13);
}''', extra=["obs.hpp"])

S("C20-negative-values", "C20",
  [("src/obsrnx.cpp", "if (raw_obs.__val != RNXOBS_MISSING_VAL) {", "if (raw_obs.__val > RNXOBS_MISSING_VAL) {")],
  "a Doppler (or phase) below -999.99",
  "it is reported as missing",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  Reader r(file("o.rnx", obs_head({{'G', {"C1C", "D1C"}}}) + obs_epoch("2019 12 17 00 00  0.0000000", 2) +
                obs_sat('G', 1, {2.1e7, 1234.5}) + obs_sat('G', 2, {2.2e7, -3456.125})),
           {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "D1C")}}});
  EXPECT(r.next() == 0 && r.n == 2);
  EXPECT(r.v[0].second[0] == 1234.5);
  EXPECT(r.v[1].second[0] == -3456.125);
}''', extra=["obs.hpp"])

S("C20-many-satellites", "C20",
  [("src/obsrnx.cpp", "constexpr int MAX_SAT_IN_EPOCH{80};", "constexpr int MAX_SAT_IN_EPOCH{64};")],
  "an epoch of more than 64 satellites",
  "the epoch cannot be read",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  for (int n : {2, 64, 70, 80}) {
    std::string t = obs_head({{'G', {"C1C"}}, {'E', {"C1C"}}}) + obs_epoch("2019 12 17 00 00  0.0000000", n);
    for (int i = 0; i < n; i++)
      t += obs_sat(i % 2 ? 'E' : 'G', i / 2 + 1, {2e7 + i});
    Reader r(file("o.rnx", t), {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}, {SATELLITE_SYSTEM::galileo, {raw(SATELLITE_SYSTEM::galileo, "C1C")}}});
    EXPECT(r.next() == 0 && r.n == n);
    EXPECT(r.v[n - 1].second[0] == 2e7 + n - 1);
    EXPECT(r.next() < 0);
  }
}''', extra=["obs.hpp"])

S("C20-zero-coefficient", "C20",
  [("src/obsrnx.cpp", "obsval += raw_obs.__val * pr.second;", "obsval = obsval * (pr.second != 0e0) + raw_obs.__val * pr.second;")],
  "a combination one of whose later parts has the coefficient zero",
  "the parts before the one with the coefficient zero are lost",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  auto g = SATELLITE_SYSTEM::gps;
  GnssObservable o(g, ObservationCode("C1C"), 2.5), p(o);
  o.add(g, ObservationCode("C2W"), -1.5);
  p.add(g, ObservationCode("C2W"), 0.0);
  Reader r(file("o.rnx", obs_head({{'G', {"C1C", "C2W"}}}) + obs_epoch("2019 12 17 00 00  0.0000000", 1) + obs_sat('G', 1, {2.0e7, 1.0e7})),
           {{g, {o, p}}});
  EXPECT(r.next() == 0 && r.n == 1);
  EXPECT(r.v[0].second[0] == 3.5e7);
  EXPECT(r.v[0].second[1] == 5e7);
}''', extra=["obs.hpp"])

S("C21-short-epoch-line", "C21",
  [("src/obsrnx.cpp", "if (*cline != '>' || lnlen < 35) {", "if (*cline != '>' || lnlen < 36) {")],
  "an epoch line without trailing blanks and receiver clock offset, of exactly 35 characters",
  "the epoch is refused",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  for (const char *tail : {"\n", " \n", "       0.000000123456\n"}) {
    Reader r(file("o.rnx", obs_head({{'G', {"C1C"}}}) + "> 2019 12 17 01 02  3.5000000  0  1" + tail + obs_sat('G', 1, {2.0e7})),
             {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}});
    EXPECT(r.next() == 0 && r.n == 1 && r.s == 3723.5);
    EXPECT(r.next() < 0);
  }
}''', extra=["obs.hpp"])

S("C21-not-collected-count", "C21",
  [("src/obsrnx.cpp", """      ++satscollected;
    }
    ++sat_it;""", """      ++satscollected;
      ++sat_it;
    } else if (s != SATELLITE_SYSTEM::sbas) {
      ++sat_it;
    }""")],
  "an epoch with an SBAS satellite, when no observables of SBAS are collected",
  "the lines of SBAS satellites are not counted, and one too many line is read",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  std::string t = obs_head({{'G', {"C1C"}}, {'S', {"C1C"}}, {'R', {"C1C"}}});
  for (int i = 0; i < 3; i++)
    t += obs_epoch(fmt("2019 12 17 00 %02d  0.0000000", i).c_str(), 3) + obs_sat('G', 1, {2.0e7}) + obs_sat('R', 4, {2.2e7}) + obs_sat(i ? 'S' : 'R', 5, {2e7});
  Reader r(file("o.rnx", t), {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}});
  for (int i = 0; i < 3; i++)
    EXPECT(r.next() == 0 && r.n == 1 && r.s == i * 60);
  EXPECT(r.next() < 0);
}''', extra=["obs.hpp"])

S("C22-many-comments", "C22",
  [("src/sp3c.cpp", "constexpr int MAX_HEADER_LINES{1000};", "constexpr int MAX_HEADER_LINES{50};")],
  "a header (of the version d) with many satellite or comment lines",
  "the file is refused",
  SP3, r'''
#include "sp3.hpp"
int main() {
  for (int n : {4, 30, 60, 300})
    EXPECT(ngpt::Sp3c(file("s.sp3", sp3_head(1, n) + "EOF\n")).num_sats() == 1);
}''', extra=["sp3.hpp"])

S("C22-hundred-satellites", "C22",
  [("src/sp3c.cpp", "if (version__ != 'c' && version__ != 'd')", "if (version__ != 'c' && version__ != 'D')")],
  "a file of the version d (more than 85 satellites)",
  "the file is refused",
  SP3, r'''
#include "sp3.hpp"
int main() {
  for (char v : {'c', 'd'}) {
    std::string t = sp3_head(17) + "EOF\n";
    t[1] = v;
    EXPECT(ngpt::Sp3c(file("s.sp3", t)).num_sats() == 17);
  }
}''', extra=["sp3.hpp"])

S("C23-correlation-records", "C23",
  [("src/sp3c.cpp", 'if (!std::strncmp(line, "EOF", 3)) { /* EOF */', "if (*line == 'E') { /* EOF */")],
  "a file with the optional correlation records (EP, EV)",
  "the first one is taken for the end of the file, what follows is lost",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  for (const char *e : {"", "EP  55   55   55      222  1234567 -1234567  5999999      -30       21 -1230000\n"}) {
    std::string t = sp3_head(2);
    for (int i = 0; i < 3; i++)
      t += sp3_epoch(i * 15) + sp3_pos('G', 1, 100, 200, 300, 1) + e + sp3_pos('G', 2, 101, 201, 301, 2) + e;
    Sp3c s(file("s.sp3", t + "EOF\n"));
    auto v = s.allocate_epoch_vector();
    datetime<microseconds> d;
    int n = 0;
    for (int i = 0; i < 3; i++) {
      EXPECT(s.get_next_epoch(d, v, n) == (i < 2 ? 0 : -1));
      EXPECT(n == 2 && v[1].prn_ == 2 && v[1].vals_[0] == 101e3);
    }
  }
}''', extra=["sp3.hpp"])

S("C23-rewind-position", "C23",
  [("src/sp3c.cpp", """  if (pos == pos_type(-1)) {""", """  if (pos == pos_type(-1) || pos < __end_of_head) {""")],
  "setting the stream to a position before the end of the header",
  "the given position is replaced by that of the first epoch",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  std::string t = sp3_head(1);
  Sp3c s(file("s.sp3", t + sp3_epoch(0) + sp3_pos('G', 1, 100, 200, 300, 1) + sp3_epoch(15) + sp3_pos('G', 1, 101, 201, 301, 2) + "EOF\n"));
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> d;
  int n = 0;
  EXPECT(s.get_next_epoch(d, v, n) == 0);
  s.rewind();
  EXPECT(s.get_next_epoch(d, v, n) == 0 && v[0].vals_[0] == 100e3);
  s.rewind(0);
  EXPECT(s.get_next_epoch(d, v, n) > 0);
}''', extra=["sp3.hpp"])

S("C24-flags-stay", "C24",
  [("src/sp3c.cpp", "  flag.reset();\n\n  if (*line != 'P')", "  if (*line != 'P')")],
  "a record with a flag that is followed by one without",
  "the flags of the records of an epoch pile up",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  Sp3c s(file("s.sp3", sp3_head(2) + sp3_epoch(0) + sp3_pos('G', 1, 100, 200, 300, 1, "EPMP") + sp3_pos('G', 2, 100, 200, 300, 1) + "EOF\n"));
  auto v = s.allocate_epoch_vector();
  datetime<microseconds> d;
  int n = 0;
  EXPECT(s.get_next_epoch(d, v, n) == -1 && n == 2);
  for (auto e : {Sp3Event::clock_event, Sp3Event::clock_prediction, Sp3Event::maneuver, Sp3Event::orbit_prediction}) {
    EXPECT(v[0].flag_.is_set(e));
    EXPECT(!v[1].flag_.is_set(e));
  }
  EXPECT(!v[1].flag_.is_set(Sp3Event::bad_abscent_clock) && !v[1].flag_.is_set(Sp3Event::bad_abscent_position));
}''', extra=["sp3.hpp"])

S("C24-clear-toggles", "C24",
  [("src/sp3c.hpp", "bits_ &= (~(1 << static_cast<unsigned char>(e)));", "bits_ ^= (1 << static_cast<unsigned char>(e));")],
  "clearing a flag that is not set",
  "it is set",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  Sp3Flag f;
  f.set(Sp3Event::maneuver);
  f.clear(Sp3Event::maneuver);
  EXPECT(!f.is_set(Sp3Event::maneuver));
  f.clear(Sp3Event::maneuver);
  EXPECT(!f.is_set(Sp3Event::maneuver));
}''', extra=["sp3.hpp"])

S("C24-clock-999999", "C24",
  [("src/sp3c.cpp", "if (state[3] >= SP3_MISSING_CLK_VALUE)", "if (state[3] > SP3_MISSING_CLK_VALUE)")],
  "an absent clock written as 999999.000000",
  "the clock is not flagged as absent",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  for (double c : {999999.0, 999999.999999}) {
    Sp3c s(file("s.sp3", sp3_head(1) + sp3_epoch(0) + sp3_pos('G', 1, 100, 200, 300, c) + "EOF\n"));
    auto v = s.allocate_epoch_vector();
    datetime<microseconds> d;
    int n = 0;
    EXPECT(s.get_next_epoch(d, v, n) == -1 && n == 1);
    EXPECT(v[0].flag_.is_set(Sp3Event::bad_abscent_clock));
  }
}''', extra=["sp3.hpp"])

S("C25-stop-inclusive", "C25",
  [("src/bern_utils.cpp", "if (eph >= start && eph < stop) {", "if (eph >= start && eph <= stop) {")],
  "an epoch that is exactly the end of a record (and the start of the next one)",
  "the channel and the PRN of the record that ended are given",
  BERN, r'''
#include "bern.hpp"
int main() {
  using namespace ngpt;
  BernSatellit b(file("S.BSW", bern_head() + bern_rec(101, "MW", "701", "2001 12 01 00 00 00", "2005 01 01 00 00 00", 3) + bern_rec(108, "MW", "701", "2005 01 01 00 00 00", "", -5) + "\n\nPART 3: ATTITUDE\n"));
  auto at = [](int y, int h) { return datetime<seconds>(year(y), month(1), day_of_month(1), hours(h), minutes(0), seconds(0)); };
  int f = 0, p = 0;
  EXPECT(b.get_frequency_channel(701, at(2004, 0), f, p) == 0 && f == 3 && p == 101);
  EXPECT(b.get_frequency_channel(701, at(2005, 1), f, p) == 0 && f == -5 && p == 108);
  EXPECT(b.get_frequency_channel(701, at(2005, 0), f, p) == 0 && f == -5 && p == 108);
}''', extra=["bern.hpp"])

S("C25-many-records", "C25",
  [("src/bern_utils.cpp", "int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {\n  const int max_lines = 1000;", "int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {\n  const int max_lines = 200;")],
  "a satellite that is listed after more than 200 records of other ones",
  "it is not found",
  BERN, r'''
#include "bern.hpp"
int main() {
  using namespace ngpt;
  for (int n : {3, 250, 700}) {
    BernSatellit b(file("S.BSW", bern_head() + rep(bern_rec(1, "MW", "001", "2001 12 01 00 00 00", "2005 01 01 00 00 00", 0), n) + bern_rec(108, "MW", "701", "2005 01 01 00 00 00", "", -5) + "\n\nPART 3: ATTITUDE\n"));
    int f = 0, p = 0;
    EXPECT(b.get_frequency_channel(701, datetime<seconds>(year(2019), month(1), day_of_month(1)), f, p) == 0 && f == -5 && p == 108);
  }
}''', extra=["bern.hpp"])

KDEMO = r'''
#include "gauss_newton.hpp"
#include "ekf.hpp"
#include <unistd.h>
static std::string shown(ngpt::Kalman<5> &k) {
  fflush(stdout);
  int o = dup(1);
  freopen("state.txt", "w", stdout);
  k.print_state();
  fflush(stdout);
  dup2(o, 1);
  close(o);
  std::ifstream f("state.txt");
  std::string s;
  std::getline(f, s);
  return s;
}
int main() {
  for (double coef : {1.0, 0.5}) {
    ngpt::Kalman<5> k({4595220., 2039434., 3912625., 10., 1.}, coef);
    Ekf e({4595220., 2039434., 3912625., 10., 1.}, coef);
    const double dts[] = {1, 30, 15, 60, 1};
    double t = 0;
    for (double dt : dts) {
      t += dt;
      auto sv = sats(t);
      std::vector<double> o, w;
      for (size_t i = 0; i < sv.size(); i++) {
        double d = std::sqrt(std::pow(sv[i][0] - 4595210., 2) + std::pow(sv[i][1] - 2039440., 2) + std::pow(sv[i][2] - 3912630., 2));
        o.push_back(d + 20 + t * .5 - sv[i][3] * 299792458. * coef + (i % 3) * .7);
        w.push_back(i * 10.);
      }
      k.update(o.size(), &o, &sv, dt, &w);
      e.update(o, sv, dt, w);
      std::string s = shown(k);
      for (char &c : s)
        if (c == '/' || (c == '+' ) )
          c = ' ';
      for (size_t p; (p = s.find(" -")) != std::string::npos && s[p + 2] == ' ';)
        s[p + 1] = ' ';
      double g[10];
      char *b = &s[0];
      for (int i = 0; i < 5; i++) {
        g[2 * i] = strtod(b, &b);
        while (*b == ' ' || (*b == '-' && b[1] == ' ')) b++;
        g[2 * i + 1] = strtod(b, &b);
      }
      for (int i = 0; i < 5; i++) {
        EXPECT(std::abs(g[2 * i] - e.x(i)) < 5e-3);
        EXPECT(std::abs(g[2 * i + 1] - std::sqrt(e.P(i, i))) < 5e-3);
      }
    }
  }
}'''

S("C26-first-interval", "C26",
  [("src/gauss_newton.hpp", "    F_.coeffRef(3, 4) = dt;\n    // std::cout", "    if (!update_idx)\n      F_.coeffRef(3, 4) = dt;\n    // std::cout")],
  "updates at varying intervals",
  "the state is propagated over the interval of the first update in all later ones",
  [], KDEMO, extra=["ekf.hpp"])

S("C26-clock-coefficient", "C26",
  [("src/gauss_newton.hpp", "p(i) = (*obs_)[i] + (*sv_)[i][3] * 299792458e0 * coef;", "p(i) = (*obs_)[i] + (*sv_)[i][3] * 299792458e0;")],
  "a filter of observables that are scaled (coefficient other than one) and satellites with clock corrections",
  "the satellite clocks are not scaled",
  [], KDEMO, extra=["ekf.hpp"])

S("C27-truncated-hangs", "C27",
  [("src/antex.cpp", 'while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));', 'while (std::strncmp(gline + 60, "END OF FREQUENCY", 16));')],
  "a file that is cut within the grid of the antenna asked for",
  "the search for the end of the block never ends",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string t = atx_head() + atx_block("TRM57971.00     NONE4711", "", {{"G01", 1, 2, 3}, {"G02", 4, 5, 6}}, 3);
  for (size_t cut : {t.size(), t.find("   NOAZI") + 20}) {
    Antex a(file("a.atx", t.substr(0, cut)));
    AntennaPcoList l;
    ReceiverAntenna r("TRM57971.00     NONE");
    r.set_serial_nr("4711");
    int s = a.get_antenna_pco(r, l);
    EXPECT(s == 0 || cut < t.size());
    EXPECT(!(s == 0 && cut < t.size()));
  }
}''')

S("C27-number-of-frequencies", "C27",
  [("src/antex.cpp", "      num_of_freqs = whole_int(std::string(hline, 6));\n    } catch (std::exception &e) {", "      num_of_freqs = whole_int(std::string(hline, 6));\n    } catch (std::out_of_range &e) {")],
  "a number of frequencies that is damaged (not a number)",
  "an exception leaves a function that must not throw: the program is terminated",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string t = atx_head() + atx_block("TRM57971.00     NONE", "", {{"G01", 1, 2, 3}});
  for (int d : {0, 1}) {
    if (d)
      t.replace(t.find("# OF FREQUENCIES") - 60, 6, "     x");
    Antex a(file("a.atx", t));
    AntennaPcoList l;
    int s = a.get_antenna_pco(ReceiverAntenna("TRM57971.00     NONE"), l);
    EXPECT((s == 0) == !d);
  }
}''')

S("C28-skip-unknown-system", "C28",
  [("src/navrnx.cpp", "    sys = ngpt::char_to_satsys(s); // this may throw\n  } catch (std::exception &) {", "    sys = ngpt::char_to_satsys(s); // this may throw\n  } catch (std::logic_error &) {")],
  "skipping a message that starts with a damaged character",
  "an exception leaves a function that must not throw: the program is terminated",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  for (char c : {'R', '?'}) {
    auto m = nav_msg('R', 11, "2019 12 17 00 15 00", glonass(173700));
    m[0] = c;
    NavigationRnx a(file("n.rnx", nav_head() + m));
    int s = a.ignore_next_block();
    EXPECT((s == 0) == (c == 'R'));
  }
}''')

S("C28-version-only", "C28",
  [("src/navrnx.cpp", "  if (str_end == line)\n    return 10; // transformation to float has failed\n  if (line[20] != 'N')\n    return 11;", "  if (str_end == line)\n    return 10; // transformation to float has failed\n  if (line[20] != 'N' && line[40] == ' ')\n    return 11;")],
  "a file that is not of navigation messages but has a satellite system",
  "observation files are accepted as navigation files",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  for (char c : {'N', 'O', 'M', ' '}) {
    std::string t = nav_head();
    t[20] = c;
    t[40] = 'G';
    bool ok = true;
    try {
      NavigationRnx a(file("n.rnx", t + nav_msg('G', 11, "2019 12 17 02 00 00", kepler(180000, 2084))));
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok == (c == 'N'));
  }
}''')

S("C29-prn-range", "C29",
  [("src/obsrnx.cpp", "!__only_blanks__(end))\n    return 1;\n\n  RawRnxObs__", "!__only_blanks__(end))\n    return 0;\n\n  RawRnxObs__")],
  "a satellite line whose number is damaged to 00",
  "the satellite is delivered as one without observations instead of an error",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  for (int prn : {0, 1, 7, 99}) {
    Reader r(file("o.rnx", obs_head({{'G', {"C1C"}}}) + obs_epoch("2019 12 17 00 00  0.0000000", 1) + obs_sat('G', prn, {2.1e7})),
             {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}});
    EXPECT((r.next() == 0) == (prn > 0));
  }
}''', extra=["obs.hpp"])

S("C29-header-end", "C29",
  [("src/obsrnx.cpp", """  if (dummy_it >= MAX_HEADER_LINES) {
    return 20;
  }
""", """  if (dummy_it > MAX_HEADER_LINES) {
    return 20;
  }
""")],
  "a header whose end is damaged or missing",
  "a file without the end of its header is accepted",
  OBS, r'''
#include "obs.hpp"
int main() {
  std::string t = obs_head({{'G', {"C1C"}}});
  for (int d : {0, 1}) {
    if (d)
      t.replace(t.find("END OF HEADER"), 13, "END OF HEADEX");
    bool ok = true;
    try {
      ngpt::ObservationRnx r(file("o.rnx", t));
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok == !d);
  }
}''', extra=["obs.hpp"])

S("C30-unknown-system", "C30",
  [("src/sp3c.cpp", "    s = ngpt::char_to_satsys(line[1]);\n  } catch (std::runtime_error &e) {\n    return 3;", "    s = ngpt::char_to_satsys(line[1]);\n  } catch (std::logic_error &e) {\n    return 3;")],
  "a position record of a damaged (unknown) system",
  "an exception leaves a function that must not throw: the program is terminated",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  for (char c : {'G', 'x'}) {
    Sp3c s(file("s.sp3", sp3_head(1) + sp3_epoch(0) + sp3_pos(c, 1, 100, 200, 300, 1) + "EOF\n"));
    auto v = s.allocate_epoch_vector();
    datetime<microseconds> d;
    int n = 0;
    EXPECT((s.get_next_epoch(d, v, n) <= 0) == (c == 'G'));
  }
}''', extra=["sp3.hpp"])

S("C30-header-lines", "C30",
  [("src/sp3c.cpp", "    if (*line != '%' || line[1] != 'i')\n      return 70;", "    if (*line != '%' && line[1] != 'i')\n      return 70;")],
  "a header in which one of the two characters of a %i line is damaged",
  "the damaged header is accepted",
  SP3, r'''
#include "sp3.hpp"
int main() {
  using namespace ngpt;
  for (int d = 0; d < 3; d++) {
    std::string t = sp3_head(1);
    size_t p = t.find("%i");
    if (d)
      t[p + d - 1] = 'q';
    bool ok = true;
    try {
      Sp3c s(file("s.sp3", t + "EOF\n"));
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok == !d);
  }
}''', extra=["sp3.hpp"])

S("C31-no-part-2", "C31",
  [("src/bern_utils.cpp", "while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {", "while (std::strncmp(line2, line, line2_sz)) {")],
  "a file without PART 2 (cut, or damaged heading)",
  "looking for it never ends",
  BERN, r'''
#include "bern.hpp"
int main() {
  using namespace ngpt;
  std::string t = bern_head() + bern_rec(108, "MW", "701", "2005 01 01 00 00 00", "", -5) + "\n\nPART 3: ATTITUDE\n";
  for (int d : {0, 1}) {
    if (d)
      t.replace(t.find("PART 2"), 6, "PART X");
    bool ok = true;
    try {
      BernSatellit b(file("S.BSW", t));
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok == !d);
  }
}''', extra=["bern.hpp"])

S("C31-column-titles", "C31",
  [("src/bern_utils.cpp", "  if (std::strncmp(hln2, line, hln2_sz))\n    return 13;", "  if (std::strncmp(hln2, line, 40))\n    return 13;")],
  "a file whose second line of column titles is damaged beyond column 40",
  "the file is accepted although its columns are not the known ones",
  BERN, r'''
#include "bern.hpp"
int main() {
  using namespace ngpt;
  std::string t = bern_head() + bern_rec(108, "MW", "701", "2005 01 01 00 00 00", "", -5) + "\n\nPART 3: ATTITUDE\n";
  int f = 0, p = 0;
  for (int d : {0, 1}) {
    if (d)
      t.replace(t.find("IFRQ"), 4, "QFRI");
    bool ok = true;
    try {
      BernSatellit b(file("S.BSW", t));
      EXPECT(b.get_frequency_channel(701, datetime<seconds>(year(2019), month(1), day_of_month(1)), f, p) == 0 && f == -5 && p == 108);
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok == !d);
  }
}''', extra=["bern.hpp"])

S("C32-foreign-system", "C32",
  [("src/obsrnx.cpp", "if (s != inobs.first || status > 0) {", "if (status > 0) {")],
  "a map with an observable of one system listed under another",
  "the observable is filed under its own system, whose values it shifts",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  auto g = SATELLITE_SYSTEM::gps, e = SATELLITE_SYSTEM::galileo;
  ObservationRnx r(file("o.rnx", obs_head({{'G', {"C1C", "C2W"}}, {'E', {"C1C"}}})));
  Wanted ok{{g, {raw(g, "C2W")}}, {e, {raw(e, "C1C")}}}, bad{{g, {raw(g, "C2W")}}, {e, {raw(g, "C1C")}}};
  EXPECT(r.set_read_map(ok).size() == 2);
  EXPECT(r.set_read_map(bad).empty());
}''', extra=["obs.hpp"])

S("C32-skipped-stays", "C32",
  [("src/obsrnx.cpp", "i = inobs.second.erase(i);", "++i;")],
  "an observable that the file does not have, followed by one it has, with missing ones skipped",
  "the observable stays in the caller's map, whose order no longer is that of the values",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  auto g = SATELLITE_SYSTEM::gps;
  ObservationRnx r(file("o.rnx", obs_head({{'G', {"C1C", "C2W"}}})));
  Wanted w{{g, {raw(g, "C1C"), raw(g, "C5X"), raw(g, "C2W")}}};
  EXPECT(r.set_read_map(w, true).at(g).size() == 2);
  EXPECT(w.at(g).size() == 2);
  EXPECT(w.at(g)[1] == raw(g, "C2W"));
}''', extra=["obs.hpp"])

S("C32-longest-list", "C32",
  [("src/obsrnx.cpp", """  for (const auto &it : mmap)
    if ((tmp = it.second.size()) > max_obs)
      max_obs = tmp;""", """  for (const auto &it : mmap)
    if ((tmp = it.second.size()) > max_obs || max_obs > 8)
      max_obs = tmp;""")],
  "more than eight observables of one system and fewer of a later one",
  "the vectors for the values are too short",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  auto g = SATELLITE_SYSTEM::gps, e = SATELLITE_SYSTEM::galileo;
  std::vector<std::string> c;
  for (char b : {'1', '2', '5'})
    for (char t : {'C', 'L', 'D', 'S'})
      c.push_back(std::string(1, t) + b + (b == '1' ? 'C' : b == '2' ? 'W' : 'X'));
  ObservationRnx r(file("o.rnx", obs_head({{'G', c}, {'E', {"C1C"}}})));
  for (size_t n : {1, 4, 8, 9, 12}) {
    Wanted w{{e, {raw(e, "C1C")}}};
    for (size_t i = 0; i < n; i++)
      w[g].push_back(raw(g, c[i].c_str()));
    auto m = r.set_read_map(w);
    for (auto &q : r.initialize_epoch_vector(m))
      EXPECT(q.second.size() >= n);
  }
}''', extra=["obs.hpp"])
