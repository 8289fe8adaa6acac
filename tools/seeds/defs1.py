# planted bugs: S(id, property, edits, needs, breaks, sources, demo)
# edits: list of (file, old, new); old has to occur exactly once
BASE = ["satsys", "gnssobs", "gnssobsrv", "satellite", "antenna", "antenna_pcv", "nvarstr"]
ATX = BASE + ["antex"]
NAV = BASE + ["navrnx", "gpsnav", "galnav", "bdsnav", "glonav"]
OBS = BASE + ["obsrnx"]
SP3 = BASE + ["sp3c"]
BERN = BASE + ["bern_utils"]

S("C01-attr-before-text", "C01",
  [("src/gnssobs.cpp", "if (std::strlen(str) > 2 && str[2] != ' ') {", "if (std::strlen(str) == 3 && str[2] != ' ') {")],
  "an observation code that is followed by more text, as in a header line of several codes",
  "the attribute of the code is lost (read as '?') unless the text ends right after it",
  BASE, r'''
#include "gnssobs.hpp"
int main() {
  EXPECT(ngpt::ObservationCode("C1C").to_string() == "C1C");
  EXPECT(ngpt::ObservationCode("L5").to_string() == "L5?");
  EXPECT(ngpt::ObservationCode("L5 C1C").to_string() == "L5?");
  EXPECT(ngpt::ObservationCode("L2W D2W S2W").to_string() == "L2W");
}''')

S("C01-wildcard-equal", "C01",
  [("src/gnssobs.hpp", "return __c == other.__c;", "return __c == other.__c || other.__c == '?';")],
  "comparing a code with an attribute to one without, in this order only",
  "a code equals another one of the same type and band whose attribute is the wildcard",
  BASE, r'''
#include "gnssobs.hpp"
int main() {
  using ngpt::ObservationCode;
  EXPECT(ObservationCode("C1C") == ObservationCode("C1C"));
  EXPECT(!(ObservationCode("C1C") == ObservationCode("C1W")));
  EXPECT(!(ObservationCode("C1") == ObservationCode("C1W")));
  EXPECT(!(ObservationCode("C1W") == ObservationCode("C1")));
  EXPECT(ObservationCode("C1W") != ObservationCode("C1"));
}''')

S("C02-irnss-s-band", "C02",
  [("src/satsys.cpp", "{9, 2492.028e0}", "{9, 2492.082e0}")],
  "looking up the frequency of the IRNSS S band",
  "two digits of one of the tabulated frequencies are swapped",
  BASE, r'''
#include "satsys.hpp"
int main() {
  using namespace ngpt;
  EXPECT(satellite_system_traits<SATELLITE_SYSTEM::irnss>::band2frequency(5) == 1176.45);
  EXPECT(satellite_system_traits<SATELLITE_SYSTEM::irnss>::band2frequency(9) == 2492.028);
}''')

S("C02-galileo-e6-z", "C02",
  [("src/satsys.cpp", '{8, std::string("IQX?")},\n    {6, std::string("ABCXZ?")}};', '{8, std::string("IQX?")},\n    {6, std::string("ABCX?")}};')],
  "the attribute Z (A+B+C tracking) of Galileo E6",
  "a valid attribute is missing from the table of one band",
  BASE, r'''
#include "satsys.hpp"
int main() {
  using namespace ngpt;
  auto m = satellite_system_traits<SATELLITE_SYSTEM::galileo>::valid_atributes;
  for (char c : std::string("ABCXZ?")) {
    EXPECT(m.at(1).find(c) != std::string::npos);
    EXPECT(m.at(6).find(c) != std::string::npos);
  }
}''')

S("C03-mixed-first-last", "C03",
  [("src/gnssobsrv.hpp", """    for (const auto &obspart : __vec)
      if (obspart.__type.satsys() != sys)
        return true;
    return false;""", """    return __vec.back().__type.satsys() != sys;""")],
  "a combination of three or more parts whose first and last part are of one system and an inner one of another",
  "the combination is not reported as mixed",
  BASE, r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  GnssObservable o(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 1.);
  EXPECT(!o.is_of_mixed_satsys());
  o.add(SATELLITE_SYSTEM::galileo, ObservationCode("C1C"), -1.);
  EXPECT(o.is_of_mixed_satsys());
  o.add(SATELLITE_SYSTEM::gps, ObservationCode("C2W"), 1.);
  EXPECT(o.is_of_mixed_satsys());
}''')

S("C03-coef-tolerance", "C03",
  [("src/gnssobsrv.hpp", "return __type == o.__type && __coef == o.__coef;",
    "return __type == o.__type &&\n           (__coef > o.__coef ? __coef - o.__coef : o.__coef - __coef) < 1e-6;")],
  "two parts whose coefficients differ by less than a millionth (e.g. a coefficient and its value rounded for printing)",
  "observables with different coefficients compare equal",
  BASE, r'''
#include "gnssobsrv.hpp"
int main() {
  using namespace ngpt;
  GnssObservable a(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 2.5457277801631603);
  GnssObservable b(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 2.545728);
  GnssObservable c(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 2.545);
  EXPECT(a == a);
  EXPECT(a != c);
  EXPECT(a != b);
}''')

S("C04-serial-leftover", "C04",
  [("src/antenna.cpp", "  std::memset(__name + start_idx, ' ', antenna_serial_max_chars + 1);",
    "  if (!has_serial())\n    std::memset(__name + start_idx, ' ', antenna_serial_max_chars + 1);")],
  "setting a serial number that is shorter than the one the antenna already has",
  "the end of the previous serial number stays",
  BASE, r'''
#include "antenna.hpp"
int main() {
  ngpt::ReceiverAntenna a("TRM29659.00     SCIT"), b("TRM29659.00     SCIT");
  a.set_serial_nr("123456789");
  a.set_serial_nr("77");
  b.set_serial_nr("77");
  EXPECT(a.is_same(b));
  EXPECT(a.compare_serial("77"));
}''')

S("C04-short-radome", "C04",
  [("src/antenna.cpp", "  if (ant_size < max_sz) {\n    std::memset(__name + ant_size,",
    "  if (ant_size < antenna_model_max_chars) {\n    std::memset(__name + ant_size,")],
  "an antenna text of 15 to 19 characters (e.g. a model of full length without a radome), built where other data was before",
  "the columns behind the text are not blanked and hold whatever was in memory",
  BASE, r'''
#include "antenna.hpp"
#include <new>
int main() {
  alignas(16) static char mem[sizeof(ngpt::ReceiverAntenna)];
  for (const char *t : {"TRM29659.00", "TRM57971.00XXXX", "TRM57971.00      AB", "TRM57971.00     SCIT"}) {
    memset(mem, 'Q', sizeof mem);
    auto *a = new (mem) ngpt::ReceiverAntenna(t);
    std::string want(t);
    want.resize(20, ' ');
    if (want.substr(16) == "    ")
      want.replace(16, 4, "NONE");
    EXPECT(std::string(a->__underlying_char__()) == want);
  }
}''')

S("C05-serial-last-chars", "C05",
  [("src/antenna.cpp", "  return !std::strncmp(__name, rhs.__name, antenna_full_max_chars);",
    "  return !std::strncmp(__name, rhs.__name,\n                       antenna_full_max_chars - antenna_radome_max_chars);")],
  "two antennas whose serial numbers have more than 17 characters and differ in the last ones only",
  "they are the same antenna",
  BASE, r'''
#include "antenna.hpp"
int main() {
  ngpt::ReceiverAntenna a("TRM29659.00     SCIT"), b("TRM29659.00     SCIT");
  a.set_serial_nr("CR620012345678901234");
  b.set_serial_nr("CR620012345678901234");
  EXPECT(a.is_same(b));
  b.set_serial_nr("CR620012345678901239");
  EXPECT(!a.is_same(b));
  EXPECT(!b.is_same(a));
}''')

S("C05-radome-last-char", "C05",
  [("src/antenna.cpp", "  constexpr auto sz = antenna_model_max_chars + 1 + antenna_radome_max_chars;\n  return !std::strncmp(__name, rhs.__name, sz);",
    "  constexpr auto sz = antenna_model_max_chars + antenna_radome_max_chars;\n  return !std::strncmp(__name, rhs.__name, sz);")],
  "two radomes that differ in their fourth character only (SCIS, SCIT)",
  "the antennas are of the same model",
  BASE, r'''
#include "antenna.hpp"
int main() {
  ngpt::ReceiverAntenna a("TRM29659.00     SCIT"), b("TRM29659.00     SCIS"), c("TRM29659.00     SNOW");
  EXPECT(a.compare_model(a));
  EXPECT(!a.compare_model(c));
  EXPECT(!a.compare_model(b));
}''')

S("C06-svn-100", "C06",
  [("src/satellite.cpp", "else if (__svn < 100)", "else if (__svn <= 100)")],
  "a satellite with the vehicle number 100",
  "the vehicle number is printed with four digits",
  BASE, r'''
#include "satellite.hpp"
int main() {
  ngpt::Satellite s(ngpt::SATELLITE_SYSTEM::glonass, 7);
  for (int v : {1, 9, 10, 99, 100, 101, 854}) {
    s.svn() = v;
    EXPECT(s.to_string(false).substr(0, 7) == fmt("R07-%03d", v));
  }
}''')

S("C06-antenna-reuse", "C06",
  [("src/antenna.cpp", "  std::memcpy(__name, c, sizeof(char) * ant_size);\n  __name[ant_size] = '\\0';",
    "  std::memcpy(__name, c, sizeof(char) * ant_size);\n  __name[satellite_antenna_max_chars] = '\\0';")],
  "giving a satellite an antenna of a shorter name than the one it had before",
  "the end of the previous name stays",
  BASE, r'''
#include "satellite.hpp"
int main() {
  ngpt::Satellite s(ngpt::SATELLITE_SYSTEM::gps, 7);
  s.antenna().set_from_cstr("BLOCK IIR-M");
  EXPECT(s.antenna().to_string() == "BLOCK IIR-M");
  s.antenna().set_from_cstr("BLOCK I");
  EXPECT(s.antenna().to_string() == "BLOCK I");
  EXPECT(s.antenna().is_same("BLOCK I"));
}''')

S("C07-rtrim-all-blank", "C07",
  [("src/nvarstr.cpp", "while (it >= 0 && str[it] == ' ')", "while (it > 0 && str[it] == ' ')")],
  "trimming a text (or a column range) of blanks only",
  "one blank is left",
  BASE, r'''
#include "nvarstr.hpp"
int main() {
  using P = ngpt::str_algorithm_details::StrSearchPolicyEnd;
  std::size_t p;
  EXPECT(ngpt::rtrim<P>("a b ", p) == "a b" && p == 3);
  EXPECT(ngpt::rtrim<P>("a", p) == "a" && p == 1);
  EXPECT(ngpt::rtrim<P>("    ", p) == "" && p == 0);
  EXPECT(ngpt::rtrim<P>("    x", p, 4) == "" && p == 0);
}''')

S("C07-year-79", "C07",
  [("src/rinex.hpp", "return y <= 79 ?", "return y < 79 ?")],
  "the two-digit year 79",
  "it means 1979 rather than 2079",
  BASE, r'''
#include "rinex.hpp"
int main() {
  for (int y = 0; y < 100; y++)
    EXPECT(ngpt::rinex::four2two_digit_year(y) == (y < 80 ? 2000 + y : 1900 + y));
}''')

S("C07-ltrim-stop", "C07",
  [("src/nvarstr.cpp", "  return std::string(str + start, len - start);", "  return std::string(str + start);")],
  "left-trimming with a stop column before the end of the text",
  "the text behind the stop column is returned too",
  BASE, r'''
#include "nvarstr.hpp"
int main() {
  std::size_t p;
  EXPECT(ngpt::ltrim("  ab", p) == "ab" && p == 2);
  EXPECT(ngpt::ltrim("  abcd", p, 4) == "ab" && p == 2);
}''')

S("C08-header-lines", "C08",
  [("src/antex.cpp", "constexpr int MAX_HEADER_LINES{1000};", "constexpr int MAX_HEADER_LINES{100};")],
  "an ANTEX header with more than a hundred comment lines",
  "the file is refused",
  ATX, r'''
#include "antex.hpp"
int main() {
  for (int n : {1, 50, 97, 150, 400}) {
    bool ok = true;
    try {
      ngpt::Antex a(file("a.atx", atx_head(n)));
    } catch (std::exception &) {
      ok = false;
    }
    EXPECT(ok);
  }
}''')

S("C09-serial-columns", "C09",
  [("src/antex.cpp", "for (int i = 20; i < 40; i++) {", "for (int i = 20; i < 30; i++) {")],
  "an individual calibration whose serial number is written right-justified (columns 31 to 40)",
  "the block is taken for the type mean",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string t = atx_head() + atx_block("TRM29659.00     SCIT", "", {{"G01", 1, 2, 3}}) +
                  atx_block("TRM29659.00     SCIT               12345", "", {{"G01", 4, 5, 6}});
  Antex a(file("a.atx", t));
  AntennaPcoList l;
  ReceiverAntenna r("TRM29659.00     SCIT");
  EXPECT(a.get_antenna_pco(r, l) == 0);
  std::ostringstream o;
  l.__vecref__().at(0).dummy_print(o);
  EXPECT(o.str().find("1, 2, 3") != std::string::npos);
  r.set_serial_nr("               12345");
  EXPECT(a.get_antenna_pco(r, l, true) == 0);
  o.str("");
  l.__vecref__().at(0).dummy_print(o);
  EXPECT(o.str().find("4, 5, 6") != std::string::npos);
}''')

S("C09-long-block", "C09",
  [("src/antex.cpp", "int max_antenna_lines = 5000;", "int max_antenna_lines = 500;")],
  "an antenna behind one with azimuth dependent patterns of many frequencies (a block of more than 500 lines)",
  "the antenna is not found",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::vector<Freq> f;
  for (int i = 1; i < 9; i++)
    f.push_back({fmt("E%02d", i), 1. * i, 2, 3});
  std::string t = atx_head() + atx_block("LEIAR25.R4      LEIT", "", f, 73) +
                  atx_block("TRM29659.00     SCIT", "", {{"G01", 4, 5, 6}});
  Antex a(file("a.atx", t));
  AntennaPcoList l;
  EXPECT(a.get_antenna_pco(ReceiverAntenna("LEIAR25.R4      LEIT"), l) == 0 && l.__vecref__().size() == 8);
  EXPECT(a.get_antenna_pco(ReceiverAntenna("TRM29659.00     SCIT"), l) == 0 && l.__vecref__().size() == 1);
}''')

S("C09-other-individual", "C09",
  [("src/antex.cpp", "    if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {",
    "    if (cur_ant.compare_model(ant_in) &&\n        (!cur_ant.has_serial() || !ant_in.has_serial())) {")],
  "an antenna without serial number, and a file with an individual calibration of its type behind the type mean",
  "the calibration of the individual is answered instead of the type mean",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string ind = atx_block("TRM29659.00     SCIT12345", "", {{"G01", 4, 5, 6}}),
              mean = atx_block("TRM29659.00     SCIT", "", {{"G01", 1, 2, 3}});
  for (int k = 0; k < 2; k++) {
    Antex a(file("a.atx", atx_head() + (k ? mean + ind : ind + mean)));
    AntennaPcoList l;
    EXPECT(a.get_antenna_pco(ReceiverAntenna("TRM29659.00     SCIT"), l) == 0);
    std::ostringstream o;
    l.__vecref__().at(0).dummy_print(o);
    EXPECT(o.str().find("1, 2, 3") != std::string::npos);
  }
}''')

S("C10-until-inclusive", "C10",
  [("src/antex.cpp", "return !(from <= at && at <= to);", "return !(from <= at && at < to);")],
  "an epoch that is exactly the last second of a validity interval",
  "the satellite is not found",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string id = "BLOCK IIF           G01                 G063      2011-036A";
  Antex a(file("a.atx", atx_head() + atx_block(id, atx_valid("2011     7    16     0     0    0.0000000", "2019    12    31    23    59   59.0000000"), {{"G01", 4, 5, 6}})));
  AntennaPcoList l;
  auto at = [](int s) { return datetime<seconds>(year(2019), month(12), day_of_month(31), hours(23), minutes(59), seconds(s)); };
  EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, at(58), l) == 0);
  EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, at(59), l) == 0);
  EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2020), month(1), day_of_month(1)), l) > 0);
}''')

S("C10-open-end-start", "C10",
  [("src/antex.cpp", "    return !(from <= at);", "    return !(from < at);")],
  "an epoch that is exactly the first second of an interval without end",
  "the satellite is not found",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string id = "GALILEO-2           E11                 E101      2011-060A";
  Antex a(file("a.atx", atx_head() + atx_block(id, atx_valid("2011    10    21     0     0    0.0000000"), {{"E01", 4, 5, 6}})));
  AntennaPcoList l;
  EXPECT(a.get_antenna_pco(11, SATELLITE_SYSTEM::galileo, datetime<seconds>(year(2011), month(10), day_of_month(21), seconds(1)), l) == 0);
  EXPECT(a.get_antenna_pco(11, SATELLITE_SYSTEM::galileo, datetime<seconds>(year(2011), month(10), day_of_month(21)), l) == 0);
  EXPECT(a.get_antenna_pco(11, SATELLITE_SYSTEM::galileo, datetime<seconds>(year(2011), month(10), day_of_month(20)), l) > 0);
}''')

S("C11-long-grid-lines", "C11",
  [("src/antex.cpp", "constexpr std::size_t MAX_GRID_CHARS{512};", "constexpr std::size_t MAX_GRID_CHARS{320};")],
  "patterns with more than 39 numbers per line (zenith step 0.5 degrees)",
  "the second and further frequencies of the antenna are not read",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  for (int w : {19, 37, 41, 60}) {
    Antex a(file("a.atx", atx_head() + atx_block("TRM29659.00     SCIT", "", {{"G01", 4, 5, 6}, {"G02", 7, 8, 9}}, 2, w)));
    AntennaPcoList l;
    EXPECT(a.get_antenna_pco(ReceiverAntenna("TRM29659.00     SCIT"), l) == 0);
    EXPECT(l.__vecref__().size() == 2);
  }
}''')

S("C11-list-reuse", "C11",
  [("src/antex.cpp", """  // clean any entries in pco_list
  pco_list.__vecref__().clear();

  // match the antenna
  int ant_found = find_satellite_antenna(""", """  // match the antenna
  int ant_found = find_satellite_antenna(""")],
  "a second query for a satellite with the list of the first one",
  "the list holds the offsets of both",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string id = "GALILEO-2           E11                 E101      2011-060A";
  Antex a(file("a.atx", atx_head() + atx_block(id, atx_valid("2011    10    21     0     0    0.0000000"), {{"E01", 4, 5, 6}, {"E05", 1, 2, 3}})));
  AntennaPcoList l;
  for (int i = 0; i < 3; i++) {
    EXPECT(a.get_antenna_pco(11, SATELLITE_SYSTEM::galileo, datetime<seconds>(year(2015), month(10), day_of_month(21)), l) == 0);
    EXPECT(l.__vecref__().size() == 2);
  }
}''')

S("C12-galileo-fortran", "C12",
  [("src/navrnx.cpp", """      // replace 'D' or 'd' with 'e'
      __for2cpp__(line);
      // read 4 doubles into data__
      if (ln != 4) {""", """      // read 4 doubles into data__
      if (ln != 4) {""")],
  "a Galileo or BeiDou message written with D exponents",
  "the exponents of its orbit elements are ignored",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto f = kepler(172800, 2084);
  for (char s : {'G', 'E', 'C'})
    for (char e : {'E', 'D', 'd'}) {
      NavigationRnx n(file("n.rnx", nav_head() + nav_msg(s, 11, "2019 12 17 00 00 00", f, e)));
      NavDataFrame d;
      EXPECT(n.read_next_record(d) == 0);
      EXPECT(std::abs(d.data(8) - 0.01) < 1e-12 && std::abs(d.data(10) - 5153.65) < 1e-6);
    }
}''')

S("C12-glonass-acc-unit", "C12",
  [("src/navrnx.cpp", "for (int i : {3, 4, 5, 7, 8, 9, 11, 12, 13})", "for (int i : {3, 4, 5, 7, 8, 9, 11, 12})")],
  "a GLONASS message whose luni-solar acceleration has a z component",
  "that component stays in km/s^2",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto f = glonass(172800 + 900);
  NavigationRnx n(file("n.rnx", nav_head() + nav_msg('R', 11, "2019 12 17 00 15 00", f)));
  NavDataFrame d;
  EXPECT(n.read_next_record(d) == 0);
  for (int k : {3, 4, 5, 7, 8, 9, 11, 12, 13})
    EXPECT(std::abs(d.data(k) - f[k] * 1e3) <= 1e-9 * std::abs(f[k] * 1e3));
}''')

S("C13-many-blocks", "C13",
  [("src/navrnx.cpp", "  } while (dummy_it < 5000);", "  } while (++dummy_it < 5000);")],
  "a file with more than 5000 messages of other satellites before the one searched for (a global daily file)",
  "the search gives up before it",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto g = glonass(172800 + 900);
  for (int n : {10, 6000}) {
    std::string t = nav_head() + rep(nav_msg('R', 11, "2019 12 17 00 15 00", g), n) + nav_msg('R', 12, "2019 12 17 00 15 00", g);
    NavigationRnx a(file("n.rnx", t));
    NavDataFrame d;
    NavigationRnx::pos_type p;
    EXPECT(a.find_next(p, d, SATELLITE_SYSTEM::glonass, 12) == 0);
    EXPECT(d.prn() == 12);
    EXPECT(a.find_next(p, d, SATELLITE_SYSTEM::glonass, 12) < 0);
  }
}''')

S("C13-peek-at-end", "C13",
  [("src/navrnx.cpp", "    status = clear_stream(-1);\n    return SATELLITE_SYSTEM::mixed;", "    status = -1;\n    return SATELLITE_SYSTEM::mixed;")],
  "reading, skipping or searching once more after peeking (or searching) reached the end of the file",
  "these report an error rather than the end of the file",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx a(file("n.rnx", nav_head() + nav_msg('R', 11, "2019 12 17 00 15 00", glonass(173700))));
  NavDataFrame d;
  NavigationRnx::pos_type p;
  int st;
  EXPECT(a.read_next_record(d) == 0);
  EXPECT(a.find_next(p, d, SATELLITE_SYSTEM::glonass, 11) < 0);
  EXPECT(a.find_next(p, d, SATELLITE_SYSTEM::glonass, 11) < 0);
  a.peak_satsys(st);
  EXPECT(st < 0);
  EXPECT(a.ignore_next_block() < 0);
  EXPECT(a.read_next_record(d) < 0);
}''')

S("C14-end-of-fit", "C14",
  [("src/navrnx.hpp", "if (t >= toc && t < max_t)\n                return 0;", "if (t >= toc && t <= max_t)\n                return 0;")],
  "an epoch exactly a fit interval after the time of clock",
  "the message that just expired is selected",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx a(file("n.rnx", nav_head() + nav_msg('G', 11, "2019 12 17 00 00 00", kepler(172800, 2084)) +
                       nav_msg('G', 11, "2019 12 17 02 00 00", kepler(180000, 2084))));
  NavDataFrame d;
  NavigationRnx::pos_type p;
  auto t = [](int h, int s) { return datetime<milliseconds>(year(2019), month(12), day_of_month(17), hours(h), minutes(0), milliseconds(s * 1000L)); };
  EXPECT(a.find_next_valid(t(3, 59), p, d, SATELLITE_SYSTEM::gps, 11) == 0);
  EXPECT(d.toc() == (datetime<seconds>(year(2019), month(12), day_of_month(17))));
  a.rewind();
  EXPECT(a.find_next_valid(t(4, 0), p, d, SATELLITE_SYSTEM::gps, 11) == 0);
  EXPECT(d.toc() == (datetime<seconds>(year(2019), month(12), day_of_month(17), hours(2), minutes(0))));
}''')

S("C14-four-hours-ahead", "C14",
  [("src/navrnx.hpp", "if (toc > t && ngpt::delta_sec(toc, t) > limitT)", "if (toc > t && ngpt::delta_sec(toc, t) >= limitT)")],
  "an unordered file with a message exactly four hours ahead of the epoch before the valid one",
  "the search ends without a message",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx a(file("n.rnx", nav_head() + nav_msg('G', 11, "2019 12 17 06 00 00", kepler(194400, 2084)) +
                       nav_msg('G', 11, "2019 12 17 02 00 00", kepler(180000, 2084))));
  NavDataFrame d;
  NavigationRnx::pos_type p;
  auto t = [](int h, int s) { return datetime<milliseconds>(year(2019), month(12), day_of_month(17), hours(h), minutes(0), milliseconds(s * 1000L)); };
  EXPECT(a.find_next_valid(t(2, 1), p, d, SATELLITE_SYSTEM::gps, 11) == 0);
  a.rewind();
  EXPECT(a.find_next_valid(t(2, 0), p, d, SATELLITE_SYSTEM::gps, 11) == 0);
}''')

S("C14-many-blocks", "C14",
  [("src/navrnx.hpp", "    } while (dummy_it < 5000);", "    } while (++dummy_it < 5000);")],
  "a file with more than 5000 messages before the one that is valid",
  "the search gives up before it",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto g = glonass(172800 + 900);
  for (int n : {10, 6000}) {
    std::string t = nav_head() + rep(nav_msg('R', 11, "2019 12 17 00 15 00", g), n) + nav_msg('R', 12, "2019 12 17 00 15 00", g);
    NavigationRnx a(file("n.rnx", t));
    NavDataFrame d;
    NavigationRnx::pos_type p;
    datetime<milliseconds> at(year(2019), month(12), day_of_month(17), hours(0), minutes(15), milliseconds(0));
    EXPECT(a.find_next_valid(at, p, d, SATELLITE_SYSTEM::glonass, 12) == 0);
    EXPECT(d.prn() == 12);
  }
}''')

S("C15-day-before", "C15",
  [("src/navrnx.hpp", """        t.mjd().as_underlying_type() - toe__.mjd().as_underlying_type();
    if (mjd_diff)""", """        t.mjd().as_underlying_type() - toe__.mjd().as_underlying_type();
    if (mjd_diff > 0)""")],
  "an epoch on the day before the time of ephemeris (shortly before midnight)",
  "the position is that of the wrong day, a day later",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx a(file("n.rnx", nav_head() + nav_msg('G', 11, "2019 12 17 00 00 00", kepler(172800, 2084))));
  NavDataFrame d;
  EXPECT(a.read_next_record(d) == 0);
  double s[6], u[6], c;
  datetime<milliseconds> t0(year(2019), month(12), day_of_month(17)), t1(year(2019), month(12), day_of_month(16), hours(23), minutes(59), milliseconds(59000L));
  EXPECT(d.stateNclock(t0, s, c) == 0);
  EXPECT(d.stateNclock(t1, u, c) == 0);
  double r = std::sqrt(std::pow(s[0] - u[0], 2) + std::pow(s[1] - u[1], 2) + std::pow(s[2] - u[2], 2));
  EXPECT(r > 1000 && r < 5000);
}''')

S("C15-kepler-limit", "C15",
  [("src/navrnx.hpp", """    constexpr double LIMIT{1e-14};           //  Limit for solving (iteratively)
                                             //+ the Kepler equation for the
                                             //+ eccentricity anomaly
    const double A(""", """    constexpr double LIMIT{1e-6};            //  Limit for solving (iteratively)
                                             //+ the Kepler equation for the
                                             //+ eccentricity anomaly
    const double A(""")],
  "an orbit of some eccentricity (e.g. the Galileo satellites E14 and E18)",
  "Kepler's equation is solved to a millionth only: positions are off by up to metres",
  NAV, r'''
#include "navrnx.hpp"
#include "kep.hpp"
int main() {
  using namespace ngpt;
  for (double e : {0.001, 0.01, 0.16}) {
    auto f = kepler(172800, 2084, e);
    NavigationRnx a(file("n.rnx", nav_head() + nav_msg('E', 14, "2019 12 17 00 00 00", f)));
    NavDataFrame d;
    EXPECT(a.read_next_record(d) == 0);
    for (int k = 0; k < 12; k++) {
      double s[6], c, w[3];
      datetime<milliseconds> t(year(2019), month(12), day_of_month(17), hours(k), minutes(0), milliseconds(0L));
      EXPECT(d.stateNclock(t, s, c) == 0);
      kep([&](int i) { return d.data(i); }, k * 3600.0, 3.986004418e14, 7.2921151467e-5, w);
      for (int i = 0; i < 3; i++)
        EXPECT(std::abs(s[i] - w[i]) < 1e-3);
    }
  }
}''', extra=["kep.hpp"])

S("C16-quadratic-sign", "C16",
  [("src/navrnx.hpp", "data__[0] + data__[1] * dt + (data__[2] * dt) * dt;", "data__[0] + data__[1] * dt + (data__[2] * dt) * std::abs(dt);")],
  "an epoch before the time of clock and a message with a drift rate",
  "the quadratic term has the wrong sign",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  auto f = kepler(172800 + 7200, 2084);
  f[2] = 3.5e-18;
  NavDataFrame d[2];
  for (int k = 0; k < 2; k++) {
    f[2] = k ? 1e-14 : 0;
    NavigationRnx a(file("n.rnx", nav_head() + nav_msg('G', 11, "2019 12 17 02 00 00", f)));
    EXPECT(a.read_next_record(d[k]) == 0);
  }
  for (int m : {0, 1}) {
    datetime<milliseconds> t(year(2019), month(12), day_of_month(17), hours(m ? 1 : 3), minutes(0), milliseconds(0L));
    double s[6], c0, c1;
    EXPECT(d[0].stateNclock(t, s, c0) == 0);
    EXPECT(d[1].stateNclock(t, s, c1) == 0);
    EXPECT(std::abs((c1 - c0) - 1e-14 * 3600 * 3600) < 1e-12);
  }
}''')

S("C16-beidou-relativity", "C16",
  [("src/satsys.hpp", "return -2e0 * std::sqrt(3.986004418e14) / par;", "return -2e0 * std::sqrt(3.986005e14) / par;")],
  "a BeiDou satellite on an eccentric orbit",
  "the relativistic constant of BeiDou is computed with the gravitational constant of GPS",
  NAV, r'''
#include "satsys.hpp"
int main() {
  using namespace ngpt;
  double f = satellite_system_traits<SATELLITE_SYSTEM::beidou>::f_clock();
  EXPECT(std::abs(f + 2 * std::sqrt(3.986004418e14) / (299792458. * 299792458.)) < 1e-20);
}''')

S("C17-rk4-stage", "C17",
  [("src/glonav.cpp", """      ytmp[i] = yti[i] + (h / 2e0) * k2[i];
    glo_state_deriv(ytmp, acc, k3);""", """      ytmp[i] = yti[i] + (h / 2e0) * k1[i];
    glo_state_deriv(ytmp, acc, k3);""")],
  "an epoch some minutes from the time of ephemeris",
  "the third stage of the integration repeats the second: positions are off by decimetres",
  NAV, r'''
#include "navrnx.hpp"
#include "glo.hpp"
int main() {
  using namespace ngpt;
  auto f = glonass(172800 + 900);
  NavigationRnx n(file("n.rnx", nav_head() + nav_msg('R', 11, "2019 12 17 00 15 00", f)));
  NavDataFrame d;
  EXPECT(n.read_next_record(d) == 0);
  for (int m : {1, 7, 14, 16, 29}) {
    datetime<milliseconds> t(year(2019), month(12), day_of_month(17), hours(0), minutes(m), milliseconds(0L));
    double s[6], c, w[6];
    EXPECT(d.stateNclock(t, s, c) == 0);
    glo([&](int i) { return d.data(i); }, (m - 15) * 60.0, w);
    for (int i = 0; i < 3; i++)
      EXPECT(std::abs(s[i] - w[i]) < 5e-3);
  }
}''', extra=["glo.hpp"])

S("C17-fifteen-minutes", "C17",
  [("src/glonav.cpp", "if (std::abs(t_sec - toe_sec) > 15 * 60e0) {", "if (std::abs(t_sec - toe_sec) >= 15 * 60e0) {")],
  "an epoch exactly 15 minutes from the time of ephemeris (the first or last one a message is valid for)",
  "it is refused as too far away",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx n(file("n.rnx", nav_head() + nav_msg('R', 11, "2019 12 17 00 15 00", glonass(172800 + 900))));
  NavDataFrame d;
  EXPECT(n.read_next_record(d) == 0);
  for (int m : {1, 30, 0}) {
    datetime<milliseconds> t(year(2019), month(12), day_of_month(17), hours(0), minutes(m), milliseconds(0L));
    double s[6], c;
    EXPECT(d.stateNclock(t, s, c) == 0);
  }
}''')

S("C18-ura-15", "C18",
  [("src/gpsnav.cpp", "} else if (ura_index < 15) {", "} else if (ura_index <= 15) {")],
  "a GPS message with the URA index 15 (no accuracy prediction)",
  "an accuracy of 8192 m is reported rather than none",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavDataFrame d;
  d.data(23) = 14;
  EXPECT(d.gps_ura() == 4096);
  d.data(23) = 15;
  EXPECT(d.gps_ura() > 8192);
}''')

S("C18-health-bits", "C18",
  [("src/navrnx.hpp", """    case (SATELLITE_SYSTEM::gps):
    case (SATELLITE_SYSTEM::galileo):
    case (SATELLITE_SYSTEM::beidou):
      return static_cast<int>(data__[24]);""", """    case (SATELLITE_SYSTEM::gps):
    case (SATELLITE_SYSTEM::galileo):
    case (SATELLITE_SYSTEM::beidou):
      return static_cast<unsigned char>(static_cast<int>(data__[24]));""")],
  "a Galileo message with a health of 256 or more (E5b signal problems only: bits 6 to 8 of the status)",
  "only the low eight bits of the health are kept, the satellite appears healthy",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  for (int h : {0, 1, 63, 256, 455, 511}) {
    NavigationRnx a(file("n.rnx", nav_head() + nav_msg('E', 11, "2019 12 17 02 00 00", kepler(180000, 2084, 0.01, h))));
    NavDataFrame d;
    EXPECT(a.read_next_record(d) == 0);
    EXPECT(d.sv_health() == h);
  }
}''')
