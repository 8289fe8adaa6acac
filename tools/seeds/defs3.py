# planted bugs, third batch: after trials of bugs that were missed at first
S("C10-comment-lines", "C10",
  [("src/antex.cpp", "int max_lines = 5000;", "int max_lines = 10;")],
  "a block with more than a handful of comments (or other records) before its validity interval",
  "the satellite is not found",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string id = "BLOCK IIF           G01                 G063      2011-036A";
  for (int n : {0, 2, 15, 60}) {
    Antex a(file("a.atx", atx_head() + atx_block(id, rep(col("a comment", "COMMENT"), n) + atx_valid("2011     7    16     0     0    0.0000000"), {{"G01", 4, 5, 6}})));
    AntennaPcoList l;
    EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2015), month(1), day_of_month(1)), l) == 0);
    EXPECT(l.__vecref__().size() == 1);
  }
}''')

S("C10-until-first", "C10",
  [("src/antex.cpp", "    if (from_ok && to_ok)\n      break;", "    if (to_ok)\n      break;")],
  "a block whose VALID UNTIL record precedes its VALID FROM record",
  "its satellite is never found (the beginning of the interval was not read)",
  ATX, r'''
#include "antex.hpp"
int main() {
  using namespace ngpt;
  std::string id = "BLOCK IIF           G01                 G063      2011-036A";
  std::string from = atx_valid("2011     7    16     0     0    0.0000000"), until = col("  2019    12    31    23    59   59.0000000", "VALID UNTIL");
  for (auto &v : {from + until, until + from}) {
    Antex a(file("a.atx", atx_head() + atx_block(id, v, {{"G01", 4, 5, 6}})));
    AntennaPcoList l;
    EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2015), month(1), day_of_month(1)), l) == 0);
    EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2010), month(1), day_of_month(1)), l) > 0);
    EXPECT(a.get_antenna_pco(1, SATELLITE_SYSTEM::gps, datetime<seconds>(year(2021), month(1), day_of_month(1)), l) > 0);
  }
}''')

S("C13-end-in-comment", "C13",
  [("src/navrnx.cpp", '         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {', '         !std::strstr(line, "END OF HEADER")) {')],
  "a comment that mentions the END OF HEADER before the header ends",
  "the rest of the header is taken for messages",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  for (const char *c : {"merged from two files", "LINES AFTER THE END OF HEADER WERE MERGED"}) {
    std::string h = nav_head();
    h.insert(h.find('\n') + 1, col(c, "COMMENT"));
    NavigationRnx a(file("n.rnx", h + nav_msg('R', 11, "2019 12 17 00 15 00", glonass(173700))));
    NavDataFrame d;
    EXPECT(a.read_next_record(d) == 0 && d.prn() == 11);
    EXPECT(a.read_next_record(d) < 0);
  }
}''')

S("C19-last-obs", "C19",
  [("src/obsrnx.cpp", """line + 60, "TIME OF FIRST OBS",
                             std::strlen("TIME OF FIRST OBS")""", """line + 60, "TIME OF FIRST OBS",
                             std::strlen("TIME OF")""")],
  "a header with a TIME OF LAST OBS record (behind TIME OF FIRST OBS)",
  "the time of the last observation is taken for that of the first one",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  std::string first = col("  2019    12    17     0     0    0.0000000     GPS", "TIME OF FIRST OBS"), last = col("  2019    12    18    23    59   30.0000000     GPS", "TIME OF LAST OBS");
  datetime<microseconds> t(year(2019), month(12), day_of_month(17));
  for (auto &h : {first, last + first, first + last})
    EXPECT(ObservationRnx(file("o.rnx", obs_head({{'G', {"C1C"}}}, h))).time_of_first_obs() == t);
}''', extra=["obs.hpp"])

S("C19-delta-xyz", "C19",
  [("src/obsrnx.cpp", """line + 60, "ANTENNA: DELTA H/E/N",
                             std::strlen("ANTENNA: DELTA H/E/N")""", """line + 60, "ANTENNA: DELTA H/E/N",
                             std::strlen("ANTENNA: DELTA")""")],
  "a header with an ANTENNA: DELTA X/Y/Z record (of an antenna on a vehicle)",
  "it is taken for the eccentricity of the antenna",
  OBS, r'''
#include "obs.hpp"
static std::string members(const std::string &more) {
  ngpt::ObservationRnx r(file("o.rnx", obs_head({{'G', {"C1C"}}}, more)));
  std::ostringstream o;
  auto *b = std::cout.rdbuf(o.rdbuf());
  r.print_members();
  std::cout.rdbuf(b);
  return o.str();
}
int main() {
  std::string hen = col("        0.0610        0.0000        0.0000", "ANTENNA: DELTA H/E/N"), xyz = col("        1.5000        2.5000        3.5000", "ANTENNA: DELTA X/Y/Z");
  std::string a = members(hen);
  EXPECT(a == members(xyz + hen));
  EXPECT(a == members(hen + xyz));
}''', extra=["obs.hpp"])

S("C22-many-satellite-lines", "C22",
  [("src/sp3c.cpp", """!std::strncmp(line, "+ ", 2)""", """dummy_it < 12 && !std::strncmp(line, "+ ", 2)""")],
  "an SP3-d file of more than about two hundred satellites (more than a dozen satellite lines)",
  "its header is refused",
  SP3, r'''
#include "sp3.hpp"
int main() {
  for (int lines : {5, 8, 15, 40}) {
    std::string t = sp3_head(3);
    size_t at = t.find("+        "), acc = t.find("++ ");
    t.insert(acc, rep("++       " + rep("  2", 17) + "\n", lines - 5));
    t.insert(at, rep("+        " + rep("  0", 17) + "\n", lines - 5));
    t[1] = 'd';
    ngpt::Sp3c s(file("s.sp3", t + sp3_epoch(0) + "EOF\n"));
    EXPECT(s.num_sats() == 3);
  }
}''', extra=["sp3.hpp"])

S("C23-more-than-announced", "C23",
  [("src/sp3c.cpp", "  sats_read = std::distance(vec.begin(), it);", "  sats_read = std::min<int>(std::distance(vec.begin(), it), num_sats__);")],
  "an epoch with more satellites than the header announces",
  "the satellites in excess are not reported",
  SP3, r'''
#include "sp3.hpp"
int main() {
  for (int n : {1, 2, 3, 5}) {
    std::string t = sp3_head(3) + sp3_epoch(0);
    for (int k = 1; k <= n; k++)
      t += sp3_pos('G', k, 1000 * k, 2000, 3000, 1);
    ngpt::Sp3c s(file("s.sp3", t + "EOF\n"));
    auto v = s.allocate_epoch_vector();
    ngpt::datetime<ngpt::microseconds> e;
    int c = 0;
    EXPECT(s.get_next_epoch(e, v, c) == -1 && c == n);
    EXPECT(v[n - 1].prn_ == n);
  }
}''', extra=["sp3.hpp"])

KHEAD = KDEMO[:KDEMO.index("int main")] + r'''
/// the largest difference between filter and reference
static double differ(ngpt::Kalman<5> &k, const Ekf &e) {
  std::string s = shown(k);
  double d = 0;
  size_t p = 0;
  for (int i = 0; i < 5; i++) {
    size_t q = s.find("+/-", p);
    d = std::max(d, std::abs(atof(s.substr(p, q - p).c_str()) - e.x(i)));
    d = std::max(d, std::abs(atof(s.substr(q + 3, 10).c_str()) - std::sqrt(e.P(i, i))));
    p = q + 13;
  }
  return d;
}
static double dist(const std::array<double, 4> &q) {
  return std::sqrt(std::pow(q[0] - 4595210., 2) + std::pow(q[1] - 2039440., 2) + std::pow(q[2] - 3912630., 2));
}
'''
S("C26-many-updates", "C26",
  [("src/gauss_newton.hpp", "    P_(4, 4) += 0.0039e0;\n", "    P_(4, 4) += update_idx < 12 ? 0.0039e0 : 0.0029e0;\n")],
  "more than a dozen updates",
  "the covariance of the drift is no longer that of the model",
  [], KHEAD + r'''
int main() {
  for (double step : {1., 30.}) {
    ngpt::Kalman<5> k({4595220., 2039434., 3912625., 10., 1.}, 1);
    Ekf e({4595220., 2039434., 3912625., 10., 1.}, 1);
    for (int i = 0; i < 30; i++) {
      auto sv = sats(i * step);
      std::vector<double> o, w;
      for (size_t j = 0; j < sv.size(); j++) {
        o.push_back(dist(sv[j]) + 20 + i * .5 - sv[j][3] * 299792458. + (i * 7 + j) % 5);
        w.push_back(j * 10.);
      }
      k.update(o.size(), &o, &sv, step, &w);
      e.update(o, sv, step, w);
      EXPECT(differ(k, e) < 5e-3);
    }
  }
}''', extra=["ekf.hpp"])

S("C26-32-satellites", "C26",
  [("src/gauss_newton.hpp", "    nsats_ = nsats;", "    nsats_ = std::min<int>(nsats, 32);")],
  "an epoch with more than 32 satellites",
  "the satellites in excess are not used",
  [], KHEAD + r'''
int main() {
  for (int n : {6, 32, 40}) {
    ngpt::Kalman<5> k({4595220., 2039434., 3912625., 10., 1.}, 1);
    Ekf e({4595220., 2039434., 3912625., 10., 1.}, 1);
    std::vector<std::array<double, 4>> sv;
    std::vector<double> o, w;
    for (int j = 0; j < n; j++) {
      auto q = sats(j * 100)[j % 6];
      sv.push_back(q);
      o.push_back(dist(q) + 30 - q[3] * 299792458. + (j >= 32 ? 40 : 0));
      w.push_back(5);
    }
    k.update(n, &o, &sv, 30, &w);
    e.update(o, sv, 30, w);
    EXPECT(differ(k, e) < 5e-3);
  }
}''', extra=["ekf.hpp"])

S("C29-epoch-mark", "C29",
  [("src/obsrnx.cpp", "if (*cline != '>' || lnlen < 35) {", "if (lnlen < 35) {")],
  "an epoch line whose '>' is damaged, or data that are out of step with the epoch lines",
  "it is read as an epoch all the same",
  OBS, r'''
#include "obs.hpp"
int main() {
  using namespace ngpt;
  for (char c : {'>', '?'}) {
    std::string e = obs_epoch("2019 12 17 00 00  0.0000000", 1);
    e[0] = c;
    Reader r(file("o.rnx", obs_head({{'G', {"C1C"}}}) + e + obs_sat('G', 1, {2.1e7})), {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}});
    int s = r.next();
    EXPECT(c == '>' ? s == 0 : s > 0);
  }
}''', extra=["obs.hpp"])

BERN2 = r'''
#include "bern.hpp"
int main() {
  using namespace ngpt;
  auto part3 = "\n\nPART 3: ATTITUDE\n";
  BernSatellit a(file("A.BSW", bern_head() + bern_rec(101, "MW", "701", "2001 12 01 00 00 00", "", 3) + part3));
  BernSatellit b(file("B.BSW", bern_head() + bern_rec(108, "MW", "701", "2001 12 01 00 00 00", "", -5) + part3));
  datetime<seconds> t(year(2019), month(1), day_of_month(1));
  int f = 0, p = 0;
  EXPECT(b.get_frequency_channel(701, t, f, p) == 0 && f == -5 && p == 108);
  EXPECT(b.get_frequency_channel(701, t, f, p) == 0 && f == -5 && p == 108);
  EXPECT(a.get_frequency_channel(701, t, f, p) == 0 && f == 3 && p == 101);
  EXPECT(b.get_frequency_channel(701, t, f, p) == 0 && f == -5 && p == 108);
  EXPECT(a.get_frequency_channel(702, t, f, p) == -1);
}'''
S("C35-remembered-record", "C35",
  [("src/bern_utils.cpp", "  int line_count = 0, csvn;\n", "  int line_count = 0;\n  static int csvn = 0, cprn, cchn;\n  static ngpt::datetime<ngpt::seconds> cstart, cstop;\n  // the same satellite is often asked for again and again\n  if (csvn == svn && svn && eph >= cstart && eph < cstop) {\n    prn = cprn;\n    ifrqn = cchn;\n    return 0;\n  }\n"),
   ("src/bern_utils.cpp", "        if (eph >= start && eph < stop) {\n", "        cstart = cstop = start;\n        if (eph >= start && eph < stop) {\n"),
   ("src/bern_utils.cpp", "            return 3;\n          } else {\n            return 0;", "            return 3;\n          } else {\n            cprn = prn;\n            cchn = ifrqn;\n            cstart = start;\n            cstop = stop;\n            return 0;")],
  "two SATELLIT files that are used alternately",
  "a query of one file is answered from what was found in the other one",
  BERN, BERN2, extra=["bern.hpp"])

S("C35-static-line", "C35",
  [("src/bern_utils.cpp", "  const int max_lines = 1000;\n  char line[MAX_SATELLIT_CHARS];\n\n  // The stream should be open by now!\n  if (!__istream.is_open())\n    return 1;\n\n  // Go to the top of the relevant", "  const int max_lines = 1000;\n  static char line[MAX_SATELLIT_CHARS];\n\n  // The stream should be open by now!\n  if (!__istream.is_open())\n    return 1;\n\n  // Go to the top of the relevant")],
  "two SATELLIT files that are used in two threads at the same time",
  "the threads overwrite each other's lines",
  BERN, r'''
#include "bern.hpp"
#include <thread>
int main() {
  using namespace ngpt;
  auto part3 = "\n\nPART 3: ATTITUDE\n";
  std::string rec, rec2;
  for (int k = 1; k < 60; k++) {
    rec += bern_rec(k, "MW", fmt("%03d", 700 + k).c_str(), "2001 12 01 00 00 00", "", k % 7);
    rec2 += bern_rec(100 + k, "MW", fmt("%03d", 700 + k).c_str(), "2001 12 01 00 00 00", "", -(k % 7));
  }
  file("A.BSW", bern_head() + rec + part3);
  file("B.BSW", bern_head() + rec2 + part3);
  datetime<seconds> t(year(2019), month(1), day_of_month(1));
  auto work = [&](const char *n, int add, int sign) {
    BernSatellit b(n);
    for (int r = 0; r < 150; r++)
      for (int k = 1; k < 60; k++) {
        int f = 99, p = 0;
        int s = b.get_frequency_channel(700 + k, t, f, p);
        EXPECT(s == 0 && f == sign * (k % 7) && p == add + k);
      }
  };
  std::thread x([&] { work("A.BSW", 0, 1); }), y([&] { work("B.BSW", 100, -1); });
  x.join();
  y.join();
}''', extra=["bern.hpp"], flags="-pthread")

PYHEAD = r'''#!/bin/bash
# Demonstration for ggnss; run in the top directory of the repository.
# Everything is written to a scratch directory.
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
'''
SP3FILE = r'''
head() { # version, lines of satellites
cat <<'EOS' | sed "s/^#c/#$1/"
#cP2019 12 17  0  0  0.00000000       2 ORBIT IGS14 HLM  IGS
## 2084 172800.00000000   900.00000000 58834 0.0000000000000
+    3   G01G07G09  0  0  0  0  0  0  0  0  0  0  0  0  0  0
+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         2  2  2  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
++         0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0
%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc
%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc
%f  0.0000000  0.000000000  0.00000000000  0.000000000000000
%f  0.0000000  0.000000000  0.00000000000  0.000000000000000
%i    0    0    0    0      0      0      0      0         0
%i    0    0    0    0      0      0      0      0         0
/* a comment
/* a comment
/* a comment
/* a comment
EOS
}
'''
S("C33-velocity-lines", "C33",
  [("var/sp3py.py", "elif line[0] in ['E', 'V']:", "elif line[0] in ['E']:")],
  "a file with velocity records",
  "nothing behind the first velocity record is extracted",
  [], PYHEAD + SP3FILE + r'''
for v in 0 1; do
  {
    head c
    for m in 00 15; do
      echo "*  2019 12 17  0 $m  0.00000000"
      for s in G01 G07 G09; do
        echo "P$s  10000.000000 -20000.123456   1500.000000    123.456789"
        [ $v = 1 ] && echo "V$s  10000.000000 -20000.123456   1500.000000    123.456789"
      done
    done
    echo EOF
  } >"$work/f$v.sp3"
  python3 var/sp3py.py -i "$work/f$v.sp3" -s G7 >"$work/o$v" || { echo FAILED status; exit 1; }
done
[ "$(grep -c 2019-12-17 "$work/o0")" = 2 ] && cmp "$work/o0" "$work/o1" || { echo FAILED; exit 1; }
''')

S("C33-clock-column", "C33",
  [("var/sp3py.py", "cms     = float(line[46:60])", "cms     = float(line[46:59])")],
  "a clock whose last digit is not zero",
  "the last digit of the clock is lost",
  [], PYHEAD + SP3FILE + r'''
{
  head d
  echo "*  2019 12 17  0  0  0.00000000"
  echo "PG01  10000.000000 -20000.123456   1500.000000    123.456780"
  echo "PG07  10000.000000 -20000.123456   1500.000000   -123.456789"
  echo EOF
} >"$work/f.sp3"
a=$(python3 var/sp3py.py -i "$work/f.sp3" -s G01) || exit 1
b=$(python3 var/sp3py.py -i "$work/f.sp3" -s G07) || exit 1
[[ $a == *"    +123.456780" ]] && [[ $b == *"    -123.456789" ]] || { echo FAILED; exit 1; }
''')

S("C34-last-match", "C34",
  [("var/pasteoncol.py", "      matching_l=ln\n      break", "      matching_l=ln")],
  "a first column that is in several lines of the other file",
  "the last one of the matching lines is pasted rather than the first one",
  [], PYHEAD + r'''
printf '"2019-12-17 00:00:00" 1\n"2019-12-17 00:15:00" 2\n"2019-12-17 00:30:00" 3\n' >"$work/a"
printf '"2019-12-17 00:15:00" x\n"2019-12-17 00:15:00" y\n' >"$work/b"
o=$(python3 var/pasteoncol.py "$work/a" "$work/b") || exit 1
[ "$o" = '"2019-12-17 00:15:00" 2 "2019-12-17 00:15:00" x' ] || { echo FAILED; exit 1; }
printf '"2019-12-17 00:15:00" x\n' >"$work/b"
o=$(python3 var/pasteoncol.py "$work/b" "$work/a") || exit 1
[ "$o" = '"2019-12-17 00:15:00" 2 "2019-12-17 00:15:00" x' ] || { echo FAILED; exit 1; }
''')

S("C34-equally-long", "C34",
  [("var/pasteoncol.py", "if len(lines1) > len(lines2):", "if len(lines1) >= len(lines2):")],
  "two files of equally many lines",
  "the columns of the files are exchanged",
  [], PYHEAD + r'''
printf 'a 1\nb 2\nc 3\n' >"$work/a"
printf 'c x\na y\n' >"$work/b"
[ "$(python3 var/pasteoncol.py "$work/a" "$work/b" | tr '\n' /)" = "a 1 a y/c 3 c x/" ] || { echo FAILED; exit 1; }
printf 'c x\na y\nq z\n' >"$work/b"
[ "$(python3 var/pasteoncol.py "$work/a" "$work/b" | tr '\n' /)" = "c x c 3/a y a 1/" ] || { echo FAILED; exit 1; }
''')


WINDOW = r'''
#include "sp3.hpp"
#include "ggdatetime/datetime_write.hpp"
static std::string orbits() {
  std::string t = sp3_head(2);
  for (int m = 0; m < 60; m += 5)
    t += sp3_epoch(m) + sp3_pos('G', 1, 1000 + m, 2000, 3000, 1) + sp3_pos('G', 2, 5000 + m, 2000, 3000, 1);
  return t + "EOF\n";
}
/// x of the first satellite of the next epoch
static double next(ngpt::Sp3c &s) {
  auto v = s.allocate_epoch_vector();
  ngpt::datetime<ngpt::microseconds> e;
  int c = 0;
  return s.get_next_epoch(e, v, c) ? -1 : v[0].vals_[0] / 1e3;
}
'''
S("C36-rewind", "C36",
  [("src/sp3c.hpp", "  int initialize() {\n    sp3_->rewind();\n", "  int initialize() {\n    if (tvec_.empty() && running_sv)\n      sp3_->rewind();\n")],
  "epochs of the file read before the window is filled",
  "the window begins in the middle of the file",
  SP3, WINDOW + r'''
int main() {
  for (int before : {0, 1, 3}) {
    ngpt::Sp3c s(file("s.sp3", orbits()));
    ngpt::LagrangeSp3Interpolator<450> l(s);
    for (int k = 0; k < before; k++)
      next(s);
    EXPECT(!l.initialize());
    EXPECT(next(s) == 1015); // the fourth
  }
}''', extra=["sp3.hpp"])
S("C36-interval-fraction", "C36",
  [("src/sp3c.hpp", "K((2 * SEC * 1000000L) / sp3_->interval().as_underlying_type() + 1)", "K((2 * SEC) / std::lround(sp3_->interval().to_fractional_seconds()) + 1)"),
   ("src/sp3c.hpp", "#include <array>\n", "#include <array>\n#include <cmath>\n")],
  "an interval that is not a whole number of seconds",
  "the window is an epoch longer",
  SP3, WINDOW + r'''
int main() {
  for (int d : {0, 1}) {
    std::string t = orbits();
    if (d) // 1800 / 900.4 = 1.999
      t.replace(t.find("   900.00000000"), 15, "   900.40000000");
    ngpt::Sp3c s(file("s.sp3", t));
    ngpt::LagrangeSp3Interpolator<900> l(s);
    EXPECT(!l.initialize());
    EXPECT(next(s) == (d ? 1015 : 1020));
  }
}''', extra=["sp3.hpp"])
S("C36-empty-epoch", "C36",
  [("src/sp3c.hpp", "while (!j && k < K + 1)", "while (!j && k <= K && (k < 2 || nsats > 0))")],
  "an epoch without satellites within the window",
  "the window ends there",
  SP3, WINDOW + r'''
int main() {
  for (int d : {0, 1}) {
    std::string t = orbits();
    if (d)
      t.insert(t.find("*  2019 12 17  0 10"), sp3_epoch(8));
    ngpt::Sp3c s(file("s.sp3", t));
    ngpt::LagrangeSp3Interpolator<900> l(s);
    EXPECT(!l.initialize());
    EXPECT(next(s) == (d ? 1015 : 1020));
  }
}''', extra=["sp3.hpp"])

# what only shows in the production configuration (no DEBUG, -O2)
S("C13-production-position", "C13",
  [("src/navrnx.cpp", """#ifdef DEBUG
  if (!__istream.good())
    return 50;
#endif
  curpos = __istream.tellg();
""", """#ifdef DEBUG
  if (!__istream.good())
    return 50;
  curpos = __istream.tellg();
#endif
""")],
  "a build without DEBUG, and a search whose start position is used afterwards",
  "the position the search started from is not reported",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  NavigationRnx a(file("n.rnx", nav_head() + nav_msg('G', 11, "2019 12 17 00 00 00", kepler(172800, 2084)) +
                       nav_msg('G', 12, "2019 12 17 00 00 00", kepler(172800, 2084))));
  NavDataFrame d;
  NavigationRnx::pos_type p(0), q(0);
  EXPECT(a.find_next(p, d, SATELLITE_SYSTEM::gps) == 0);
  EXPECT(a.find_next(q, d, SATELLITE_SYSTEM::gps) == 0);
  EXPECT(d.prn() == 12);
  EXPECT(p != q);
  a.rewind(q);
  EXPECT(a.read_next_record(d) == 0 && d.prn() == 12);
  a.rewind(p);
  EXPECT(a.read_next_record(d) == 0 && d.prn() == 11);
}''', flags="-UDEBUG")
S("C28-production-failed-stream", "C28",
  [("src/navrnx.cpp", """#ifdef DEBUG
  if (!__istream.good())
    return 50;
#endif
  int c;
  if ((c = __istream.peek()) != EOF) {
    int status = nav.set_from_rnx3(__istream);""", """#ifdef DEBUG
  if (!__istream.good())
    return 50;
#endif
  int c = __istream.peek();
  if (__istream.fail() && !__istream.eof())
    return 0;
  if (c != EOF) {
    int status = nav.set_from_rnx3(__istream);""")],
  "a build without DEBUG, and reading on after a line that is too long",
  "messages the file does not hold are reported without end",
  NAV, r'''
#include "navrnx.hpp"
int main() {
  using namespace ngpt;
  std::string m = nav_msg('G', 11, "2019 12 17 00 00 00", kepler(172800, 2084));
  for (int d : {0, 1}) {
    NavigationRnx a(file("n.rnx", nav_head() + m + (d ? std::string(300, ' ') + "\n" : "") + m));
    NavDataFrame f;
    int ok = 0;
    for (int i = 0; i < 20; i++)
      ok += a.read_next_record(f) == 0;
    EXPECT(ok <= 2);
    EXPECT(d || ok == 2);
  }
}''', flags="-UDEBUG")
S("C20-production-number", "C20",
  [("src/obsrnx.cpp", """#ifdef DEBUG
  assert(vals.size() >= sysobs.size());
#endif

  std::memset(tbuf, '\\0', 17);
""", """#ifdef DEBUG
  assert(vals.size() >= sysobs.size());
  std::memset(tbuf, '\\0', 17);
#endif

""")],
  "a build without DEBUG",
  "the satellite number is followed by what is left on the stack",
  OBS, r'''
#include "obs.hpp"
__attribute__((noinline)) static void dirty() {
  volatile char b[4096];
  for (size_t i = 0; i < sizeof b; i++)
    b[i] = '3';
}
int main() {
  using namespace ngpt;
  std::string t = obs_head({{'G', {"C1C"}}});
  for (int i = 1; i < 40; i++)
    t += obs_epoch("2019 12 17 00 00  0.0000000", 1) + obs_sat('G', i % 30 + 1, {2e7 + i});
  Reader r(file("o.rnx", t), {{SATELLITE_SYSTEM::gps, {raw(SATELLITE_SYSTEM::gps, "C1C")}}});
  for (int i = 1; i < 40; i++) {
    dirty();
    EXPECT(r.next() == 0 && r.n == 1);
    EXPECT(r.v[0].first.prn() == i % 30 + 1 && r.v[0].second[0] == 2e7 + i);
  }
}''', extra=["obs.hpp"], flags="-UDEBUG -O0")
