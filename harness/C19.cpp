// C19 observation RINEX headers are understood completely
#define PBT_MAIN
#include "pbt.hpp"
#include "obs_gen.hpp"
#include <sstream>
using namespace pbt;
using namespace obs;

static std::string shown(double x) {
  std::ostringstream o;
  o << x;
  return o.str();
}
/// what print_members says behind a label
static std::string member(const std::string &all, const std::string &label) {
  size_t at = all.find("\n" + label);
  if (at == std::string::npos)
    return "(no such line)";
  at = all.find(':', at) + 1;
  return all.substr(at, all.find('\n', at) - at);
}
static std::string clean(std::string t) {
  while (!t.empty() && (t.back() == ' ' || t.back() == '\n'))
    t.pop_back();
  return t;
}
static void compare(const Head &h, ObservationRnx &r, const char *what) {
  CHECK(r.x_approx() == strtod(fmt("%.4f", h.xyz[0]).c_str(), nullptr) &&
            r.y_approx() == strtod(fmt("%.4f", h.xyz[1]).c_str(), nullptr) &&
            r.z_approx() == strtod(fmt("%.4f", h.xyz[2]).c_str(), nullptr),
        "position", "%s: approximate position %.4f %.4f %.4f", what, r.x_approx(), r.y_approx(),
        r.z_approx());
  CHECK(size_t(r.max_obs()) == h.maxobs(), "max_obs", "%s: max_obs %d, expected %zu", what, r.max_obs(),
        h.maxobs());
  Epoch e;
  e.y = h.y;
  e.mo = h.mo;
  e.d = h.d;
  auto t = r.time_of_first_obs();
  long us = std::lround((h.h * 3600. + h.mi * 60. + strtod(h.s.c_str(), nullptr)) * 1e6);
  CHECK(t.mjd().as_underlying_type() == e.mjd() && t.sec().as_underlying_type() == us, "first",
        "%s: time of first observation mjd %ld, %ld us, expected %ld, %ld", what,
        long(t.mjd().as_underlying_type()), long(t.sec().as_underlying_type()), e.mjd(), us);
  std::string m = capture_stdout([&] { r.print_members(); });
  std::string types;
  auto is = [&](const char *label, std::string want) {
    std::string g = clean(member(m, label));
    CHECK(g == clean(want), label, "%s: [%s], expected [%s]", what, g.c_str(), clean(want).c_str());
  };
  is("Satellite Sys", std::string(1, h.satsys));
  is("Version", shown(strtof(h.version.c_str(), nullptr)));
  is("Marker Name", h.marker);
  is("Marker Number", h.number);
  is("Receiver Sn", h.rec);
  is("Receiver Type", h.rectype);
  std::string a = pad(h.ant, 16);
  if (rstrip(h.ant).size() <= 16)
    a += "NONE";
  a = pad(a, 20);
  is("Antenna Type", h.serial.empty() ? a : a + h.serial);
  is("Antenna Sn", h.serial.empty() ? "0" : "1");
  is("Approx. Pos.", shown(r.x_approx()) + ", " + shown(r.y_approx()) + ", " + shown(r.z_approx()));
  std::string ecc;
  for (int k = 0; k < 3; k++)
    ecc += (k ? ", " : "") + shown(strtod(fmt("%.4f", h.hen[k]).c_str(), nullptr));
  is("Eccentricity", ecc);
  is("Rcv Clk Off", h.rcv == 1 ? "Yes" : "No");
  // one line per system, whatever the order of systems
  size_t lines = 0;
  for (auto &x : h.types) {
    std::string l = std::string("\n") + x.first;
    for (auto &c : x.second)
      l += " " + c;
    size_t at = m.find(l);
    CHECK(at != std::string::npos && (at + l.size() == m.size() || m[at + l.size()] == '\n'), "types",
          "%s: types of observation of %c are not%s", what, x.first, l.substr(1).c_str());
    ++lines;
  }
  size_t got = 0;
  for (size_t at = m.find("\nRcv Clk Off"); (at = m.find('\n', at + 1)) != std::string::npos;)
    ++got;
  CHECK(got == lines, "types", "%s: %zu systems, expected %zu", what, got, lines);
}
static void fields(Src &s) {
  File f;
  f.head = header(s);
  const Head &h = f.head;
  std::string fn = write_file(f.text(), "f");
  s.note([&] {
    std::string t;
    for (auto &l : h.lines)
      t += l + "\n";
    return t;
  });
  bool more = false, full = false;
  for (auto &t : h.types) {
    more |= t.second.size() > 13;
    full |= t.second.size() % 13 == 0;
  }
  s.label(full ? "multiple of 13 types" : more ? "continued types" : "short types");
  if (h.order.size() > 1)
    s.nontrivial();
  if (s.flip())
    errno = ERANGE; // of no concern here
  std::unique_ptr<ObservationRnx> r;
  std::string note = capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  compare(h, *r, "read");
  if (s.p(1, 4)) {
    ObservationRnx m(std::move(*r));
    r.reset();
    compare(h, m, "moved");
  }
}
static void accept(Src &s) {
  File f;
  f.head = header(s);
  auto &L = f.head.lines;
  auto find = [&](const char *label) {
    for (size_t k = 0; k < L.size(); k++)
      if (L[k].size() > 60 && !L[k].compare(60, strlen(label), label))
        return k;
    return size_t(0);
  };
  int bad = s.u(11);
  size_t k;
  switch (bad) {
  case 0:
    break;
  case 1:
    L[0][20] = s.chr("NMGHCSo ");
    break;
  case 2:
    L[0][40] = s.chr(" XAB0gr");
    break;
  case 3:
    L[0].replace(0, 20, pad("     RNX", 20));
    break;
  case 4:
    L.pop_back();
    break;
  case 5: // an unknown system
    L[find("SYS / # / OBS TYPES")][0] = s.chr("XAB0gr");
    break;
  case 6: // a system twice
    k = find("SYS / # / OBS TYPES");
    L.insert(L.begin() + k, col("G    1 C1C", "SYS / # / OBS TYPES"));
    L.insert(L.begin() + k, col("G    1 C1C", "SYS / # / OBS TYPES"));
    break;
  case 7: // an unknown type
    k = find("SYS / # / OBS TYPES");
    L[k][7] = s.chr("YZ1c");
    break;
  case 8: // more types announced than follow
    k = find("SYS / # / OBS TYPES");
    L[k].replace(3, 3, "999");
    break;
  case 9: // not a date
    k = find("TIME OF FIRST OBS");
    L[k].replace(6, 6, s.flip() ? "    13" : "     0");
    break;
  case 10: // not a number
    k = find(s.flip() ? "APPROX POSITION XYZ" : "ANTENNA: DELTA H/E/N");
    L[k].replace(14 * s.u(2), 14, s.flip() ? std::string(14, ' ') : "      x.0     ");
    break;
  default: // many lines
    L.insert(L.begin() + 1, s.i(100, 900), col("a comment", "COMMENT"));
  }
  bool ok = bad == 0 || bad == 11, got = true;
  s.label(fmt("header %d", bad));
  s.nontrivial();
  std::string fn = write_file(f.text(), "f");
  s.note([&] {
    std::string t;
    if (bad != 11)
      for (auto &l : L)
        t += l + "\n";
    return t;
  });
  std::string why;
  capture_stdout([&] {
    try {
      ObservationRnx r(fn.c_str());
    } catch (std::runtime_error &e) {
      got = false;
      why = e.what();
    }
  });
  CHECK(got || !ok, "refused", "a good header was refused: %s", why.c_str());
  CHECK(!got || ok, "accepted", "a header with defect %d was accepted", bad);
  bool threw = false;
  try {
    ObservationRnx r((fn + ".absent").c_str());
  } catch (std::runtime_error &) {
    threw = true;
  }
  CHECK(threw, "absent", "an absent file was accepted");
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C19";
  e.rule = "random headers: records in any order, names with blanks and of full "
           "width, numbers that fill their columns, 1-5 systems of 1-28 types "
           "(often 13 or 26); one of eleven defects or none. Non-trivial: two or "
           "more systems; every header with or without a defect";
  e.subs = {{"fields", 20000, 250000, fields}, {"accept", 10000, 100000, accept}};
  return e.main(argc, argv);
}
