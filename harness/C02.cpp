// C02 satellite systems: letters, nominal frequencies, attributes, constants
#define PBT_MAIN
#include "pbt.hpp"
#include "gnssobsrv.hpp"
#include "satsys.hpp"
using namespace pbt;
using namespace ngpt;

// reference tables: RINEX 3.02 tables 2, 4-10 and the interface control
// documents of the systems
struct Ref {
  SATELLITE_SYSTEM s;
  char c;
  std::map<int, double> f;
  std::map<int, std::string> a;
};
static const std::vector<Ref> R = {
    {SATELLITE_SYSTEM::gps, 'G',
     {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}},
     {{1, "CSLXPWYMN"}, {2, "CDSLXPWYMN"}, {5, "IQX"}}},
    {SATELLITE_SYSTEM::glonass, 'R',
     {{1, 1602.0}, {2, 1246.0}, {3, 1202.025}},
     {{1, "CP"}, {2, "CP"}, {3, "IQX"}}},
    {SATELLITE_SYSTEM::sbas, 'S', {{1, 1575.42}, {5, 1176.45}}, {{1, "C"}, {5, "IQX"}}},
    {SATELLITE_SYSTEM::galileo, 'E',
     {{1, 1575.42}, {5, 1176.45}, {7, 1207.14}, {8, 1191.795}, {6, 1278.75}},
     {{1, "ABCXZ"}, {5, "IQX"}, {7, "IQX"}, {8, "IQX"}, {6, "ABCXZ"}}},
    {SATELLITE_SYSTEM::beidou, 'C',
     {{1, 1561.098}, {2, 1207.14}, {3, 1268.52}},
     {{1, "IQX"}, {2, "IQX"}, {3, "IQX"}}},
    {SATELLITE_SYSTEM::qzss, 'J',
     {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}, {6, 1278.75}},
     {{1, "CSLXZ"}, {2, "SLX"}, {5, "IQX"}, {6, "SLX"}}},
    {SATELLITE_SYSTEM::irnss, 'I', {{5, 1176.45}, {9, 2492.028}},
     {{5, "ABCX"}, {9, "ABCX"}}},
    {SATELLITE_SYSTEM::mixed, 'M', {}, {}}};

template <SATELLITE_SYSTEM S> using T = satellite_system_traits<S>;
static const std::map<int, double> *fmap(int k) {
  switch (k) {
  case 0: return &T<SATELLITE_SYSTEM::gps>::frequency_map;
  case 1: return &T<SATELLITE_SYSTEM::glonass>::frequency_map;
  case 2: return &T<SATELLITE_SYSTEM::sbas>::frequency_map;
  case 3: return &T<SATELLITE_SYSTEM::galileo>::frequency_map;
  case 4: return &T<SATELLITE_SYSTEM::beidou>::frequency_map;
  case 5: return &T<SATELLITE_SYSTEM::qzss>::frequency_map;
  case 6: return &T<SATELLITE_SYSTEM::irnss>::frequency_map;
  }
  return nullptr;
}
static const std::map<int, std::string> *amap(int k) {
  switch (k) {
  case 0: return &T<SATELLITE_SYSTEM::gps>::valid_atributes;
  case 1: return &T<SATELLITE_SYSTEM::glonass>::valid_atributes;
  case 2: return &T<SATELLITE_SYSTEM::sbas>::valid_atributes;
  case 3: return &T<SATELLITE_SYSTEM::galileo>::valid_atributes;
  case 4: return &T<SATELLITE_SYSTEM::beidou>::valid_atributes;
  case 5: return &T<SATELLITE_SYSTEM::qzss>::valid_atributes;
  case 6: return &T<SATELLITE_SYSTEM::irnss>::valid_atributes;
  }
  return nullptr;
}
static double b2f(int k, int b) {
  switch (k) {
  case 0: return T<SATELLITE_SYSTEM::gps>::band2frequency(b);
  case 2: return T<SATELLITE_SYSTEM::sbas>::band2frequency(b);
  case 3: return T<SATELLITE_SYSTEM::galileo>::band2frequency(b);
  case 4: return T<SATELLITE_SYSTEM::beidou>::band2frequency(b);
  case 5: return T<SATELLITE_SYSTEM::qzss>::band2frequency(b);
  case 6: return T<SATELLITE_SYSTEM::irnss>::band2frequency(b);
  }
  throw std::out_of_range("no such function");
}

static void letters(Src &s) {
  int v = s.u(255);
  char c = char(v);
  s.note([&] { return fmt("letter %d", v); });
  s.nontrivial();
  const Ref *r = nullptr;
  for (auto &x : R)
    if (x.c == c)
      r = &x;
  bool threw = false;
  SATELLITE_SYSTEM y = SATELLITE_SYSTEM::mixed;
  try {
    y = char_to_satsys(c);
  } catch (std::runtime_error &) {
    threw = true;
  }
  CHECK(threw == !r, "letter-accept", "character %d: threw=%d", v, threw);
  if (r) {
    CHECK(y == r->s, "letter-map", "character %c", c);
    CHECK(satsys_to_char(y) == c, "letter-back", "character %c gives %c", c,
          satsys_to_char(y));
  }
}

static void bands(Src &s) {
  int k = s.u(6);
  int band = s.p(1, 20) ? int(s.iz(-1000000, 1000000)) : int(s.iz(-3, 15));
  const Ref &r = R[k];
  s.note([&] { return fmt("system %c band %d", r.c, band); });
  s.nontrivial();
  auto it = r.f.find(band);
  auto *m = fmap(k);
  CHECK(m->size() == r.f.size(), "bands", "%zu bands of %c", m->size(), r.c);
  auto jt = m->find(band);
  CHECK((it == r.f.end()) == (jt == m->end()), "band", "%c band %d", r.c, band);
  s.label(it == r.f.end() ? "no such band" : "band");
  if (it != r.f.end())
    CHECK(std::abs(jt->second - it->second) < 1e-9, "frequency",
          "%c%d is %.6f MHz", r.c, band, jt->second);
  if (k != 1) {
    bool threw = false;
    double f = 0;
    try {
      f = b2f(k, band);
    } catch (std::out_of_range &) {
      threw = true;
    }
    CHECK(threw == (it == r.f.end()), "b2f-throw", "%c%d", r.c, band);
    if (!threw)
      CHECK(std::abs(f - it->second) < 1e-9, "b2f", "%c%d gives %.6f", r.c, band, f);
  }
  // frequency of a one-part observable
  GnssRawObservable raw(r.s, ObservationCode(OBSERVABLE_TYPE::carrier_phase, band,
                                             ObservationAttribute('C')));
  bool threw = false;
  double f = 0;
  try {
    f = __ObsPart(raw).frequency();
  } catch (std::out_of_range &) {
    threw = true;
  }
  if (k == 1)
    CHECK(!threw && f == 0, "glonass-freq", "glonass frequency %.3f", f);
  else {
    CHECK(threw == (it == r.f.end()), "part-throw", "%c%d", r.c, band);
    if (!threw)
      CHECK(std::abs(f - it->second) < 1e-9, "part", "%c%d gives %.6f", r.c, band, f);
  }
}

static void attributes(Src &s) {
  int k = s.u(6);
  const Ref &r = R[k];
  int n = 0;
  std::vector<int> bs;
  for (auto &x : r.a)
    bs.push_back(x.first);
  int band = s.pick(bs);
  char c = char(s.i(33, 126));
  (void)n;
  s.note([&] { return fmt("system %c band %d attribute %c", r.c, band, c); });
  s.nontrivial();
  auto *m = amap(k);
  CHECK(m->size() == r.a.size(), "attr-bands", "%c", r.c);
  auto it = m->find(band);
  CHECK(it != m->end(), "attr-band", "%c%d", r.c, band);
  bool want = c == '?' || r.a.at(band).find(c) != std::string::npos;
  CHECK((it->second.find(c) != std::string::npos) == want, "attr",
        "%c band %d attribute %c", r.c, band, c);
}

static void constants(Src &s) {
  int k = s.u(2);
  s.note([&] { return fmt("constants %d", k); });
  double mi, om, f, rm, ro, rf;
  if (k == 0) {
    using X = T<SATELLITE_SYSTEM::gps>;
    mi = X::mi(), om = X::omegae_dot(), f = X::f_clock();
    rm = 3.986005e14, ro = 7.2921151467e-5, rf = -4.442807633e-10;
  } else if (k == 1) {
    using X = T<SATELLITE_SYSTEM::galileo>;
    mi = X::mi(), om = X::omegae_dot(), f = X::f_clock();
    rm = 3.986004418e14, ro = 7.2921151467e-5, rf = -4.442807309e-10;
  } else {
    using X = T<SATELLITE_SYSTEM::beidou>;
    mi = X::mi(), om = X::omegae_dot(), f = X::f_clock();
    rm = 3.986004418e14, ro = 7.2921150e-5;
    rf = -2 * std::sqrt(rm) / (299792458.0 * 299792458.0);
  }
  s.nontrivial();
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-14 * std::abs(b); };
  CHECK(close(mi, rm), "mi", "system %d mi %.12e", k, mi);
  CHECK(close(om, ro), "omega", "system %d omega %.12e", k, om);
  CHECK(std::abs(f - rf) <= 1e-12 * std::abs(rf), "fclock", "system %d F %.12e", k, f);
  // metamorphic: F = -2 sqrt(mi)/c^2 to the digits the documents give
  CHECK(std::abs(f + 2 * std::sqrt(mi) / (299792458.0 * 299792458.0)) < 5e-16,
        "fclock-law", "F=%.12e", f);
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C02";
  e.rule = "random letters (all 256), (system, band) pairs over band numbers "
           "-1e6..1e6 dense around -3..15, (system, band, attribute) triples "
           "over all printable attributes, and the orbit constants, against "
           "tables transcribed from the RINEX 3.02 and interface documents. "
           "Every case is non-trivial; the space of letters, bands -3..15 and "
           "attributes is covered completely many times over";
  e.subs = {{"letters", 20000, 100000, letters},
            {"bands", 300000, 3000000, bands},
            {"attributes", 200000, 2000000, attributes},
            {"constants", 2000, 2000, constants}};
  return e.main(argc, argv);
}
