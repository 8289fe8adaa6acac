// C03 observables: linear combinations of coded observations
#define PBT_MAIN
#include "pbt.hpp"
#include "gnssobsrv.hpp"
using namespace pbt;
using namespace ngpt;

struct Sys {
  SATELLITE_SYSTEM s;
  char c;
  std::map<int, double> f;
};
static const std::vector<Sys> SY = {
    {SATELLITE_SYSTEM::gps, 'G', {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}}},
    {SATELLITE_SYSTEM::glonass, 'R', {{1, 0}, {2, 0}, {3, 0}}},
    {SATELLITE_SYSTEM::sbas, 'S', {{1, 1575.42}, {5, 1176.45}}},
    {SATELLITE_SYSTEM::galileo, 'E',
     {{1, 1575.42}, {5, 1176.45}, {6, 1278.75}, {7, 1207.14}, {8, 1191.795}}},
    {SATELLITE_SYSTEM::beidou, 'C', {{1, 1561.098}, {2, 1207.14}, {3, 1268.52}}},
    {SATELLITE_SYSTEM::qzss, 'J',
     {{1, 1575.42}, {2, 1227.60}, {5, 1176.45}, {6, 1278.75}}},
    {SATELLITE_SYSTEM::irnss, 'I', {{5, 1176.45}, {9, 2492.028}}},
    {SATELLITE_SYSTEM::mixed, 'M', {{0, 0}, {1, 0}}}};
static const OBSERVABLE_TYPE TV[] = {
    OBSERVABLE_TYPE::pseudorange, OBSERVABLE_TYPE::carrier_phase,
    OBSERVABLE_TYPE::doppler, OBSERVABLE_TYPE::signal_strength};
static const char TC[] = "CLDS";

struct Part {
  int sys, type, band;
  char attr;
  double coef;
  bool operator==(const Part &o) const {
    return sys == o.sys && type == o.type && band == o.band && attr == o.attr &&
           coef == o.coef;
  }
  std::string str() const {
    return fmt("%c::%c%d%c*%f", SY[sys].c, TC[type], band, attr, coef);
  }
  ObservationCode code() const {
    return ObservationCode(TV[type], band, ObservationAttribute(attr));
  }
};

// small = few distinct parts, so that equal and duplicate parts are common
static Part draw(Src &s, bool small) {
  Part p;
  p.sys = small ? (s.p(1, 6) ? 3 : 0) : int(s.u(7));
  p.type = small ? s.u(1) : s.u(3);
  std::vector<int> b;
  for (auto &x : SY[p.sys].f)
    b.push_back(x.first);
  p.band = small ? 1 : s.pick(b);
  p.attr = small ? s.chr("CP") : s.chr("CPWXIQ?");
  if (small)
    p.coef = s.pick(std::vector<double>{1, -1, 2.5457277801631593, 2.5457277, 2.5457277801631597, 1 + 1e-9, 1 - 1e-12});
  else if (s.flip())
    p.coef = s.dec(-50, 50, 6);
  else
    p.coef = s.pick(std::vector<double>{1, -1, 0, 60, 77, -1.5457277801631593,
                                        2.5457277801631593, 154, -120});
  return p;
}
static GnssObservable build(const std::vector<Part> &v, int how) {
  const Part &p = v[0];
  GnssObservable o =
      (how & 1)
          ? (p.coef == 1 && (how & 4) ? GnssObservable(GnssRawObservable(SY[p.sys].s, p.code()))
                                      : GnssObservable(GnssRawObservable(SY[p.sys].s, p.code()), p.coef))
          : (p.coef == 1 && (how & 4) ? GnssObservable(SY[p.sys].s, p.code())
                                      : GnssObservable(SY[p.sys].s, p.code(), p.coef));
  for (size_t k = 1; k < v.size(); k++) {
    const Part &q = v[k];
    if (how & 2)
      q.coef == 1 && (how & 1) ? o.add(GnssRawObservable(SY[q.sys].s, q.code()))
                               : o.add(GnssRawObservable(SY[q.sys].s, q.code()), q.coef);
    else if (q.coef == 1 && (how & 4))
      o.add(SY[q.sys].s, q.code());
    else
      o.add(SY[q.sys].s, q.code(), q.coef);
  }
  return o;
}
static std::string show(const std::vector<Part> &v) {
  std::string o;
  for (auto &p : v)
    o += (o.empty() ? "" : " + ") + p.str();
  return o;
}

static void values(Src &s) {
  int n = s.i(1, 6);
  std::vector<Part> v;
  bool onesys = s.flip();
  for (int k = 0; k < n; k++) {
    Part p = draw(s, false);
    if (onesys && k) {
      p.sys = v[0].sys;
      std::vector<int> b;
      for (auto &x : SY[p.sys].f)
        b.push_back(x.first);
      p.band = s.pick(b);
    }
    v.push_back(p);
  }
  int how = s.u(7);
  GnssObservable o = build(v, how);
  s.note([&] { return show(v); });
  if (n > 1)
    s.nontrivial();
  s.label(fmt("parts%d", n));
  double f = 0, mag = 1e-9;
  std::string txt;
  bool mixed = false;
  for (auto &p : v) {
    f += p.coef * SY[p.sys].f.at(p.band);
    mag += std::abs(p.coef * SY[p.sys].f.at(p.band));
    txt += (txt.empty() ? "" : "+") + p.str();
    mixed |= p.sys != v[0].sys;
  }
  const GnssObservable &c = o;
  CHECK(std::abs(c.frequency() - f) <= 1e-12 * mag, "frequency",
        "frequency %.9f, expected %.9f for %s", c.frequency(), f, show(v).c_str());
  CHECK(c.is_of_mixed_satsys() == mixed, "mixed", "mixed=%d for %s",
        c.is_of_mixed_satsys(), show(v).c_str());
  CHECK(c.to_string() == txt, "text", "'%s' instead of '%s'",
        c.to_string().c_str(), txt.c_str());
  auto u = c.underlying_vector();
  CHECK(u.size() == v.size(), "parts", "%zu parts of %zu", u.size(), v.size());
  for (size_t k = 0; k < v.size(); k++) {
    CHECK(u[k].type().satsys() == SY[v[k].sys].s && u[k].type().code() == v[k].code() &&
              u[k].type().band() == v[k].band && u[k].__coef == v[k].coef,
          "part", "part %zu of %s", k, show(v).c_str());
    CHECK(std::abs(u[k].frequency() - v[k].coef * SY[v[k].sys].f.at(v[k].band)) <=
              1e-12 * mag,
          "part-frequency", "part %zu of %s: %.9f", k, show(v).c_str(),
          u[k].frequency());
    CHECK(u[k].to_string() == v[k].str(), "part-text", "%s", u[k].to_string().c_str());
    GnssRawObservable r = u[k].type();
    const GnssRawObservable &rc = r;
    CHECK(r.to_string() == v[k].str().substr(0, 6), "raw-text", "'%s' of %s", r.to_string().c_str(),
          v[k].str().c_str());
    CHECK(rc.get<0>() == SY[v[k].sys].s && rc.get<1>() == v[k].code(), "raw-get", "part %zu of %s", k,
          show(v).c_str());
    auto [a, b] = rc;
    CHECK(a == SY[v[k].sys].s && b == v[k].code(), "raw-bindings", "part %zu of %s", k, show(v).c_str());
  }
  // metamorphic: scaling every coefficient scales the frequency
  double k = s.pick(std::vector<double>{-1, 2, 0.5});
  auto v2 = v;
  for (auto &p : v2)
    p.coef *= k;
  CHECK(std::abs(build(v2, how).frequency() - k * f) <= 1e-12 * mag * 2, "scale",
        "scaling %s by %f", show(v).c_str(), k);
}

static void equality(Src &s) {
  int n = s.p(1, 16) ? s.i(6, 40) : s.i(1, 5);
  std::vector<Part> a, b;
  for (int k = 0; k < n; k++)
    a.push_back(draw(s, true));
  b = a;
  int mut = s.u(3);
  // shuffle
  for (size_t k = b.size(); k > 1; k--)
    std::swap(b[k - 1], b[s.u(k - 1)]);
  if (mut == 1) // replace a part, possibly by a copy of another one
    b[s.u(b.size() - 1)] = s.flip() ? b[s.u(b.size() - 1)] : draw(s, true);
  else if (mut == 2)
    b.push_back(draw(s, true));
  else if (mut == 3) {
    b.clear();
    for (int k = s.i(1, 5); k > 0; k--)
      b.push_back(draw(s, true));
  }
  if (a.size() > 8)
    s.label("many parts");
  bool eq = a.size() == b.size() && std::is_permutation(a.begin(), a.end(), b.begin());
  GnssObservable x = build(a, s.u(7)), y = build(b, s.u(7));
  s.note([&] { return show(a) + "   vs   " + show(b); });
  s.label(eq ? "equal" : "different");
  if (a.size() > 1 || b.size() > 1)
    s.nontrivial();
  CHECK((x == y) == eq, "eq", "x==y is %d for %s | %s", x == y, show(a).c_str(),
        show(b).c_str());
  CHECK((y == x) == eq, "eq-sym", "y==x is %d for %s | %s", y == x, show(a).c_str(),
        show(b).c_str());
  CHECK((x != y) == !eq && (y != x) == !eq, "neq", "%s | %s", show(a).c_str(),
        show(b).c_str());
  // raw observables and parts
  const Part &p = a[0], &q = b[0];
  GnssRawObservable r1(SY[p.sys].s, p.code()), r2(SY[q.sys].s, q.code());
  bool req = p.sys == q.sys && p.code() == q.code();
  CHECK((r1 == r2) == req && (r1 != r2) == !req, "raw-eq", "%s | %s",
        p.str().c_str(), q.str().c_str());
  __ObsPart p1(r1, p.coef), p2(SY[q.sys].s, q.code(), q.coef);
  CHECK((p1 == p2) == (p == q) && (p1 != p2) == !(p == q), "part-eq", "%s | %s",
        p.str().c_str(), q.str().c_str());
  __ObsPart d1(r1), d2(SY[q.sys].s, q.code());
  CHECK(d1.__coef == 1 && d2.__coef == 1, "part-default", "%g, %g", d1.__coef, d2.__coef);
  if (s.flip())
    r2.satsys() = SY[p.sys].s;
  else
    r2.get<0>() = SY[p.sys].s;
  CHECK((r1 == r2) == (p.code() == q.code()), "raw-edit", "%s | %s", p.str().c_str(),
        q.str().c_str());
  r2.get<1>() = p.code();
  CHECK(r1 == r2 && r2 == r1, "raw-edit", "%s made of %s", p.str().c_str(), q.str().c_str());
}

// combinations edited in the course of time
static void edits(Src &s) {
  std::vector<Part> v{draw(s, s.flip())};
  GnssObservable o = build(v, s.u(7));
  int n = s.i(1, 8);
  std::string log = show(v);
  for (int k = 0; k < n; k++) {
    Part p = draw(s, s.flip());
    int what = s.u(5);
    if (what == 4 && v.size() < 2)
      what = 0;
    switch (what) {
    case 0:
      o.add(SY[p.sys].s, p.code(), p.coef);
      v.push_back(p);
      log += " add " + p.str();
      break;
    case 1:
      o.add(GnssRawObservable(SY[p.sys].s, p.code()), p.coef);
      v.push_back(p);
      log += " add " + p.str();
      break;
    case 2: { // a copy does not follow
      GnssObservable c = o;
      CHECK(c == o, "copy", "%s", log.c_str());
      c.add(SY[p.sys].s, p.code(), p.coef);
      CHECK(c != o && o != c, "copy-alias", "%s", log.c_str());
      o.underlying_vector(); // by reference; nothing happens
      break;
    }
    case 3: {
      size_t j = s.u(v.size() - 1);
      o.underlying_vector()[j] = __ObsPart(SY[p.sys].s, p.code(), p.coef);
      v[j] = p;
      log += fmt(" [%zu]=", j) + p.str();
      break;
    }
    case 4: {
      size_t j = s.u(v.size() - 1);
      o.underlying_vector().erase(o.underlying_vector().begin() + j);
      v.erase(v.begin() + j);
      log += fmt(" erase[%zu]", j);
      break;
    }
    default: {
      size_t j = s.u(v.size() - 1);
      o.underlying_vector()[j].__coef = p.coef;
      v[j].coef = p.coef;
      log += fmt(" [%zu]*%f", j, p.coef);
    }
    }
    double f = 0, mag = 1e-9;
    bool mixed = false;
    std::string txt;
    for (auto &q : v) {
      f += q.coef * SY[q.sys].f.at(q.band);
      mag += std::abs(q.coef * SY[q.sys].f.at(q.band));
      mixed |= q.sys != v[0].sys;
      txt += (txt.empty() ? "" : "+") + q.str();
    }
    const GnssObservable &c = o;
    CHECK(c.underlying_vector().size() == v.size(), "edit-parts", "%s", log.c_str());
    CHECK(std::abs(c.frequency() - f) <= 1e-12 * mag, "edit-frequency", "%.9f not %.9f: %s",
          c.frequency(), f, log.c_str());
    CHECK(c.is_of_mixed_satsys() == mixed, "edit-mixed", "%s", log.c_str());
    CHECK(c.to_string() == txt, "edit-text", "'%s' not '%s'", c.to_string().c_str(), txt.c_str());
  }
  GnssObservable w = build(v, s.u(7));
  CHECK(w == o && o == w && !(w != o), "edit-eq", "%s", log.c_str());
  s.note([&] { return log; });
  if (n > 1)
    s.nontrivial();
}

// a band its system does not have has no frequency; whoever asks is told
static void nofreq(Src &s) {
  std::vector<Part> v;
  int n = s.i(1, 4), at = s.u(n - 1);
  for (int k = 0; k < n; k++) {
    v.push_back(draw(s, false));
    if (k == at) {
      int b;
      do
        b = s.u(9);
      while (SY[v[k].sys].f.count(b) || SY[v[k].sys].c == 'M' || SY[v[k].sys].c == 'R');
      v[k].band = b;
    }
  }
  s.note([&] { return show(v); });
  s.nontrivial();
  GnssObservable o = build(v, s.u(7));
  bool threw = false;
  try {
    o.frequency();
  } catch (std::exception &) {
    threw = true;
  }
  CHECK(threw, "no-frequency", "a frequency for %s", show(v).c_str());
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C03";
  e.rule = "random linear combinations of 1-6 coded observations of all "
           "systems and bands (values), and pairs of combinations obtained by "
           "shuffling, replacing, duplicating and appending parts drawn from a "
           "small pool (equality), histories of additions, replacements, removals and "
           "copies (edits), parts on bands their system does not have (nofreq). "
           "Non-trivial: more than one part or step";
  e.subs = {{"values", 200000, 3000000, values},
            {"equality", 300000, 4000000, equality},
            {"edits", 100000, 1500000, edits},
            {"nofreq", 50000, 400000, nofreq}};
  return e.main(argc, argv);
}
