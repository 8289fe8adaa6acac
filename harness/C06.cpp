// C06 satellites and satellite antennas: identity and printing
#define PBT_MAIN
#include "pbt.hpp"
#include "satellite.hpp"
using namespace pbt;
using namespace ngpt;

static std::string ant(Src &s, int n = 24) {
  return s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789- ", 0, n);
}

static void antenna(Src &s) {
  std::string x = ant(s), y = x;
  int m = s.u(4);
  if (m == 1)
    y = ant(s);
  else if (m == 2 && !y.empty())
    y[s.u(y.size() - 1)] = 'x';
  else if (m == 3 && !y.empty())
    y.resize(s.u(y.size() - 1));
  else if (m == 4)
    y += s.chr("A1 ");
  std::string x20 = x.substr(0, 20), y20 = y.substr(0, 20);
  s.note([&] { return "[" + x + "] vs [" + y + "]"; });
  s.nontrivial();
  s.label(x20 == y20 ? "same" : "different");
  SatelliteAntenna a(x.c_str());
  CHECK(a.to_string() == x20 && std::string(a.__underlying_char__()) == x20, "store",
        "[%s] stored as [%s]", x.c_str(), a.to_string().c_str());
  CHECK(a.is_same(y.c_str()) == (x20 == y20), "same", "is_same=%d: [%s] [%s]",
        a.is_same(y.c_str()), x.c_str(), y.c_str());
  a.set_from_cstr(y.c_str());
  CHECK(a.to_string() == y20, "set", "[%s] stored as [%s]", y.c_str(),
        a.to_string().c_str());
  CHECK(a.is_same(x.c_str()) == (x20 == y20), "same-after-set", "[%s] [%s]", y.c_str(),
        x.c_str());
  SatelliteAntenna e;
  CHECK(e.to_string().empty(), "default", "[%s]", e.to_string().c_str());
  CHECK(e.is_same(x.c_str()) == x20.empty(), "default-same", "[%s]", x.c_str());
  // the same wherever the object happens to be
  alignas(16) char mem[sizeof(Satellite) + sizeof(SatelliteAntenna)];
  memset(mem, s.chr("xA7 "), sizeof mem);
  SatelliteAntenna *p = new (mem) SatelliteAntenna();
  CHECK(p->to_string().empty() && p->is_same(""), "default-used-memory", "[%s]", p->to_string().c_str());
  memset(mem, s.chr("xA7 "), sizeof mem);
  p = new (mem) SatelliteAntenna(x.c_str());
  CHECK(p->to_string() == x20, "used-memory", "[%s] is [%s]", x20.c_str(), p->to_string().c_str());
  memset(mem, s.chr("xA7 "), sizeof mem);
  Satellite *q = s.flip() ? new (mem) Satellite() : new (mem) Satellite(SATELLITE_SYSTEM::gps, 7);
  q->antenna().set_from_cstr(y.c_str());
  CHECK(q->antenna().to_string() == y20 && !*q->cospar(), "satellite-used-memory", "[%s] [%s]",
        q->antenna().to_string().c_str(), q->cospar());
}

static const struct {
  SATELLITE_SYSTEM s;
  char c;
} SY[] = {{SATELLITE_SYSTEM::gps, 'G'},     {SATELLITE_SYSTEM::glonass, 'R'},
          {SATELLITE_SYSTEM::sbas, 'S'},    {SATELLITE_SYSTEM::galileo, 'E'},
          {SATELLITE_SYSTEM::beidou, 'C'},  {SATELLITE_SYSTEM::qzss, 'J'},
          {SATELLITE_SYSTEM::irnss, 'I'},   {SATELLITE_SYSTEM::mixed, 'M'}};

static void satellite(Src &s) {
  int k = s.u(7), k2 = s.u(7);
  int prn = s.flip() ? s.i(0, 99) : s.i(0, 220);
  int svn = s.flip() ? s.i(0, 120) : s.i(0, 999);
  std::string cos;
  if (s.p(4, 5))
    cos = fmt("%04d-%03d", int(s.i(1978, 2030)), int(s.i(1, 130))) +
          s.chr("ABCDEFG");
  std::string an = ant(s, 20);
  int how = s.u(2);
  s.note([&] {
    return fmt("%c%d svn %d cospar [%s] antenna [%s]", SY[k].c, prn, svn, cos.c_str(),
               an.c_str());
  });
  s.nontrivial();
  Satellite x(SY[k].s, prn);
  if (how == 1) {
    x = Satellite(SY[k2].s);
    x.system() = SY[k].s;
    x.prn() = prn;
  } else if (how == 2) {
    x = Satellite();
    CHECK(x.system() == SATELLITE_SYSTEM::mixed, "default-system", "default system");
    x.system() = SY[k].s;
    x.prn() = prn;
  }
  x.svn() = svn;
  x.antenna().set_from_cstr(an.c_str());
  if (!cos.empty())
    strcpy(x.cospar(), cos.c_str());
  Satellite z(x);
  const Satellite &c = z;
  CHECK(c.system() == SY[k].s && c.prn() == prn && c.svn() == svn &&
            c.antenna().to_string() == an && std::string(z.cospar()) == cos,
        "fields", "fields of %s", c.to_string().c_str());
  std::string id = fmt("%c%02d", SY[k].c, prn);
  CHECK(c.to_string() == id && c.to_string(true) == id, "short", "'%s', expected '%s'",
        c.to_string().c_str(), id.c_str());
  std::string full = id + fmt("-%03d/", svn) + cos;
  CHECK(c.to_string(false) == full, "long", "'%s', expected '%s'",
        esc(c.to_string(false)).c_str(), full.c_str());
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C06";
  e.rule = "random antenna names of 0-25 characters paired with mutations of "
           "themselves; random satellites (system, number 0-220, vehicle 0-999, "
           "COSPAR id or none, antenna). Every case is non-trivial";
  e.subs = {{"antenna", 400000, 4000000, antenna},
            {"satellite", 300000, 3000000, satellite}};
  return e.main(argc, argv);
}
