// C24 the flags of SP3 records
#define PBT_MAIN
#include "pbt.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

static void records(Src &s) {
  File f;
  f.h = header(s);
  f.h.nsats = std::max(f.h.nsats, 6);
  int n = s.i(1, 3);
  bool some = false;
  for (int k = 0; k < n; k++) {
    Epoch e = epoch(s, 6, f.h.start);
    for (auto &r : e.r) {
      // other marks in the columns between, and wrong letters
      if (s.p(1, 4)) {
        for (char &c : r.flags)
          if (s.flip())
            c = s.chr(" EPMXep0");
      }
      some |= r.flags != "      ";
    }
    f.e.push_back(e);
  }
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return f.text(); });
  Sp3c p(fn.c_str());
  auto v = p.allocate_epoch_vector();
  for (auto &e : f.e) {
    Time t;
    int m = -7, st = p.get_next_epoch(t, v, m);
    CHECK(st <= 0, "status", "status %d", st);
    same(e, t, v, m);
    for (int k = 0; k < m; k++)
      same_flags(e.r[k], v[k]);
  }
  if (some)
    s.nontrivial();
}
static void bits(Src &s) {
  ngpt::Sp3Flag f;
  std::set<int> on;
  int ops = s.i(1, 20), sets = 0;
  for (int o = 0; o < ops; o++) {
    int e = s.i(0, 5);
    switch (s.w({4, 3, 1, 1})) {
    case 0:
      s.note([&] { return fmt("set %d", e); });
      f.set(Sp3Event(e));
      on.insert(e);
      ++sets;
      break;
    case 1:
      s.note([&] { return fmt("clear %d", e); });
      f.clear(Sp3Event(e));
      on.erase(e);
      break;
    case 2:
      s.note([&] { return fmt("reset"); });
      f.reset();
      on.clear();
      break;
    default: {
      s.note([&] { return fmt("copy"); });
      ngpt::Sp3Flag g = f;
      f.set(Sp3Event(e));
      f = g;
    }
    }
    for (int k = 0; k < 6; k++)
      CHECK(f.is_set(Sp3Event(k)) == (on.count(k) > 0), "bits", "flag %d is %d", k, int(f.is_set(Sp3Event(k))));
  }
  if (sets > 1)
    s.nontrivial();
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C24";
  e.rule = "epochs whose records carry random marks in columns 75-80, absent and "
           "borderline coordinates and clocks, full and cut lines, and sequences "
           "of flag operations against a set. Non-trivial: a mark, or two flags set";
  e.subs = {{"records", 20000, 250000, records}, {"bits", 20000, 200000, bits}};
  return e.main(argc, argv);
}
