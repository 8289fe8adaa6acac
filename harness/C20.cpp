// C20 observations (and combinations of them) are collected exactly
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "obs_gen.hpp"
using namespace pbt;
using namespace obs;

static void values(Src &s) {
  File f;
  f.head = header(s, s.flip() ? 5 : 28);
  int n = s.i(1, 3);
  for (int k = 0; k < n; k++)
    f.ep.push_back(f.head.maxobs() > 28 ? epoch(s, f.head, 4)
                   : s.p(1, 40)         ? epoch(s, f.head, 80, true)
                                        : epoch(s, f.head, s.p(1, 20) ? 80 : 10));
  f.last_newline = !s.p(1, 5);
  Wanted w = wanted(s, f.head);
  std::string fn = write_file(f.text(), "f");
  s.note([&] {
    std::string t;
    for (auto &x : w)
      for (auto &o : x.second)
        t += o.to_string() + "\n";
    return brief(f) + t;
  });
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  Wanted asked = w;
  ReadMap m = r->set_read_map(asked, s.flip());
  Out out = r->initialize_epoch_vector(m);
  CHECK(out.size() >= 80, "vector", "room for %zu satellites", out.size());
  size_t need = 0;
  for (auto &x : w)
    need = std::max(need, x.second.size());
  for (auto &o : out)
    CHECK(o.second.size() >= need, "vector", "room for %zu values, %zu needed", o.second.size(), need);
  bool junk = s.flip();
  int collected = 0;
  for (int k = 0; k < n; k++) {
    if (junk)
      for (auto &o : out)
        for (double &x : o.second)
          x = 4711;
    if (s.flip())
      errno = ERANGE; // of no concern here
    int sats = -7;
    ngpt::modified_julian_day mjd;
    double sod = -7;
    int st = r->read_next_epoch(m, out, sats, mjd, sod);
    CHECK(st == 0, "status", "status %d at epoch %d of %d", st, k, n);
    same(f, f.ep[k], w, out, sats, mjd, sod);
    collected += sats;
  }
  if (collected > 1)
    s.nontrivial();
  s.label(collected ? "satellites collected" : "nothing collected");
}
static void raw(Src &s) {
  Val v = value(s);
  bool lliblank = v.blank && s.flip();
  if (lliblank)
    v.lli = s.chr(" 01234567");
  std::string t = v.txt();
  if (s.flip())
    t += s.str("0123456789. ", 0, 4); // the next observation
  s.note([&] { return "[" + t + "]"; });
  if (!v.blank)
    s.nontrivial();
  std::vector<char> b(t.begin(), t.end());
  b.push_back('\0');
  ngpt::RawRnxObs__ o;
  o.__val = 4711;
  o.__lli = o.__ssi = 4711;
  if (s.flip())
    errno = 0;
  errno = 0;
  int st = o.resolve(b.data());
  CHECK(st == 0, "status", "status %d", st);
  CHECK(o.__val == v.num(), "raw", "value %.12g, expected %.12g", o.__val, v.num());
  int lli = v.lli == ' ' ? 0 : v.lli - '0', ssi = v.ssi == ' ' ? 0 : v.ssi - '0';
  CHECK(o.__lli == lli && o.__ssi == ssi, "indicators", "LLI %d, SSI %d, expected %d, %d", o.__lli,
        o.__ssi, lli, ssi);
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C20";
  e.rule = "random files of 1-3 epochs of up to 80 satellites of up to 28 types "
           "of observation each (numbers that fill their columns, every mix of "
           "blank values and indicators, trailing blanks or not), read for random "
           "combinations of up to four observations; single 16-column fields. "
           "Non-trivial: at least two satellites collected; a field with a value";
  e.assumptions = {"a written value of -999.990, which denotes a blank, does not occur"};
  e.subs = {{"values", 16000, 200000, values}, {"raw", 40000, 400000, raw}};
  return e.main(argc, argv);
}
