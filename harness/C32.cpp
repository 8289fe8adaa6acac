// C32 the map of columns to read for the observables asked for
#define PBT_MAIN
#include "pbt.hpp"
#include "obs_gen.hpp"
using namespace pbt;
using namespace obs;

static void columns(Src &s) {
  File f;
  f.head = header(s);
  const Head &h = f.head;
  std::string fn = write_file(f.text(), "f");
  // observables of systems and types in the file or not, mixed ones
  bool mixed = false, wrong = false, missing = false;
  Wanted w;
  std::string all = "GRECJSI";
  int ns = s.i(0, 4);
  struct Part {
    char sys;
    std::string code;
    double coef;
  };
  std::map<char, std::vector<std::vector<Part>>> model;
  bool any_missing = s.flip(), any_odd = s.p(1, 6);
  for (int k = 0; k < ns; k++) {
    char c = any_missing && s.p(1, 4) ? s.chr(all) : s.pick(h.order);
    int n = s.i(0, 4);
    auto &v = w[sys(c)];
    auto &mv = model[c];
    for (int j = 0; j < n; j++) {
      std::vector<Part> ps;
      int np = s.w({3, 2, 1}) + 1;
      for (int i = 0; i < np; i++) {
        Part p;
        p.sys = c;
        if (any_odd && s.p(1, 4))
          p.sys = s.chr(all);
        auto it = h.types.find(p.sys);
        p.code = it == h.types.end() || (any_missing && s.p(1, 5)) ? code(s) : s.pick(it->second);
        p.coef = s.p(1, 3) ? 1 : s.dec(-3, 3, 3);
        ps.push_back(p);
      }
      GnssObservable o(sys(ps[0].sys), ObservationCode(ps[0].code.c_str()), ps[0].coef);
      for (size_t i = 1; i < ps.size(); i++)
        o.add(sys(ps[i].sys), ObservationCode(ps[i].code.c_str()), ps[i].coef);
      v.push_back(o);
      mv.push_back(ps);
      bool miss = false;
      for (auto &p : ps) {
        mixed |= p.sys != ps[0].sys;
        wrong |= p.sys != c;
        auto it = h.types.find(p.sys);
        miss |= it == h.types.end() || column(it->second, p.code) < 0;
      }
      missing |= miss;
    }
  }
  bool skip = s.flip();
  s.note([&] {
    std::string t = skip ? "skipping missing ones\n" : "";
    for (char c : h.order)
      for (auto &l : h.obstypes(c))
        t += l + "\n";
    for (auto &x : w) {
      t += ngpt::satsys_to_char(x.first);
      for (auto &o : x.second)
        t += "  " + o.to_string();
      t += "\n";
    }
    return t;
  });
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  Wanted asked = w;
  ReadMap m = r->set_read_map(w, skip);
  if (wrong && !missing) {
    // an observable of another system than the one it is listed under
    CHECK(m.empty(), "odd", "a map although an observable is of another or of several systems");
    s.label("mixed");
    return;
  }
  if (wrong || mixed) { // and missing ones: either way there is no promise for the rest
    s.label("mixed");
    if (!skip)
      CHECK(m.empty(), "odd", "a map although an observable is of another or of several systems");
    return;
  }
  if (missing && !skip) {
    CHECK(m.empty(), "missing", "a map although observables are missing");
    s.label("missing");
    s.nontrivial();
    return;
  }
  s.label(missing ? "missing skipped" : "complete");
  if (ns > 1)
    s.nontrivial();
  ReadMap want;
  Wanted left;
  for (auto &x : model) {
    left[sys(x.first)];
    size_t j = 0;
    for (auto &ps : x.second) {
      std::vector<std::pair<std::size_t, double>> v;
      auto it = h.types.find(x.first);
      bool ok = it != h.types.end();
      for (auto &p : ps) {
        int c = ok ? column(it->second, p.code) : -1;
        ok &= c >= 0;
        v.emplace_back(c, p.coef);
      }
      if (ok) {
        want[sys(x.first)].push_back(v);
        left[sys(x.first)].push_back(asked[sys(x.first)][j]);
      }
      ++j;
    }
  }
  CHECK(m == want, "columns", "a map of %zu systems, expected %zu, or other columns or coefficients",
        m.size(), want.size());
  // what could not be found has been removed from the request
  for (auto &x : left) {
    auto &g = w[x.first];
    CHECK(g.size() == x.second.size(), "request", "%zu observables of %c left in the request, expected %zu",
          g.size(), ngpt::satsys_to_char(x.first), x.second.size());
    for (size_t k = 0; k < g.size(); k++)
      CHECK(g[k] == x.second[k], "request", "%s left in the request, expected %s", g[k].to_string().c_str(),
            x.second[k].to_string().c_str());
  }
  // room for any epoch
  size_t need = 0;
  for (auto &x : want)
    need = std::max(need, x.second.size());
  Out out = r->initialize_epoch_vector(m);
  CHECK(out.size() >= 80, "vector", "room for %zu satellites", out.size());
  for (auto &o : out) {
    CHECK(o.second.size() >= need, "vector", "room for %zu values, %zu needed", o.second.size(), need);
    for (double x : o.second)
      CHECK(x == -999.99, "vector", "initial value %g", x);
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C32";
  e.rule = "random headers and requests of 0-4 systems with up to four "
           "observables of up to three parts, in the file or not, sometimes of "
           "another or of several systems. Non-trivial: more than one system, or "
           "something is missing";
  e.subs = {{"columns", 20000, 250000, columns}};
  return e.main(argc, argv);
}
