// C25 GLONASS frequency channels of a Bernese SATELLIT file
#define PBT_MAIN
#include "bern_gen.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace bern;

static void lookup(Src &s) {
  File f = file(s, 8), g = file(s, 2);
  std::string fn = write_file(f.text(), "f"), gn = write_file(g.text(), "g");
  s.note([&] { return f.text(); });
  std::unique_ptr<BernSatellit> b(new BernSatellit(fn.c_str()));
  int n = s.i(1, 8), found = 0;
  for (int k = 0; k < n; k++) {
    Query q = query(s, f);
    s.note([&] { return fmt("vehicle %d at %s", q.svn, q.t.txt().c_str()); });
    ask(*b, f, q);
    found += find(f, q) != nullptr;
    if (s.p(1, 8)) {
      s.note([&] { return fmt("move"); });
      if (s.flip()) {
        std::unique_ptr<BernSatellit> c(new BernSatellit(std::move(*b)));
        b = std::move(c);
      } else {
        std::unique_ptr<BernSatellit> c(new BernSatellit(gn.c_str()));
        *c = std::move(*b);
        b = std::move(c);
      }
    }
  }
  if (found && f.r.size() > 1)
    s.nontrivial();
  s.label(found == n ? "all found" : found ? "some found" : "none found");
}
static void longer(Src &s) {
  File f = file(s, 3);
  int n = s.i(20, 900);
  long base = s.i(1, 60);
  for (int k = 0; k < n; k++) {
    Rec r;
    r.prn = 1 + k % 130;
    r.svn = base + k;
    r.frq = k % 21 - 7;
    r.from = When{50000 + k % 7, 0};
    r.to = r.from.plus(86400L * (30 + k % 11));
    r.open = k % 3 == 0;
    f.r.push_back(r);
  }
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return fmt("%zu records", f.r.size()); });
  BernSatellit b(fn.c_str());
  int q = s.i(1, 6);
  for (int k = 0; k < q; k++)
    ask(b, f, query(s, f));
  s.nontrivial();
}
static void header(Src &s) {
  File f = file(s, 2);
  std::string t = f.text();
  std::vector<std::string> L(1);
  for (char c : t)
    if (c == '\n')
      L.emplace_back();
    else
      L.back() += c;
  size_t p2 = 0;
  while (L[p2] != "PART 2: ON-BOARD SENSORS")
    ++p2;
  const size_t must[] = {0, p2, p2 + 2, p2 + 3};
  size_t k = must[s.u(3)];
  // the part of the line that makes it recognisable
  size_t len = k == 0 ? 59 : L[k].size();
  size_t a = s.u(len - 1);
  char c = s.chr("x1_#?");
  if (c == L[k][a])
    c = '!';
  std::string why;
  if (s.p(1, 4)) {
    L.erase(L.begin() + k);
    why = fmt("line %zu lost", k);
  } else {
    L[k][a] = c;
    why = fmt("line %zu has '%c' at %zu", k, c, a);
  }
  std::string u;
  for (size_t j = 0; j < L.size(); j++)
    u += L[j] + (j + 1 < L.size() ? "\n" : "");
  std::string fn = write_file(u, "f");
  s.note([&] { return why + "\n" + u; });
  bool ok = true;
  try {
    BernSatellit b(fn.c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "accepted", "a file with %s was accepted", why.c_str());
  ok = true;
  try {
    BernSatellit b((fn + ".absent").c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "absent", "a file that does not exist was accepted");
  s.nontrivial();
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C25";
  e.rule = "files of 0-8 records (vehicles with several spans, other sensor "
           "types, long signal lists, with and without PART 3), 1-8 queries and "
           "moves against a search of the model, spans probed at both ends; "
           "files of up to 900 records; "
           "headers with one thing wrong that must be refused. Non-trivial: a "
           "query that finds something in two or more records; all wrong headers";
  e.subs = {{"lookup", 20000, 250000, lookup}, {"long", 400, 5000, longer}, {"header", 4000, 50000, header}};
  return e.main(argc, argv);
}
