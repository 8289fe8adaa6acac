// C12 navigation messages are decoded exactly as written
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_gen.hpp"
using namespace pbt;
using namespace nav;

static void decode(Src &s) {
  File f;
  f.head = header(s);
  int n = s.i(1, 5);
  for (int k = 0; k < n; k++)
    f.m.push_back(message(s, "GRECJIS"));
  f.last_newline = !s.p(1, 4);
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  if (n > 1)
    s.nontrivial();
  NavigationRnx r(fn.c_str());
  NavDataFrame reused;
  bool reuse = s.flip();
  bool dirty = s.flip();
  for (int k = 0; k < n; k++) {
    s.label(std::string(1, f.m[k].sys));
    NavDataFrame fresh;
    NavDataFrame &d = reuse ? reused : fresh;
    if (dirty)
      errno = k % 2 ? ERANGE : ENOENT; // of no concern here
    int st = r.read_next_record(d);
    CHECK(st == 0, "status", "status %d for message %d", st, k);
    same(f.m[k], d, "read");
    NavDataFrame c(d);
    same(f.m[k], c, "copied");
  }
  NavDataFrame d;
  int st = r.read_next_record(d);
  CHECK(st < 0, "end", "status %d at the end of the file", st);
}
/// frames made and changed by hand
static void edit(Src &s) {
  Msg a = message(s, "GRECJIS"), b = message(s, "GRECJIS");
  NavDataFrame d;
  auto check = [&](const Msg &m, const NavDataFrame &n, const char *what) {
    CHECK(n.system() == sys(m.sys) && n.prn() == m.prn && n.toc() == m.toc.dt<ngpt::seconds>(), "edit-head",
          "%s: %c%d", what, ngpt::satsys_to_char(n.system()), n.prn());
    for (int k = 0; k < m.n(); k++)
      CHECK(n.data(k) == m.num(k), "edit-number", "%s: number %d is %.17g, expected %.17g", what, k, n.data(k), m.num(k));
  };
  auto fill = [&](const Msg &m, NavDataFrame &n) {
    n.system() = sys(m.sys);
    n.prn() = m.prn;
    n.set_toc(m.toc.dt<ngpt::seconds>());
    for (int k = 0; k < m.n(); k++)
      n.data(k) = m.num(k);
  };
  s.note([&] { return fmt("%c%d, then %c%d", a.sys, a.prn, b.sys, b.prn); });
  s.nontrivial();
  fill(a, d);
  check(a, d, "made");
  NavDataFrame c(d);
  fill(b, d);
  check(b, d, "changed");
  check(a, c, "copied before");
  int k = s.u(b.n() - 1);
  c = d;
  d.data(k) = -1.5;
  check(b, c, "assigned before");
  b.f[k] = "-1.5";
  check(b, d, "one number changed");
}
static void accept(Src &s) {
  File f;
  f.head = header(s);
  f.m.push_back(message(s, "GREC"));
  int bad = s.u(5);
  switch (bad) {
  case 0:
    break;
  case 1:
    f.head[0][20] = s.chr("OMGHCSn ");
    break;
  case 2:
    f.head[0][40] = s.chr(" XAB0gr");
    break;
  case 3:
    f.head[0].replace(0, 20, std::string(20, ' ').replace(5, 4, "RNX "));
    break;
  case 4:
    f.head.pop_back();
    f.m.clear();
    break;
  default:
    f.head.insert(f.head.begin() + 1, s.i(100, 900), col("a comment", "COMMENT"));
  }
  s.label(fmt("header %d", bad));
  s.nontrivial();
  bool ok = bad == 0 || bad == 5, got = true;
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return f.head[0]; });
  try {
    NavigationRnx r(fn.c_str());
    CHECK(ok, "accepted", "a header with defect %d was accepted", bad);
    NavDataFrame d;
    CHECK(r.read_next_record(d) == 0, "status", "message after the header not read");
    same(f.m[0], d, "read");
  } catch (std::runtime_error &) {
    got = false;
  }
  CHECK(got == ok, "refused", "a good header was refused");
  bool threw = false;
  try {
    NavigationRnx r((fn + ".absent").c_str());
  } catch (std::runtime_error &) {
    threw = true;
  }
  CHECK(threw, "absent", "an absent file was accepted");
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C12";
  e.rule = "random files of 1-5 messages of all seven systems with arbitrary "
           "numbers (all exponent letters, full width, Fortran style, blank "
           "spares), ToE up to two hours from ToC across day and week "
           "boundaries, frames fresh or reused, errno arbitrary; headers with "
           "and without a defect. Non-trivial: at least two messages; every header; "
           "frames made and changed by hand";
  e.assumptions = {"spare fields are not compared"};
  e.subs = {{"decode", 40000, 500000, decode}, {"accept", 6000, 60000, accept}, {"edit", 20000, 200000, edit}};
  return e.main(argc, argv);
}
