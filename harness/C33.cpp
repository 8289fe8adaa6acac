// C33 var/sp3py.py: the records of a satellite, out of an SP3 file
#define PBT_MAIN
#include "pbt.hpp"
#include "py.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

static const char *SCRIPT = "var/sp3py.py";
// whole seconds only
static Ep whole(Ep e) {
  e.t -= e.t % Ep::SEC;
  return e;
}
static File pyfile(Src &s) {
  File f = file(s, 6);
  f.h.start = whole(f.h.start);
  if (f.h.version == 'c') { // as the format has it: 22 lines
    f.h.comments.resize(4, " x");
    f.h.nsats = std::min(f.h.nsats, 85);
    f.h.sats.resize(f.h.nsats);
    f.h.nlines = 5;
  }
  if (s.flip() && !f.h.sats.empty()) { // the satellites of the header
    f.h.sats[0] = "G07";
  }
  bool steady = s.flip(); // the same satellites at (almost) all epochs
  for (auto &e : f.e) {
    e.t = whole(e.t);
    if (steady && &e != &f.e[0] && s.p(5, 6)) {
      auto &first = f.e[0].r;
      for (size_t k = 0; k < first.size(); k++) {
        if (e.r.size() <= k)
          e.r.push_back(record(s));
        e.r[k].sys = first[k].sys;
        e.r[k].prn = first[k].prn;
      }
    }
    std::set<std::string> have;
    std::vector<Rec> r;
    for (auto &x : e.r) {
      x.zero = true; // names as the format has them
      if (!steady && s.flip()) {
        x.sys = s.chr("GREC");
        x.prn = s.i(1, 3) * 9;
      }
      if (have.insert(fmt("%c%02d", x.sys, x.prn)).second)
        r.push_back(x);
    }
    e.r = r;
  }
  return f;
}
static std::string expected(const File &f, const std::string &sv) {
  std::string t = fmt("## Ref System: %-5s, Time System %s\n", f.h.crd.c_str(), f.h.tsys.c_str());
  for (auto &e : f.e)
    for (auto &r : e.r)
      if (fmt("%c%02d", r.sys, r.prn) == sv) {
        auto y = ngpt::modified_julian_day(e.t.mjd).to_ymd();
        long q = e.t.t / Ep::SEC;
        t += fmt("\"%04d-%02d-%02d %02ld:%02ld:%02ld\"", y.__year.as_underlying_type(),
                 y.__month.as_underlying_type(), y.__dom.as_underlying_type(), q / 3600, q / 60 % 60, q % 60);
        for (int k = 0; k < 4; k++)
          t += fmt("%+15.6f", strtod(r.v[k].c_str(), nullptr));
        t += "\n";
      }
  return t;
}
static void extract(Src &s) {
  File f = pyfile(s);
  std::string fn = write_file(f.text(), "f");
  int n = s.i(1, 3);
  s.note([&] { return f.text(); });
  for (int k = 0; k < n; k++) {
    char sys = s.chr("GREC");
    int prn = s.flip() ? s.i(1, 3) * 9 : s.i(1, 99);
    // one that is there, mostly
    if (s.p(3, 4)) {
      auto &e = f.e[s.u(f.e.size() - 1)];
      if (!e.r.empty()) {
        auto &r = e.r[s.u(e.r.size() - 1)];
        if (std::string("GREC").find(r.sys) != std::string::npos)
          sys = r.sys, prn = r.prn;
      }
    }
    std::string sv = fmt("%c%02d", sys, prn), arg = s.flip() ? sv : fmt("%c%d", sys, prn);
    if (s.p(1, 6)) { // with leading zeros, or beyond what there may be
      if (s.flip())
        arg = fmt("%c%03d", sys, prn);
      else
        prn = prn * 10 + s.i(0, 9), arg = sv = fmt("%c%d", sys, prn);
    }
    std::vector<std::string> args = {"-i", fn, "-s", arg};
    switch (s.u(2)) {
    case 0:
      args = {"-s", arg, "-i", fn};
      break;
    case 1:
      args = {"--input", fn, "--svn=" + arg};
    }
    std::string want = expected(f, sv);
    s.note([&] { return arg + " should give\n" + want; });
    auto o = py::run(SCRIPT, args);
    CHECK(o.status == 0, "status", "status %d (%s) for a good file", o.status, o.error.c_str());
    CHECK(o.text == want, "text", "printed:\n%s\ninstead of:\n%s", o.text.c_str(), want.c_str());
    int lines = std::count(want.begin(), want.end(), '\n') - 1;
    s.label(fmt("%d lines", lines));
    if (lines > 1)
      s.nontrivial();
  }
}
// what cannot be extracted is refused, not half printed as if it were all
static void refused(Src &s) {
  File f = pyfile(s);
  f.e.resize(1);
  Rec r = record(s);
  r.zero = true;
  r.sys = 'G';
  r.prn = 7;
  f.e[0].r = {r};
  Epoch e2 = f.e[0];
  e2.t = e2.t.plus(900 * Ep::SEC);
  f.e.push_back(e2);
  std::string text, arg = "G07";
  int what = s.u(6);
  switch (what) {
  case 0: // neither version c nor d
    text = f.text();
    text[1] = s.chr("abe P");
    break;
  case 1: // fractional seconds at an epoch
    f.e[s.u(1)].t.t += s.i(2, 999998) * 100L;
    text = f.text();
    break;
  case 2: // ... of the start of the file
    text = f.text();
    {
      Ep t = f.h.start;
      t.t += s.i(2, 999998) * 100L;
      text.replace(3, 28, t.txt());
    }
    break;
  case 3: { // ends early
    text = f.text();
    text.resize(text.rfind("EOF"));
    break;
  }
  case 4: { // a number that is none
    std::string l = f.e[1].r[0].line(), b = l;
    int k = s.u(3);
    b.replace(4 + 14 * k + s.i(4, 9), 1, "x");
    text = f.text();
    size_t at = text.rfind(l);
    text.replace(at, l.size(), b);
    break;
  }
  case 5: { // a line that belongs to no epoch
    text = f.text();
    size_t at = text.rfind("P" "G07");
    text.insert(at, s.pick(std::vector<std::string>{"/* comment\n", "G07 1.0\n", " PG07\n", "# x\n", "%c\n"}));
    break;
  }
  default:
    text = f.text();
    arg = s.pick(std::vector<std::string>{"J07", "X1", "Gx", "G", "M05", "07", "g07", "G0x7", "S20", "G12x", "G07 x", "R9-", "E1.5"});
  }
  s.note([&] { return text + "\n-s " + arg; });
  s.label(fmt("kind %d", what));
  s.nontrivial();
  std::string fn = write_file(text, "f");
  auto o = py::run(SCRIPT, {"-i", fn, "-s", arg});
  CHECK(o.status != 0, "accepted", "status 0, printed:\n%s", o.text.c_str());
  if (what == 6)
    CHECK(o.text.find("## Ref") == std::string::npos && o.text.find("\"2") == std::string::npos, "argument",
          "printed:\n%s", o.text.c_str());
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C33";
  e.rule = "SP3-c and SP3-d files of 1-6 epochs, with up to 180 satellites in the "
           "header, velocity and correlation lines between, and up to three "
           "satellites each, asked for in all forms of the arguments; the output "
           "compared to the last character. Files and arguments to refuse. "
           "Non-trivial: a satellite listed more than once, or something to refuse";
  e.assumptions = {"no satellite twice at an epoch"};
  e.subs = {{"extract", 12000, 200000, extract}, {"refused", 5000, 50000, refused}};
  return e.main(argc, argv);
}
