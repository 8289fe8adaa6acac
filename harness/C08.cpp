// C08 ANTEX: which files are accepted, and (re)binding an object to a file
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
#include <optional>
using namespace pbt;
using namespace atx;

/// a header, acceptable or not for exactly one reason
static bool draw(Src &s, File &f, std::string &why) {
  f = file(s);
  why = "ok";
  static const std::vector<std::string> good = {"     1.4", "     1.3", "1.4", " 1.4", "   1.40",
                                                "   1.400       "};
  static const std::vector<std::string> bad = {"     1.2", "     1.5", "     2.0", "     14",
                                               "        ", "     3.04", "    11.4", "     abc",
                                               "    -1.4", "    0.14"};
  f.version = s.pick(good);
  switch (s.w({6, 1, 1, 1, 1, 1, 1})) {
  case 0:
    break;
  case 1:
    f.version = s.pick(bad);
    why = "version";
    break;
  case 2:
    f.sys = s.chr("XABDZ0159#?gr");
    why = "system";
    break;
  case 3:
    f.pcv = s.chr("R a-");
    why = "not absolute";
    break;
  case 4:
    f.eoh = false;
    f.ants.clear();
    why = "no end of header";
    break;
  case 5:
    f.head.assign(s.i(1002, 1100), rec("line", "COMMENT"));
    why = "endless header";
    break;
  case 6:
    f.head.assign(s.i(500, 990), rec("line", "COMMENT"));
    why = "long header";
    return true;
  }
  // the columns between version and system may hold anything
  if (s.p(1, 3))
    f.version = pad(f.version, 15) + s.str(" 0123456789x", 0, 5);
  // header lines a little longer than 80 columns are common
  for (auto &h : f.head)
    if (s.p(1, 6) && f.head.size() < 50)
      h += std::string(s.i(0, 84 - h.size()), 'x');
  return why == "ok";
}
static void queries(Src &s, ngpt::Antex &a, const File &f, const char *what) {
  for (int k = 0; k < 2; k++) {
    RQuery q = rquery(s, f);
    int which, want = expect(f, q, which);
    ngpt::AntennaPcoList l;
    int got = a.get_antenna_pco(q.ant(), l, q.must);
    CHECK((got == 0) == (want == 0), "answer", "%s: status %d, expected %d for [%s][%s]", what, got, want,
          q.name.c_str(), q.serial.c_str());
    if (!want)
      CHECK(listed(l) == expected(f.ants[which]), "answer", "%s: got %s expected %s", what,
            listed(l).c_str(), expected(f.ants[which]).c_str());
    SQuery p = squery(s, f);
    int i = expect(f, p);
    got = a.get_antenna_pco(p.prn, ngpt::char_to_satsys(p.sys), p.t.dt(), l);
    CHECK((got == 0) == (i >= 0), "answer", "%s: satellite status %d, block %d", what, got, i);
    if (i >= 0)
      CHECK(listed(l) == expected(f.ants[i]), "answer", "%s: got %s expected %s", what,
            listed(l).c_str(), expected(f.ants[i]).c_str());
  }
}
static void accept(Src &s) {
  File f;
  std::string why;
  bool ok = draw(s, f, why);
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return why + "\n" + brief(f); });
  s.label(why);
  s.nontrivial();
  bool got = true;
  try {
    ngpt::Antex a(fn.c_str());
    CHECK(ok, "accepted", "accepted although: %s", why.c_str());
    CHECK(a.filename() == fn, "filename", "%s", a.filename().c_str());
    queries(s, a, f, "constructed");
  } catch (std::runtime_error &) {
    got = false;
  }
  CHECK(got == ok, "refused", "a valid header was refused (%s)", why.c_str());
}
static void rebind(Src &s) {
  std::vector<File> fs;
  std::vector<std::string> fn, whys;
  std::vector<bool> ok;
  for (int k = 0; k < 3; k++) {
    File f;
    std::string why;
    ok.push_back(draw(s, f, why));
    whys.push_back(why);
    fs.push_back(f);
    fn.push_back(write_file(f.text(), k == 0 ? "f" : k == 1 ? "g" : "h"));
  }
  fs.push_back(File());
  fn.push_back(fn[0] + ".absent");
  ok.push_back(false);
  whys.push_back("absent file");
  ngpt::Antex a;
  int bound = -1;
  int n = s.i(1, 6);
  for (int k = 0; k < n; k++) {
    switch (s.w({3, 1, 1})) {
    case 0: {
      int i = s.u(3);
      s.note([&] { return fmt("reset to file %d (%s)\n", i, whys[i].c_str()) + brief(fs[i]); });
      bool got = true;
      try {
        a.reset_to_file(fn[i].c_str());
      } catch (std::runtime_error &) {
        got = false;
      }
      CHECK(got == ok[i], "reset", "file with (%s) %s", whys[i].c_str(), got ? "accepted" : "refused");
      if (bound >= 0 && got)
        s.nontrivial();
      bound = got ? i : -1;
      break;
    }
    case 1: {
      s.note([&] { return std::string("move construct"); });
      ngpt::Antex b(std::move(a));
      if (bound >= 0)
        queries(s, b, fs[bound], "moved to");
      a = std::move(b);
      break;
    }
    default: {
      s.note([&] { return std::string("move assign over a bound object"); });
      ngpt::Antex b;
      for (int j = 0; j < 3; j++)
        if (ok[j]) {
          b.reset_to_file(fn[j].c_str());
          break;
        }
      b = std::move(a);
      a = std::move(b);
    }
    }
    if (bound >= 0) {
      CHECK(a.filename() == fn[bound], "filename", "%s", a.filename().c_str());
      queries(s, a, fs[bound], "bound");
    } else {
      ngpt::AntennaPcoList l;
      CHECK(a.get_antenna_pco(ngpt::ReceiverAntenna("AOAD/M_T        NONE"), l) > 0, "unbound",
            "an unbound object found an antenna");
    }
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C08";
  e.rule = "random ANTEX files whose header is acceptable or not for one "
           "reason (version, system letter, relative, missing or too distant "
           "END OF HEADER); sequences of reset, move and queries over three "
           "files and an absent one. Non-trivial: every header; a sequence that "
           "binds an already bound object";
  e.subs = {{"accept", 30000, 300000, accept}, {"rebind", 8000, 100000, rebind}};
  return e.main(argc, argv);
}
