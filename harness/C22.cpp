// C22 SP3 headers
#define PBT_MAIN
#include "pbt.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

static std::string trim(std::string t) {
  while (!t.empty() && isspace((unsigned char)t.back()))
    t.pop_back();
  size_t k = 0;
  while (k < t.size() && isspace((unsigned char)t[k]))
    ++k;
  return t.substr(k);
}
static std::string padded(std::string t, size_t n) {
  t.resize(std::max(n, t.size()), ' ');
  return t;
}
static void good(Src &s) {
  Head h = header(s);
  if (s.p(1, 20)) // nearly as long as headers may be
    for (int k = s.i(7, 900); k > 0; k--)
      h.comments.push_back(" comment");
  File f;
  f.h = h;
  if (s.flip())
    f.e.push_back(epoch(s, std::min(3, h.nsats), h.start));
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return f.text(); });
  std::unique_ptr<Sp3c> p;
  try {
    p.reset(new Sp3c(fn.c_str()));
  } catch (std::runtime_error &e) {
    fail("refused", e.what());
  }
  CHECK(p->num_sats() == h.nsats, "sats", "%d satellites instead of %d", p->num_sats(), h.nsats);
  CHECK(p->interval().as_underlying_type() == h.interval / 100, "interval", "interval %ld us instead of %ld",
        long(p->interval().as_underlying_type()), h.interval / 100);
  CHECK(p->allocate_epoch_vector().size() == size_t(h.nsats), "vector", "vector of %zu for %d satellites",
        p->allocate_epoch_vector().size(), h.nsats);
  std::string out = capture_stdout([&] { p->print_members(); });
  auto member = [&](const std::string &name) -> std::string {
    size_t a = 0;
    while (a < out.size()) {
      size_t e = out.find('\n', a);
      if (e == std::string::npos)
        e = out.size();
      std::string l = out.substr(a, e - a);
      size_t c = l.find(':');
      if (c != std::string::npos && trim(l.substr(0, c)) == name)
        return l.substr(c + 1);
      a = e + 1;
    }
    fail("print", "no line '" + name + "' in " + out);
    return "";
  };
  auto is = [&](const char *name, const std::string &want) {
    CHECK(member(name) == want, name, "%s is [%s], not [%s]", name, esc(member(name)).c_str(), want.c_str());
  };
  is("filename", fn);
  is("Version", std::string(1, h.version));
  is("Start Epoch", ngpt::strftime_ymd_hms(h.start.time()));
  is("# Epochs", std::to_string(h.epochs));
  is("Coordinate S", padded(h.crd, 5));
  is("Orbit Type", padded(h.orb, 3));
  is("Agency", padded(h.agency, 4));
  is("Time System", padded(h.tsys, 3));
  double iv = strtod(member("Interval").c_str(), nullptr), want = h.interval * 1e-8;
  CHECK(std::fabs(iv - want) <= 1e-5 * want + 1e-6, "Interval", "interval printed as %g, is %g", iv, want);
  // the first record read is the first epoch
  if (!f.e.empty()) {
    auto v = p->allocate_epoch_vector();
    Time t;
    int n = -7, st = p->get_next_epoch(t, v, n);
    CHECK(st == -1, "first", "status %d for the only epoch", st);
    same(f.e[0], t, v, n);
  }
  if (h.start.t || h.nsats > 17 || h.comments.size() != 4)
    s.nontrivial();
  s.label(fmt("version %c", h.version));
}
static void refused(Src &s) {
  Head h = header(s);
  int what = s.u(19);
  if (what == 19) // at a full minute
    h.start.t -= h.start.t % (60 * Ep::SEC);
  auto L = h.lines();
  std::string why;
  auto put = [&](size_t l, size_t at, const std::string &t) {
    why = fmt("[%s] at %zu:%zu", t.c_str(), l, at);
    L[l].resize(std::max(L[l].size(), at + t.size()), ' ');
    L[l].replace(at, t.size(), t);
  };
  size_t acc = 2 + h.nlines, pct = 2 + 2 * h.nlines;
  switch (what) {
  case 0:
    put(0, 0, std::string(1, s.chr(" %+*/c")));
    break;
  case 1:
    put(0, 1, std::string(1, s.chr("ab CDe#1")));
    break;
  case 2: // the date
    switch (s.u(4)) {
    case 0:
      put(0, 3, s.flip() ? "    " : "   0");
      break;
    case 1:
      put(0, 8, s.pick(std::vector<std::string>{"  ", " 0", "13", "99", "-1"}));
      break;
    case 2:
      put(0, 11, s.pick(std::vector<std::string>{"  ", " 0", "32", "99", "-1"}));
      break;
    case 3:
      put(0, s.flip() ? 14 : 17, s.flip() ? "  " : "xx");
      break;
    default:
      put(0, 8, " 2 30");
    }
    break;
  case 3:
    put(0, 32, s.pick(std::vector<std::string>{"       ", "      0"}));
    break;
  case 4:
    put(1, s.u(1), std::string(1, s.chr(" %+*/c")));
    break;
  case 5: { // another week
    long w = (h.start.mjd - 44244) / 7, x = s.i(1, 9999);
    if (x == w)
      x = w + 1;
    put(1, 3, fmt("%4ld", x));
    break;
  }
  case 6: { // another second of the week
    long sow = ((h.start.mjd - 44244) % 7) * Ep::DAY + h.start.t, d = s.iz(1, 600000) * Ep::SEC;
    if (s.flip())
      d = s.flip() ? s.i(1, 999) * Ep::SEC / 1000 : s.i(1000, 100000); // 10 us to 1 ms
    long x = sow + d > 604800 * Ep::SEC ? sow - d : sow + d;
    if (x < 0)
      x = sow + Ep::SEC;
    put(1, 8, fmt("%6ld.%08ld", x / Ep::SEC, x % Ep::SEC));
    break;
  }
  case 7: { // another MJD
    long x = h.start.mjd + (s.flip() ? s.i(1, 9999) : -s.i(1, 9999));
    put(1, 39, fmt("%5ld", x));
    break;
  }
  case 8: { // another fraction of the day
    double fr = double(h.start.t) / Ep::DAY, d = s.flip() ? s.i(1, 400) * 1e-3 : s.flip() ? s.i(1, 1000) * 1e-6 : s.i(1, 1000) * 1e-9;
    fr = fr + d < 1 ? fr + d : fr - d;
    put(1, 45, fmt("%.13f", fr));
    break;
  }
  case 9:
    put(2, 0, s.pick(std::vector<std::string>{"  ", "++", "* ", "# "}));
    break;
  case 10:
    put(2, 3, s.pick(std::vector<std::string>{"   ", "  0", " -1", " xx"}));
    break;
  case 11: // no accuracy lines
    L.erase(L.begin() + acc, L.begin() + pct);
    why = "no accuracies";
    break;
  case 12: {
    size_t l = pct + s.u(5);
    put(l, s.u(1), std::string(1, s.chr(" x#*")));
    break;
  }
  case 13: {
    size_t l = pct + s.u(5);
    L.erase(L.begin() + l);
    why = "a line of % is lost";
    break;
  }
  case 14:
    if (h.comments.empty())
      L.push_back("/ comment");
    else
      put(pct + 6 + s.u(h.comments.size() - 1), 1, std::string(1, s.chr(" /x")));
    break;
  case 15: { // ends early
    size_t n = s.u(pct + 5);
    L.resize(n);
    why = fmt("only %zu lines", n);
    break;
  }
  case 16: // blank numbers of line 2
    switch (s.u(2)) {
    case 0:
      put(1, 3, "    ");
      break;
    case 1:
      put(1, 39, "     ");
      break;
    default:
      put(1, 39, "    0");
    }
    break;
  case 19: { // the right instant, but no such time of day
    Ep e = h.start.plus(-60 * Ep::SEC);
    std::string t = e.txt(); // yyyy mm dd hh mm ss.ssssssss
    if (t.substr(14, 2) == "59") {
      if (t.substr(11, 2) == "23" && s.flip())
        put(0, 3, t.substr(0, 11) + "24  0  0.00000000");
      else if (s.flip())
        put(0, 3, t.substr(0, 14) + "60  0.00000000");
      else
        put(0, 3, t.substr(0, 17) + "60.00000000");
    } else
      put(0, 3, t.substr(0, 17) + "60.00000000");
    break;
  }
  case 17:
    std::swap(L[0], L[1]);
    why = "first two lines exchanged";
    break;
  default:
    L.erase(L.begin() + s.u(2));
    // one of the satellite lines may be spared if there is another
    if (L[2][0] == '+' && L[2][1] == ' ' && L[1][1] == '#')
      L.erase(L.begin() + 2);
    why = "a line is lost";
    if (L[2][0] == '+' && L[2][1] == ' ' && L[1][1] == '#')
      L[2] = L[2].substr(0, 3);
  }
  std::string text;
  for (auto &l : L)
    text += l + "\n";
  text += "EOF\n";
  std::string fn = write_file(text, "f");
  s.note([&] { return why + "\n" + text; });
  bool ok = true;
  try {
    Sp3c p(fn.c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "accepted", "a header with %s was accepted", why.c_str());
  s.nontrivial();
  ok = true;
  try {
    Sp3c p((fn + ".absent").c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "absent", "a file that does not exist was accepted");
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C22";
  e.rule = "random SP3-c/d headers (1-999 satellites, starts at any 10 ns, 0-6 "
           "comments) against the model that wrote them, and headers with one "
           "thing wrong that must be refused. Non-trivial: a start off midnight, "
           "more than one line of satellites or other than four comments; all "
           "of the wrong ones";
  e.subs = {{"good", 12000, 150000, good}, {"refused", 12000, 150000, refused}};
  return e.main(argc, argv);
}
