// C05 receiver antennas: comparison of model, radome and serial number
#define PBT_MAIN
#include "pbt.hpp"
#include "antenna.hpp"
using namespace pbt;
using ngpt::ReceiverAntenna;

static std::string rtrim(std::string s) {
  while (!s.empty() && s.back() == ' ')
    s.pop_back();
  return s;
}
struct A {
  std::string model, rad, serial;
  bool set = false;
  std::string text() const {
    std::string t = model;
    t.resize(16, ' ');
    return t + rad;
  }
  ReceiverAntenna mk() const {
    ReceiverAntenna a(text().c_str());
    if (set)
      a.set_serial_nr(serial.c_str());
    return a;
  }
  std::string show() const {
    return "[" + text() + "]" + (set ? " serial [" + serial + "]" : "");
  }
  bool has() const { return set && !rtrim(serial).empty(); }
};
static std::string serial(Src &s) {
  switch (s.u(4)) {
  case 0:
    return s.str("12", 1, 3);
  case 1:
    return s.str("A12", 18, 20);
  case 2:
    return s.str(" ", 0, 20);
  case 3:
    return " " + s.str("12", 1, 3);
  default:
    return s.str("0123456789ABCDEFGHIJ-/", 1, 20);
  }
}
static A draw(Src &s) {
  A a;
  a.model = s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 1) +
            s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/-_.+", 0, 14);
  a.rad = s.p(1, 3) ? "NONE" : s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 4, 4);
  a.set = s.p(3, 4);
  if (a.set)
    a.serial = serial(s);
  return a;
}
static char other(Src &s, char c) {
  char d = s.chr("ABCDEFGHIJ");
  return d == c ? 'Z' : d;
}
static A mutate(Src &s, A a) {
  for (int k = s.u(2); k > 0; k--)
    switch (s.u(5)) {
    case 0: {
      size_t p = s.u(a.model.size() - 1);
      a.model[p] = other(s, a.model[p]);
      break;
    }
    case 1:
      if (a.model.size() > 1 && s.flip())
        a.model.pop_back();
      else if (a.model.size() < 15)
        a.model += 'Q';
      break;
    case 2: {
      size_t p = s.u(3);
      a.rad[p] = other(s, a.rad[p]);
      break;
    }
    case 3:
      a.set = true;
      a.serial = serial(s);
      break;
    case 4:
      a.set = false;
      a.serial.clear();
      break;
    default:
      if (a.set && !a.serial.empty()) {
        size_t p = s.u(a.serial.size() - 1);
        a.serial[p] = other(s, a.serial[p]);
      }
    }
  return a;
}

static void pairs(Src &s) {
  A x = draw(s), y = mutate(s, x);
  s.note([&] { return x.show() + "  vs  " + y.show(); });
  ReceiverAntenna a = x.mk(), b = y.mk();
  // text beyond column 20 belongs to neither
  if (s.p(1, 3))
    a = ReceiverAntenna((x.text() + s.str("0123456789 ", 1, 30)).c_str()),
    x.set ? a.set_serial_nr(x.serial.c_str()) : (void)0;
  bool model = x.text() == y.text();
  bool same = model && x.has() && y.has() && rtrim(x.serial) == rtrim(y.serial);
  s.label(same ? "same" : (model ? "same model" : "different model"));
  s.nontrivial();
  CHECK(a.is_same(b) == same, "same", "is_same=%d: %s | %s", a.is_same(b),
        x.show().c_str(), y.show().c_str());
  CHECK(b.is_same(a) == same, "same-sym", "is_same=%d: %s | %s", b.is_same(a),
        y.show().c_str(), x.show().c_str());
  CHECK(a.compare_model(b) == model && b.compare_model(a) == model, "model",
        "compare_model=%d: %s | %s", a.compare_model(b), x.show().c_str(),
        y.show().c_str());
  CHECK(a.is_same(a) == x.has(), "same-self", "%s", x.show().c_str());
  CHECK(a.compare_model(a), "model-self", "%s", x.show().c_str());
  ReceiverAntenna c(b);
  c = a;
  CHECK(c.is_same(b) == same && c.compare_model(b) == model, "assign", "%s",
        x.show().c_str());
}

static void serials(Src &s) {
  A x = draw(s);
  x.set = true;
  x.serial = serial(s);
  std::string t = s.flip() ? x.serial : serial(s);
  int m = s.u(3);
  if (m == 1 && !t.empty())
    t.pop_back();
  else if (m == 2 && t.size() < 20)
    t += s.chr("12 ");
  else if (m == 3 && !t.empty()) {
    size_t p = s.u(t.size() - 1);
    t[p] = other(s, t[p]);
  }
  // texts that differ in trailing blanks only: not decided here
  bool eq = t == x.serial;
  bool undecided = !eq && rtrim(t) == rtrim(x.serial);
  ReceiverAntenna a = x.mk();
  s.note([&] { return "serial [" + x.serial + "] against [" + t + "]"; });
  s.label(undecided ? "differs in trailing blanks (no verdict)"
                    : (eq ? "equal" : "different"));
  if (!undecided) {
    s.nontrivial();
    CHECK(a.compare_serial(t.c_str()) == eq, "compare-serial",
          "serial [%s] against [%s]: %d", x.serial.c_str(), t.c_str(),
          a.compare_serial(t.c_str()));
  }
  A y = x;
  y.set = false;
  if (!rtrim(t).empty())
    CHECK(!y.mk().compare_serial(t.c_str()), "no-serial",
          "no serial compares equal to [%s]", t.c_str());
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C05";
  e.rule = "pairs of antennas, the second a mutation of the first in 0-2 "
           "places (model character, model length, radome character, serial "
           "number replaced, removed or changed in one character), and serial "
           "numbers against near misses. Non-trivial: the case has a verdict";
  e.assumptions = {"serial numbers that differ in trailing blanks only are not "
                   "distinguished (fixed 20 column field)"};
  e.subs = {{"pairs", 500000, 6000000, pairs}, {"serials", 300000, 3000000, serials}};
  return e.main(argc, argv);
}
