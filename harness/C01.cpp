// C01 observation codes: parse, print, compare
#define PBT_MAIN
#include "pbt.hpp"
#include "gnssobs.hpp"
using namespace pbt;
using namespace ngpt;

static const std::string TYPES = "CLDSIX";
static const OBSERVABLE_TYPE TV[] = {
    OBSERVABLE_TYPE::pseudorange,     OBSERVABLE_TYPE::carrier_phase,
    OBSERVABLE_TYPE::doppler,         OBSERVABLE_TYPE::signal_strength,
    OBSERVABLE_TYPE::ionosphere_phase_delay,
    OBSERVABLE_TYPE::receiver_channel_number, OBSERVABLE_TYPE::any};

// a printable character that is no blank
static char attr_char(Src &s) {
  if (s.p(3, 4))
    return s.chr("CSLXPWYMNIQABZD?");
  return char(s.i(33, 126));
}

static void roundtrip(Src &s) {
  size_t t = s.u(5);
  int band = s.u(9);
  int form = s.u(3); // 0: 2 chars, 1: 3 chars, 2: blank third, 3: with trailing
  std::string str = std::string(1, TYPES[t]) + char('0' + band);
  char a = '?';
  if (form == 1)
    str += (a = attr_char(s));
  else if (form == 2) {
    str += ' ';
    str += s.str("CLDSIX 0123456789?", 0, 6);
  } else if (form == 3) {
    str += (a = attr_char(s));
    for (int k = s.i(1, 12); k > 0; k--)
      str += char(s.i(32, 126));
  }
  s.note([&] { return "ObservationCode(\"" + esc(str) + "\")"; });
  if (form)
    s.nontrivial();
  s.label(fmt("form%d", form));
  ObservationCode c(str.c_str());
  const ObservationCode &cc = c;
  CHECK(cc.get<0>() == TV[t], "type", "type of '%s'", str.c_str());
  CHECK(cc.band() == band && cc.get<1>() == band, "band",
        "band of '%s' is %d", str.c_str(), cc.band());
  CHECK(cc.get<2>().as_char() == a, "attr", "attribute of '%s' is '%c'",
        str.c_str(), cc.get<2>().as_char());
  std::string want = std::string(1, TYPES[t]) + char('0' + band) + a;
  CHECK(c.to_string() == want, "print", "'%s' prints as '%s', not '%s'",
        str.c_str(), c.to_string().c_str(), want.c_str());
  ObservationCode d(c.to_string().c_str());
  CHECK(d == c && !(d != c), "reparse", "print of '%s' does not parse back",
        str.c_str());
  ObservationCode b(TV[t], band, ObservationAttribute(a));
  CHECK(b == c, "construct", "'%s' differs from the code built from its parts",
        str.c_str());
  auto [x, y, z] = cc;
  CHECK(x == TV[t] && y == band && z.as_char() == a, "bindings",
        "structured binding of '%s'", str.c_str());
}

static void reject(Src &s) {
  std::string str;
  int form = s.u(2);
  if (form == 0)
    str = s.str("CLDSIX120 ", 0, 1);
  else {
    char c;
    do
      c = char(s.i(form == 1 ? 32 : 1, form == 1 ? 126 : 255));
    while (TYPES.find(c) != std::string::npos);
    str = std::string(1, c) + s.str("0123456789", 1, 1) + s.str("CPWX ", 0, 3);
  }
  s.note([&] { return "rejects \"" + esc(str) + "\""; });
  s.nontrivial();
  bool threw = false;
  try {
    ObservationCode c(str.c_str());
  } catch (std::runtime_error &) {
    threw = true;
  }
  CHECK(threw, "accepts-invalid", "no error for '%s'", esc(str).c_str());
}

static void letters(Src &s) {
  // exhaustive in practice: 256 values, thousands of cases
  int v = s.u(255);
  char c = char(v);
  s.note([&] { return fmt("character %d", v); });
  s.nontrivial();
  size_t k = TYPES.find(c);
  try {
    auto t = char_to_observabletype(c);
    CHECK(k != std::string::npos, "letter-accept", "character %d accepted", v);
    CHECK(t == TV[k], "letter-map", "character %c", c);
    CHECK(observabletype_to_char(t) == c, "letter-back", "character %c", c);
  } catch (std::runtime_error &) {
    CHECK(k == std::string::npos, "letter-reject", "character %c rejected", c);
  }
  CHECK(observabletype_to_char(OBSERVABLE_TYPE::any) == '?', "any", "any");
}

struct M {
  int t, b;
  char a;
};
static M mdraw(Src &s) {
  return {int(s.u(6)), int(s.u(4)), s.chr("CPX?")};
}
static ObservationCode mk(const M &m) {
  return ObservationCode(TV[m.t], m.b, ObservationAttribute(m.a));
}
static void equality(Src &s) {
  M m = mdraw(s), n = m;
  int nd = s.u(3);
  for (int k = 0; k < nd; k++)
    switch (s.u(2)) {
    case 0:
      n.t = s.u(6);
      break;
    case 1:
      n.b = s.u(9);
      break;
    default:
      n.a = s.chr("CPX?WI");
    }
  ObservationCode x = mk(m), y = mk(n);
  // reach the same value by editing in place too
  int how = s.u(2);
  if (how == 1) {
    y = mk(m);
    y.get<0>() = TV[n.t];
    y.band() = n.b;
    y.get<2>() = ObservationAttribute(n.a);
  } else if (how == 2) {
    y = ObservationCode();
    CHECK(y == ObservationCode(OBSERVABLE_TYPE::any, 0, ObservationAttribute('?')),
          "default", "default code");
    y.get<1>() = n.b;
    y.get<0>() = TV[n.t];
    y.get<2>() = ObservationAttribute(n.a);
  }
  bool eq = m.t == n.t && m.b == n.b && m.a == n.a;
  s.note([&] {
    return fmt("compare %d/%d/%c with %d/%d/%c", m.t, m.b, m.a, n.t, n.b, n.a);
  });
  s.label(eq ? "equal" : "different");
  s.nontrivial();
  CHECK((x == y) == eq, "eq", "x==y is %d for %s %s", x == y,
        x.to_string().c_str(), y.to_string().c_str());
  CHECK((y == x) == eq, "eq-sym", "y==x");
  CHECK((x != y) == !eq, "neq", "x!=y");
  CHECK(x == x && !(x != x), "reflexive", "x==x");
  CHECK((ObservationAttribute(m.a) == ObservationAttribute(n.a)) == (m.a == n.a) &&
            (ObservationAttribute(m.a) != ObservationAttribute(n.a)) ==
                (m.a != n.a),
        "attr-eq", "attributes %c %c", m.a, n.a);
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C01";
  e.rule = "random code strings over all types, bands 0-9, printable "
           "attributes, with and without trailing text; invalid strings; all "
           "256 letters; pairs of codes differing in 0-3 components. Non-trivial: "
           "the string has an attribute, blank or trailing text, or is invalid, "
           "or the case compares two codes";
  e.subs = {{"roundtrip", 300000, 4000000, roundtrip},
            {"reject", 60000, 600000, reject},
            {"letters", 20000, 60000, letters},
            {"equality", 300000, 3000000, equality}};
  return e.main(argc, argv);
}
