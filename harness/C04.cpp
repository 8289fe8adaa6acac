// C04 receiver antenna names: canonical form, radome, serial number
#define PBT_MAIN
#include "pbt.hpp"
#include "antenna.hpp"
using namespace pbt;
using ngpt::ReceiverAntenna;

static const std::string MODEL1 = "ABCDEFGHJKLMNPRSTUVWXYZ0123456789";
static const std::string MODELN = "ABCDEFGHJKLMNPRSTUVWXYZ0123456789/-_.+";
static const std::string RAD = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

static std::string rtrim(std::string s) {
  while (!s.empty() && s.back() == ' ')
    s.pop_back();
  return s;
}
static std::string pad(std::string s, size_t n) {
  s.resize(std::max(n, s.size()), ' ');
  return s;
}

static void names(Src &s) {
  int mform = s.w({6, 3, 1});
  std::string model;
  if (mform != 2) {
    size_t n = mform == 1 ? 15 : s.i(3, 15);
    model = s.str(MODEL1, 1, 1);
    while (model.size() < n)
      model += s.chr(MODELN);
  }
  int form = s.u(5);
  std::string in, rad;
  switch (form) {
  case 0: // model only
    in = model;
    break;
  case 1: // model, some blanks, no radome
    in = pad(model, s.i(model.size(), 20));
    break;
  case 2: // model + full radome
    rad = s.p(1, 5) ? "NONE" : s.str(RAD, 4, 4);
    in = pad(model, 16) + rad;
    break;
  case 3: // short radome, not padded
    rad = s.str(RAD, 1, 3);
    in = pad(model, 16) + rad;
    break;
  case 4: // short or blank radome, padded, then more text
    rad = s.str(RAD, 0, 4);
    in = pad(pad(model, 16) + rad, 20) + s.str(RAD + " ", 0, 45);
    break;
  default: // full radome, then more text
    rad = s.str(RAD, 4, 4);
    in = pad(model, 16) + rad + s.str(RAD + " ", 1, 45);
  }
  std::string want = pad(pad(model, 16) + (rad.empty() ? "NONE" : rad), 20);
  s.note([&] { return "\"" + in + "\""; });
  s.label(rad.empty() ? "no radome" : (rad.size() < 4 ? "short radome" : "radome"));
  s.label(in.size() > 20 ? "more than 20 columns"
                         : (in.size() == 20 ? "20 columns" : "less than 20 columns"));
  if (!model.empty())
    s.nontrivial();
  ReceiverAntenna a(in.c_str()), b{in};
  CHECK(std::string(a.__underlying_char__()).substr(0, 20) == want, "canonical",
        "\"%s\" becomes \"%s\", expected \"%s\"", in.c_str(), a.__underlying_char__(),
        want.c_str());
  CHECK(rtrim(a.__underlying_char__()) == rtrim(want), "tail", "\"%s\" becomes \"%s\"",
        in.c_str(), a.__underlying_char__());
  CHECK(!a.has_serial(), "serial-from-nowhere", "\"%s\" has a serial", in.c_str());
  CHECK(std::string(b.__underlying_char__()) == a.__underlying_char__(), "ctors",
        "constructors disagree on \"%s\"", in.c_str());
  // canonical form is a fixed point
  ReceiverAntenna c(a.__underlying_char__());
  CHECK(std::string(c.__underlying_char__()).substr(0, 20) == want, "fixpoint",
        "\"%s\"", want.c_str());
  // serial numbers, several in a row
  int n = s.u(3);
  for (int k = 0; k < n; k++) {
    std::string sn;
    switch (s.u(3)) {
    case 0:
      sn = s.str("0123456789", 1, 12);
      break;
    case 1:
      for (int q = s.i(0, 26); q > 0; q--)
        sn += char(s.i(32, 126));
      break;
    case 2:
      sn = s.str(" ", 0, 22);
      break;
    default:
      sn = s.str(" A1", 0, 24);
    }
    a.set_serial_nr(sn.c_str());
    s.note([&] { return "set_serial_nr(\"" + sn + "\")"; });
    std::string first = sn.substr(0, 20);
    std::string u = a.__underlying_char__();
    CHECK(u.substr(0, 20) == want, "serial-model", "model is \"%s\" after \"%s\"",
          u.c_str(), sn.c_str());
    CHECK(rtrim(u.substr(20)) == rtrim(first), "serial", "serial is \"%s\" after \"%s\"",
          u.substr(20).c_str(), sn.c_str());
    CHECK(u.size() <= 40, "serial-size", "%zu characters", u.size());
    CHECK(a.has_serial() == !rtrim(first).empty(), "has-serial",
          "has_serial is %d after \"%s\"", a.has_serial(), sn.c_str());
    ReceiverAntenna d(a);
    CHECK(std::string(d.__underlying_char__()) == u, "copy", "copy of \"%s\"", u.c_str());
  }
}

static void blank(Src &s) {
  // the default antenna, created over memory with arbitrary content
  alignas(16) unsigned char mem[sizeof(ReceiverAntenna)];
  unsigned char fill = s.u(255);
  memset(mem, fill, sizeof mem);
  auto *a = new (mem) ReceiverAntenna();
  s.note([&] { return fmt("default antenna, memory %02x", fill); });
  s.nontrivial();
  CHECK(rtrim(a->__underlying_char__()).empty(), "default", "\"%s\"",
        a->__underlying_char__());
  CHECK(!a->has_serial(), "default-serial", "default antenna has a serial");
  std::string sn = s.str("0123456789 ", 0, 20);
  a->set_serial_nr(sn.c_str());
  std::string u = a->__underlying_char__();
  CHECK(rtrim(u.substr(0, 20)).empty() && rtrim(u.substr(20)) == rtrim(sn),
        "default-set", "\"%s\"", u.c_str());
  ReceiverAntenna b("TRM59800.00     SCIS");
  memset(mem, fill, sizeof mem);
  auto *c = new (mem) ReceiverAntenna("TRM59800.00     SCIS");
  CHECK(std::string(b.__underlying_char__()) == c->__underlying_char__(), "memory",
        "depends on memory");
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C04";
  e.rule = "random model names (0-15 characters), radomes (none, 1-4 "
           "characters), with and without padding and text after column 20, "
           "then up to three serial numbers of 0-26 characters. Non-trivial: "
           "the model is not empty";
  e.subs = {{"names", 500000, 6000000, names}, {"blank", 60000, 500000, blank}};
  return e.main(argc, argv);
}
