// C34 var/pasteoncol.py: lines of two files joined on their first column
#define PBT_MAIN
#include "pbt.hpp"
#include "py.hpp"
using namespace pbt;

static const char *SCRIPT = "var/pasteoncol.py";
typedef std::vector<std::string> Line; // columns, a quoted pair of words is one

struct Txt {
  std::vector<Line> lines; // what counts
  std::string text;
};
static std::string word(Src &s, bool few) {
  if (few)
    return s.pick(std::vector<std::string>{"a", "b", "ab", "1", "10", "1.0", "B"});
  std::string w = s.str("abcXYZ0123456789.+-:#'\"_/", 1, 8);
  return w;
}
static bool quoted(const std::string &w) { return w.find_first_of("'\"") != std::string::npos; }
static std::string key(Src &s, int kind) {
  if (kind == 0) { // as sp3py writes it
    std::string q(1, s.chr("\"\"'"));
    return q + fmt("2020-01-%02d", s.i(1, 3)) + " " + fmt("%02d:15:00", s.i(0, 2)) + q;
  }
  std::string w;
  do
    w = word(s, true);
  while (w[0] == '#');
  return w;
}
static Txt txt(Src &s, int kind, bool &dup) {
  Txt t;
  int n = s.i(0, 7);
  std::set<std::string> have;
  for (int k = 0; k < n; k++) {
    if (s.p(1, 6)) { // something that does not count
      t.text += s.pick(std::vector<std::string>{"\n", "  \n", " \t \n", "# a 1 2\n", "#\n", "#\"2020-01-01 00:15:00\" 3\n"});
      continue;
    }
    Line l{key(s, kind == 2 ? s.u(1) : kind)};
    dup |= !have.insert(l[0]).second;
    int c = s.i(0, 4);
    for (int j = 0; j < c; j++) {
      std::string w = word(s, s.flip());
      if (s.p(1, 8)) { // a pair of words in quotes; quotes are of no other use
        do
          w = word(s, false);
        while (quoted(w));
        w = std::string("\"") + w + " " + w + "\"";
      } else {
        while (quoted(w))
          w = word(s, false);
        if (s.p(1, 12)) // a single word in quotes
          w = "\"" + w + "\"";
      }
      // after a word in quotes, none that would end the pair
      if (quoted(w) && quoted(l.back()) && l.back().find(' ') == std::string::npos)
        w = "x";
      l.push_back(w);
    }
    std::string x;
    for (auto &w : l) {
      if (!x.empty() || s.p(1, 6))
        x += std::string(s.i(1, 3), ' ');
      std::string v = w;
      size_t b = v.find(' ');
      if (b != std::string::npos && s.p(1, 5))
        v.insert(b, s.flip() ? " " : "\t");
      x += v;
    }
    if (s.p(1, 5))
      x += std::string(s.i(1, 3), ' ');
    t.text += x + "\n";
    t.lines.push_back(l);
  }
  if (!t.text.empty() && !t.lines.empty() && s.p(1, 5)) {
    size_t nl = t.text.size() < 2 ? std::string::npos : t.text.rfind('\n', t.text.size() - 2);
    if (t.text.size() - (nl == std::string::npos ? 0 : nl + 1) > 2)
      t.text.pop_back();
  }
  return t;
}
static std::string join(const Line &l) {
  std::string o;
  for (auto &w : l)
    o += (o.empty() ? "" : " ") + w;
  return o;
}
static void paste(Src &s) {
  int kind = s.u(2);
  bool dup = false;
  Txt a = txt(s, kind, dup), b = txt(s, kind, dup);
  std::string fa = write_file(a.text, "f"), fb = write_file(b.text, "g");
  s.note([&] { return "first file:\n" + a.text + "\nsecond file:\n" + b.text; });
  auto &ref = a.lines.size() > b.lines.size() ? a : b;
  auto &cmp = &ref == &a ? b : a;
  std::string want;
  int n = 0;
  for (auto &l : ref.lines)
    for (auto &m : cmp.lines)
      if (l[0] == m[0]) {
        want += join(l) + " " + join(m) + "\n";
        ++n;
        break;
      }
  s.label(fmt("%d pairs", n));
  if (n && (n < int(ref.lines.size()) || dup))
    s.nontrivial();
  auto o = py::run(SCRIPT, {fa, fb});
  CHECK(o.status == 0, "status", "status %d (%s)", o.status, o.error.c_str());
  CHECK(o.text == want, "text", "printed:\n%s\ninstead of:\n%s", o.text.c_str(), want.c_str());
}
static void missing(Src &s) {
  bool dup = false;
  Txt a = txt(s, 0, dup);
  std::string fa = write_file(a.text, "f"), no = fa + ".absent";
  s.nontrivial();
  bool first = s.flip();
  s.note([&] { return std::string("no ") + (first ? "first" : "second") + " file"; });
  auto o = py::run(SCRIPT, first ? std::vector<std::string>{no, fa} : std::vector<std::string>{fa, no});
  CHECK(o.status == 1 && o.text.empty(), "missing", "status %d, printed:\n%s", o.status, o.text.c_str());
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C34";
  e.rule = "pairs of files of up to seven lines with plain and quoted two-word "
           "columns, comment and empty lines, repeated and missing first columns, "
           "the output compared to the last character; files that are not there. "
           "Non-trivial: some lines match, and some do not or first columns repeat";
  e.assumptions = {"lines of at least two characters; quotes only around one or two words"};
  e.subs = {{"paste", 20000, 400000, paste}, {"missing", 500, 5000, missing}};
  return e.main(argc, argv);
}
