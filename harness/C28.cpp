// C28 navigation files: damaged ones never crash, hang or invent messages
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_gen.hpp"
#include "mangle.hpp"
#include <memory>
using namespace pbt;
using namespace nav;

struct Seen {
  int st;
  std::string what;
  bool operator==(const Seen &o) const { return st == o.st && what == o.what; }
};
/// everything the frame can tell (must not crash, whatever it holds)
static std::string tell(const NavDataFrame &d, bool full) {
  char c = ngpt::satsys_to_char(d.system());
  std::string r = fmt("%c%d %ld %ld", c, d.prn(), d.toc().mjd().as_underlying_type(),
                      d.toc().sec().as_underlying_type());
  Msg m;
  m.sys = c;
  if (std::string("GRECJIS").find(c) == std::string::npos)
    return r;
  for (int k = 0; k < m.n(); k++)
    if (!m.spare_field(k))
      r += fmt(" %.17g", d.data(k));
  if (!full)
    return r;
  try {
    double x[6] = {0, 0, 0, 0, 0, 0}, clk = 0;
    d.fit_interval();
    if (std::fabs(d.data(m.sys == 'R' ? 6 : 24)) < 1e9)
      d.sv_health();
    d.gps_ura();
    d.gal_sisa();
    d.toe2date<ngpt::milliseconds>();
    auto t = d.toc<ngpt::milliseconds>();
    int st = d.stateNclock(t, x, clk);
    r += fmt(" -> %d", st);
  } catch (std::runtime_error &) {
    r += " -> not for this system";
  }
  return r;
}
/// which headers may be accepted
static bool fine(const std::vector<std::string> &L) {
  if (L.empty() || L[0].size() < 41 || L[0][20] != 'N' || !L[0][40] || !strchr("GRSECJMI", L[0][40]))
    return false;
  char *end;
  strtof(L[0].c_str(), &end);
  if (end == L[0].c_str())
    return false;
  for (size_t k = 1; k < L.size() && k <= 1001; k++)
    if (L[k].size() >= 73 && L[k].compare(60, 13, "END OF HEADER") == 0)
      return true;
  return false;
}
/// headers with one decisive thing wrong
static void heads(Src &s) {
  File f;
  f.head = header(s);
  f.m.push_back(message(s, "GRECJIS"));
  auto L = split_lines(f.text());
  size_t e = 0;
  while (L[e].size() < 73 || L[e].compare(60, 13, "END OF HEADER"))
    ++e;
  std::string why;
  auto put = [&](size_t l, size_t at, char c) {
    why = fmt("'%c' at %zu:%zu", c, l, at);
    L[l][at] = c;
  };
  switch (s.u(6)) {
  case 0: {
    char c = s.chr(" OMnCHGR0");
    put(0, 20, c);
    if (s.flip())
      put(0, 40, s.chr(" GM"));
    break;
  }
  case 1:
    put(0, 40, s.chr(" XNOgm05"));
    break;
  case 2:
    L[0].replace(0, 20, s.flip() ? std::string(20, ' ') : "     x.02           ");
    why = "no version";
    break;
  case 3:
    L.erase(L.begin() + e);
    why = "no END OF HEADER";
    break;
  case 4:
    put(e, 60 + s.u(12), s.chr("x_e"));
    break;
  case 5:
    L.resize(s.u(e));
    why = "ends early";
    break;
  default: // too long a header
    L.insert(L.begin() + 1, s.i(1001, 1500), std::string(60, ' ') + "COMMENT");
    why = "too many lines";
  }
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return why + (L.size() < 100 ? "\n" + text : ""); });
  s.nontrivial();
  bool ok = true;
  try {
    NavigationRnx r(fn.c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "accepted", "a header with %s was accepted", why.c_str());
}
static void damage(Src &s) {
  File f;
  f.head = header(s);
  int n = s.i(1, 4);
  std::string systems = s.flip() ? std::string(1, s.chr("GRECJIS")) : "GRECJIS";
  for (int k = 0; k < n; k++) {
    f.m.push_back(message(s, systems));
    if (f.m.back().sys == 'R' || kepler(f.m.back().sys))
      if (s.flip())
        orbit(s, f.m.back());
  }
  std::string good = f.text(), why;
  std::string text = damaged(s, good, why);
  std::string fn = write_file(text, "f"), gn = write_file(good, "g");
  s.note([&] { return why + "\n" + text; });
  auto L = split_lines(text);
  std::unique_ptr<NavigationRnx> r;
  try {
    r.reset(new NavigationRnx(fn.c_str()));
  } catch (std::runtime_error &) {
    s.label("header refused");
    // a header is refused only for a reason
    std::string first = L.empty() ? "" : L[0];
    bool end = false;
    for (size_t k = 1; k < L.size() && k < 900; k++)
      end |= L[k].size() >= 73 && L[k].compare(60, 13, "END OF HEADER") == 0;
    bool longline = false;
    for (auto &l : L)
      longline |= l.size() > 80 || l.find('\0') != std::string::npos;
    bool ok = first.size() > 40 && first[20] == 'N' && atof(first.c_str()) > 0 &&
              strchr("GRSECJMI", first[40]) && first[40] && end && !longline;
    CHECK(!ok, "refused", "a readable header was refused");
    return;
  }
  CHECK(fine(L), "accepted", "a header that cannot be one was accepted");
  auto all = [&](bool full) {
    std::vector<Seen> v;
    for (size_t k = 0; k < L.size() + 5; k++) {
      NavDataFrame d;
      int st = r->read_next_record(d);
      Seen x{st, st ? "" : tell(d, full)};
      if (!st) {
        // the message begins somewhere
        char c = ngpt::satsys_to_char(d.system());
        bool there = false;
        for (auto &l : L)
          there |= l.size() > 3 && l[0] == c && atoi(l.substr(1, 2).c_str()) == d.prn();
        CHECK(there, "invented", "a message of %c%d was read, but it is nowhere in the file", c,
              d.prn());
      }
      v.push_back(x);
      if (st < 0 || st == 50)
        return v;
    }
    fail("endless", fmt("%zu reads of a file of %zu lines did not reach an end", v.size(), L.size()));
    return v;
  };
  auto a = all(true);
  int okay = 0;
  for (auto &x : a)
    okay += x.st == 0;
  s.label(a.back().st < 0 ? "read to the end" : "stopped");
  if (okay && a.size() > 1)
    s.nontrivial();
  r->rewind();
  auto b = all(true);
  CHECK(a == b, "history", "%zu records the first time, %zu after rewinding, or with other contents",
        a.size(), b.size());
  // searches end, and yield what reading does
  int q = s.i(1, 3);
  for (int k = 0; k < q; k++) {
    const Msg &m = s.pick(f.m);
    NavDataFrame d;
    NavigationRnx::pos_type cur;
    if (s.p(2, 3))
      r->rewind();
    int st;
    char c = s.p(3, 4) ? m.sys : s.chr("GRECJIS");
    if (s.flip())
      st = r->find_next(cur, d, sys(c), s.flip() ? -1 : m.prn);
    else
      st = r->find_next_valid(m.toc.plus(s.iz(-9000, 9000)).dt<ngpt::milliseconds>(), cur, d, sys(c),
                              m.prn);
    if (st == 0) {
      Seen x{0, tell(d, true)};
      CHECK(d.system() == sys(c), "other", "another system found");
      s.label("search succeeded");
    }
    int ps;
    r->peak_satsys(ps);
    if (s.flip())
      r->ignore_next_block();
  }
  // the object can be used for another file
  *r = NavigationRnx(gn.c_str());
  for (int k = 0; k < n; k++) {
    NavDataFrame d;
    int st = r->read_next_record(d);
    CHECK(st == 0, "afterwards", "status %d for message %d of a good file", st, k);
    same(f.m[k], d, "afterwards");
  }
}
/// a line of no system where a message should begin: every operation says so
static void nosystem(Src &s) {
  File f;
  f.head = header(s);
  int n = s.i(0, 3);
  for (int k = 0; k < n; k++)
    f.m.push_back(message(s, "GRECJIS"));
  char bad = s.chr("AMUZX 0129-gre\t#");
  std::string t = f.text();
  if (t.back() != '\n')
    t += '\n';
  Msg ghost = message(s, "GRECJIS");
  auto gl = ghost.lines();
  gl[0][0] = bad;
  for (auto &l : gl)
    t += l + "\n";
  for (auto &l : message(s, "GRECJIS").lines())
    t += l + "\n";
  std::string fn = write_file(t, "u");
  NavigationRnx r(fn.c_str());
  s.note([&] { return fmt("%d messages, then one of '%c'", n, bad); });
  s.nontrivial();
  NavDataFrame d;
  for (int round = s.i(1, 2); round > 0; round--) {
    for (int k = 0; k < n; k++) {
      int st = r.read_next_record(d);
      CHECK(st == 0, "before", "status %d for message %d", st, k);
      same(f.m[k], d, "before");
    }
    NavigationRnx::pos_type cur;
    int how = s.i(bad == 'M', 4), st = 0; // M is a letter of a system, if of no message's
    if (how == 0)
      r.peak_satsys(st);
    else if (how == 1)
      st = r.ignore_next_block();
    else if (how == 2)
      st = r.read_next_record(d);
    else if (how == 3)
      st = r.find_next(cur, d, sys(ghost.sys));
    else
      st = r.find_next_valid(ghost.toc.plus(300).dt<ngpt::milliseconds>(), cur, d, sys(ghost.sys), ghost.prn);
    CHECK(st > 0, "nosystem", "operation %d gives %d at a message of '%c'", how, st, bad);
    r.rewind();
  }
}
/// a message with one number (or part of its epoch) that is none is not delivered
static void broken(Src &s) {
  File f;
  f.head = header(s);
  int n = s.i(1, 4), k = s.u(n - 1);
  for (int j = 0; j < n; j++)
    f.m.push_back(message(s, "GRECJIS"));
  f.last_newline = true;
  Msg &m = f.m[k];
  std::vector<int> fields;
  for (int j = 0; j < m.n(); j++)
    if (!m.spare_field(j))
      fields.push_back(j);
  auto L = m.lines();
  int line = 0, at = 0, len = 1;
  std::string what;
  int kind = s.w({8, 1, 1, 1});
  if (kind == 1) { // a line is lost
    line = s.i(1, L.size() - 1);
    L.erase(L.begin() + line);
    what = "line lost";
  } else if (kind == 2) { // a line ends within (or before) a number
    int j = s.pick(fields);
    line = j < 3 ? 0 : 1 + (j - 3) / 4;
    at = j < 3 ? 23 + 19 * j : 4 + 19 * ((j - 3) % 4);
    L[line].resize(at + L[line].substr(at, 19).find_first_not_of(' '));
    what = "line cut";
  } else if (kind == 3) { // a line beyond what a line can be: refused, or else read as if nothing were
    line = s.u(L.size() - 1);
    L[line].resize(std::max<size_t>(L[line].size(), 80), ' ');
    L[line].resize(s.pick(std::vector<int>{127, 128, 129, 200, 256, 1000, 5000}), ' ');
    what = "line too long";
  } else if (s.p(1, 3)) {
    static const int where[] = {4, 9, 12, 15, 18, 21};
    at = where[s.u(5)];
    what = std::string(at == 4 ? 4 : 2, s.chr("x#?-"));
    if (what[0] == '-')
      what = "x-";
  } else {
    int j = s.pick(fields);
    line = j < 3 ? 0 : 1 + (j - 3) / 4;
    at = j < 3 ? 23 + 19 * j : 4 + 19 * ((j - 3) % 4);
    len = 19;
    std::string was = L[line].substr(at, 19);
    size_t first = was.find_first_not_of(' ');
    switch (s.u(3)) {
    case 0:
      what = std::string(19, ' ');
      break;
    case 3:
      what = spoilt(s, was);
      break;
    case 1:
      what = was;
      what[first == std::string::npos ? 0 : first] = s.chr("x#?EeD");
      if (first == std::string::npos)
        what[0] = 'x';
      break;
    default:
      what = std::string(s.i(1, 18), s.chr("*#?-."));
      what.resize(19, ' ');
    }
  }
  (void)len;
  if (!kind)
    L[line].replace(at, what.size(), what);
  s.label(kind ? what : std::string("field"));
  std::string t;
  for (auto &h : f.head)
    t += h + "\n";
  for (int j = 0; j < n; j++)
    for (auto &l : j == k ? L : f.m[j].lines())
      t += l + "\n";
  std::string fn = write_file(t, "b");
  s.note([&] { return fmt("[%s] in line %d, column %d of message %d\n", what.c_str(), line, at, k) + t; });
  s.nontrivial();
  NavigationRnx r(fn.c_str());
  NavDataFrame d;
  for (int j = 0; j < k; j++) {
    int st = r.read_next_record(d);
    CHECK(st == 0, "before", "status %d for message %d", st, j);
    same(f.m[j], d, "before");
  }
  int st = r.read_next_record(d);
  if (kind == 3 && !st)
    same(m, d, "long line");
  else
    CHECK(st > 0, "broken", "status %d for a message that cannot be read", st);
  r.rewind();
  if (k) {
    st = r.read_next_record(d);
    CHECK(st == 0, "before", "status %d for message 0, rewound", st);
    same(f.m[0], d, "before");
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C28";
  e.rule = "random files of 1-4 messages damaged in 1-12 ways (fields and "
           "characters replaced, lines cut, lost, repeated, exchanged, "
           "lengthened, columns shifted, CRLF, truncation), read to the end "
           "twice, searched, then the object is assigned an undamaged file; "
           "kept inputs chosen by branch coverage; and "
           "messages with one number or part of the epoch that is none, which "
           "must not be delivered; "
           "a message of no system after 0-3 intact ones, met by each "
           "operation; "
           "headers with one decisive thing wrong, which must be refused. Non-trivial: the header is "
           "accepted and at least one message read";
  e.subs = {{"damage", 30000, 500000, damage, true}, {"headers", 4000, 50000, heads},
            {"nosystem", 4000, 50000, nosystem},
            {"broken", 12000, 150000, broken}};
  return e.main(argc, argv);
}
