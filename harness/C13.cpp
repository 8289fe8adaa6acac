// C13 navigation files: reading, peeking, skipping, searching and rewinding
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "nav_gen.hpp"
using namespace pbt;
using namespace nav;

static void steps(Src &s) {
  File f;
  f.head = header(s);
  int n = s.i(0, 8);
  std::string systems = s.flip() ? "GR" : "GRECJIS";
  for (int k = 0; k < n; k++) {
    Msg m = message(s, systems);
    if (s.p(3, 4))
      m.prn = s.i(1, 3);
    f.m.push_back(m);
  }
  f.last_newline = !s.p(1, 4);
  std::string fn = write_file(f.text(), "f");
  s.note([&] { return brief(f); });
  NavigationRnx first(fn.c_str()), other(fn.c_str());
  NavigationRnx *r = &first;
  int pos = 0;
  std::vector<std::pair<std::ifstream::pos_type, int>> marks;
  int ops = s.i(1, 14), kinds = 0;
  for (int o = 0; o < ops; o++) {
    NavDataFrame d;
    int op = s.w({4, 3, 3, 5, 2, 2, 1});
    kinds |= 1 << op;
    switch (op) {
    case 0: {
      int st = r->read_next_record(d);
      s.note([&] { return fmt("read -> %d (at %d)", st, pos); });
      if (pos < n) {
        CHECK(st == 0, "read", "status %d at message %d of %d", st, pos, n);
        same(f.m[pos], d, "read");
        ++pos;
      } else
        CHECK(st < 0, "read-end", "status %d at the end", st);
      break;
    }
    case 1: {
      int st = 777;
      auto y = r->peak_satsys(st);
      s.note([&] { return fmt("peek -> %d (at %d)", st, pos); });
      if (pos < n)
        CHECK(st == 0 && y == sys(f.m[pos].sys), "peek", "status %d, system %c at message %d (%c)", st,
              ngpt::satsys_to_char(y), pos, f.m[pos].sys);
      else
        CHECK(st < 0, "peek-end", "status %d at the end", st);
      break;
    }
    case 2: {
      int st = r->ignore_next_block();
      s.note([&] { return fmt("ignore -> %d (at %d)", st, pos); });
      if (pos < n) {
        CHECK(st == 0, "ignore", "status %d at message %d", st, pos);
        ++pos;
      } else
        CHECK(st < 0, "ignore-end", "status %d at the end", st);
      break;
    }
    case 3: {
      char c = n && s.p(3, 4) ? s.pick(f.m).sys : s.chr("GRECJIS");
      int prn = s.p(1, 3) ? -1 : n && s.flip() ? s.pick(f.m).prn : s.i(0, 3);
      int want = pos;
      while (want < n && !(f.m[want].sys == c && (prn < 0 || f.m[want].prn == prn)))
        ++want;
      NavigationRnx::pos_type cur;
      int st = prn < 0 && s.flip() ? r->find_next(cur, d, sys(c)) : r->find_next(cur, d, sys(c), prn);
      s.note([&] { return fmt("find %c %d -> %d (at %d)", c, prn, st, pos); });
      if (want < n) {
        CHECK(st == 0, "find", "status %d, message %d is a %c%d", st, want, c, prn);
        same(f.m[want], d, "found");
      } else
        CHECK(st < 0, "find-none", "status %d, but there is no %c%d from message %d on", st, c, prn, pos);
      if (s.p(1, 3)) { // pretend nothing changed
        s.note([&] { return fmt("back to before the search"); });
        r->rewind(cur);
      } else {
        marks.emplace_back(cur, pos);
        pos = want < n ? want + 1 : n;
      }
      break;
    }
    case 4:
      s.note([&] { return fmt("rewind"); });
      r->rewind();
      pos = 0;
      break;
    case 5:
      if (!marks.empty()) {
        auto m = s.pick(marks);
        s.note([&] { return fmt("rewind to %d", m.second); });
        r->rewind(m.first);
        pos = m.second;
      }
      break;
    default:
      s.note([&] { return fmt("move"); });
      if (r == &first) {
        other = std::move(first);
        r = &other;
      } else {
        first = std::move(other);
        r = &first;
      }
    }
  }
  if (n >= 2 && __builtin_popcount(kinds) >= 3)
    s.nontrivial();
}
/// a search over thousands of messages
static void longer(Src &s) {
  File f;
  f.head = header(s);
  std::string text;
  Msg filler = message(s, "R"), other = message(s, "S"), want = message(s, s.flip() ? "GECJI" : "R");
  filler.prn = 1;
  want.prn = 2;
  std::string block;
  for (auto &l : filler.lines())
    block += l + "\n";
  int n = s.i(100, 7000), m = s.i(0, 3);
  text = f.text();
  if (text.back() != '\n')
    text += '\n';
  for (int k = 0; k < n; k++)
    text += block;
  for (auto &l : want.lines())
    text += l + "\n";
  for (int k = 0; k < m; k++)
    for (auto &l : other.lines())
      text += l + "\n";
  std::string fn = write_file(text, "f");
  s.note([&] { return fmt("%d messages of R01, then %c%02d", n, want.sys, want.prn); });
  NavigationRnx r(fn.c_str());
  NavDataFrame d;
  NavigationRnx::pos_type cur;
  int st = r.find_next(cur, d, sys(want.sys), want.sys == 'R' || s.flip() ? want.prn : -1);
  CHECK(st == 0, "far", "status %d searching over %d messages", st, n);
  same(want, d, "far");
  for (int k = 0; k < m; k++)
    CHECK((st = r.ignore_next_block()) == 0, "rest", "status %d behind the one found", st);
  CHECK((st = r.ignore_next_block()) < 0, "rest", "status %d at the end", st);
  r.rewind(cur);
  st = r.read_next_record(d);
  CHECK(st == 0, "back", "status %d", st);
  same(filler, d, "back");
  s.nontrivial();
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C13";
  e.rule = "sequences of 1-14 read, peek, ignore, find, rewind (to the start, "
           "to before an earlier search) and move operations on files of 0-8 "
           "messages against a cursor model; searches over up to 7000 messages. Non-trivial: at least two messages "
           "and three kinds of operation";
  e.subs = {{"steps", 40000, 500000, steps}, {"long", 40, 600, longer}};
  return e.main(argc, argv);
}
