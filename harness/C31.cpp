// C31 SATELLIT files: damaged ones never crash, hang or invent satellites
#define PBT_MAIN
#include "bern_gen.hpp"
#include "mangle.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace bern;

/// the lines without which a file is refused
static const char *const L1 = "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
static const char *const L2 = "PART 2: ON-BOARD SENSORS";
static const char *const H1 =
    "                                              START TIME           END TIME                 SENSOR OFFSETS "
    "(M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)";
static const char *const H2 =
    "PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ   "
    "      X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>";
static bool is(const std::vector<std::string> &L, size_t k, const char *t) {
  return k < L.size() && L[k].compare(0, strlen(t), t) == 0;
}
static bool fine(const std::vector<std::string> &L) {
  if (!is(L, 0, L1))
    return false;
  size_t k = 1;
  while (k < L.size() && !is(L, k, L2))
    ++k;
  return is(L, k + 2, H1) && is(L, k + 3, H2);
}
/// headers with one decisive thing wrong
static void heads(Src &s) {
  File f = file(s, 3);
  auto L = split_lines(f.text());
  size_t p = 1;
  while (!is(L, p, L2))
    ++p;
  const struct {
    size_t k;
    const char *t;
  } must[] = {{0, L1}, {p, L2}, {p + 2, H1}, {p + 3, H2}};
  auto &m = must[s.u(3)];
  std::string why;
  switch (s.w({4, 1, 1})) {
  case 0: {
    size_t at = s.u(strlen(m.t) - 1);
    char c = s.chr("x#? 0");
    if (c == L[m.k][at])
      c = '!';
    L[m.k][at] = c;
    why = fmt("'%c' at %zu:%zu", c, m.k, at);
    break;
  }
  case 1:
    L.erase(L.begin() + m.k);
    why = fmt("no line %zu", m.k);
    break;
  default:
    L[m.k].resize(s.u(strlen(m.t) - 1));
    why = fmt("line %zu cut", m.k);
  }
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return why + "\n" + text; });
  s.nontrivial();
  bool ok = true;
  try {
    BernSatellit b(fn.c_str());
  } catch (std::runtime_error &) {
    ok = false;
  }
  CHECK(!ok, "accepted", "a header with %s was accepted", why.c_str());
}
/// the record that would answer cannot be read: no answer
static void broken(Src &s) {
  File f = file(s, 5);
  Query q = query(s, f);
  const Rec *r = find(f, q);
  if (!r)
    return;
  std::string line = r->line(), bad = line, why;
  char c = s.chr("x#?*");
  switch (s.p(1, 12) && line.size() > 197 ? 3 : s.u(r->open ? 1 : 2)) {
  case 0:
    bad.replace(28, 3, s.flip() ? std::string(3, c) : "   ");
    why = "vehicle number";
    break;
  case 1: {
    static const int where[] = {41, 46, 49, 52, 55, 58};
    int j = s.u(5);
    bad.replace(where[j], j ? 2 : 4, std::string(j ? 2 : 4, c));
    why = fmt("part %d of the start", j);
    break;
  }
  case 3: // a channel that is no number
    bad.resize(193);
    bad += (s.flip() ? " " : "-") + std::string(s.i(20, 30), s.chr("123456789"));
    why = "channel";
    break;
  default: {
    static const int where[] = {62, 67, 70, 73, 76, 79};
    int j = s.u(5);
    bad.replace(where[j], j ? 2 : 4, std::string(j ? 2 : 4, c));
    why = fmt("part %d of the end", j);
  }
  }
  std::string text = f.text();
  auto L = split_lines(text);
  size_t p = 0;
  while (!is(L, p, L2))
    ++p;
  p += 5 + (r - &f.r[0]);
  CHECK(p < L.size() && L[p] == line, "harness", "not the line of the record: %s", L[p].c_str());
  L[p] = bad;
  text = join_lines(L);
  std::string fn = write_file(text, "f");
  s.note([&] { return fmt("unreadable %s; vehicle %d at %s\n", why.c_str(), q.svn, q.t.txt().c_str()) + text; });
  s.nontrivial();
  BernSatellit b(fn.c_str());
  // (another record may answer only if it is of the same span)
  for (auto &x : f.r)
    if (&x != r && x.type == "MW" && x.svn == q.svn && !(q.t < x.from) && (x.open || q.t < x.to))
      return;
  for (int k = s.i(1, 2); k > 0; k--) {
    int frq = 4711, prn = 4711, st = b.get_frequency_channel(q.svn, q.t.time(), frq, prn);
    CHECK(st != 0, "broken", "channel %d, number %d from a record of an unreadable %s", frq, prn, why.c_str());
    if (why == "vehicle number") {
      st = b.get_frequency_channel(0, q.t.time(), frq, prn);
      CHECK(st != 0, "broken", "vehicle 0: channel %d, number %d from a record without a vehicle number", frq, prn);
    }
  }
}
static void damage(Src &s) {
  File f = file(s, 5);
  std::string good = f.text(), why, text;
  size_t body = good.find("LIST___________------>\n\n") + 24;
  switch (s.w({1, 4})) {
  case 0:
    text = damaged(s, good, why);
    break;
  default:
    text = good.substr(0, body) + damaged(s, good.substr(body), why);
    why = "behind the header: " + why;
  }
  std::string fn = write_file(text, "f"), gn = write_file(good, "g");
  s.note([&] { return why + "\n" + text; });
  auto L = split_lines(text);
  std::unique_ptr<BernSatellit> b;
  try {
    b.reset(new BernSatellit(fn.c_str()));
  } catch (std::runtime_error &) {
  }
  if (!b) {
    s.label("header refused");
    return;
  }
  CHECK(fine(L), "accepted", "a file without the necessary lines was accepted");
  std::vector<Query> Q;
  int n = s.i(1, 6);
  for (int k = 0; k < n; k++)
    Q.push_back(query(s, f));
  std::vector<std::string> first;
  int found = 0;
  for (int k = 0; k < 2 * n; k++) {
    Query &q = Q[k % n];
    int frq = 4711, prn = 4711, st = b->get_frequency_channel(q.svn, q.t.time(), frq, prn);
    std::string r = fmt("%d", st);
    s.note([&] { return fmt("vehicle %d at %s: ", q.svn, q.t.txt().c_str()) + r; });
    if (!st) {
      ++found;
      bool there = false;
      for (auto &l : L)
        there |= l.size() > 30 && l.substr(5, 2) == "MW" && atoi(l.substr(28, 5).c_str()) == q.svn;
      CHECK(there, "invented", "vehicle %d is nowhere in the file", q.svn);
      r += fmt(" %d %d", frq, prn);
    }
    if (k < n)
      first.push_back(r);
    else
      CHECK(first[k - n] == r, "history", "vehicle %d: [%s] at first, [%s] later", q.svn, first[k - n].c_str(), r.c_str());
  }
  s.label(found ? "found" : "nothing found");
  if (found)
    s.nontrivial();
  *b = BernSatellit(gn.c_str());
  for (auto &q : Q)
    ask(*b, f, q);
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C31";
  e.rule = "random files of 0-5 records damaged in 1-12 ways (fields and "
           "characters replaced, lines cut, lost, repeated, exchanged, "
           "lengthened, columns shifted, CRLF, truncation), asked 1-6 queries "
           "twice, then the object is assigned an undamaged file; kept inputs "
           "chosen by branch coverage; and titles with one decisive thing wrong, "
           "which must be refused, and records that cannot be read, which must "
           "not answer. Non-trivial: something was found";
  e.subs = {{"damage", 30000, 400000, damage, true}, {"headers", 4000, 50000, heads},
            {"broken", 12000, 150000, broken}};
  return e.main(argc, argv);
}
