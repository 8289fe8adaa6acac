// C29 observation files: damaged ones never crash, hang or invent satellites
// configurations: debug and release
// release: sources only
#define PBT_MAIN
#include "pbt.hpp"
#include "mangle.hpp"
#include "obs_gen.hpp"
using namespace pbt;
using namespace obs;

/// which headers may be accepted
static bool fine(const std::vector<std::string> &L) {
  if (L.empty() || L[0].size() < 41 || L[0][20] != 'O' || !L[0][40] || !strchr("GRSECJMI", L[0][40]))
    return false;
  char *end;
  strtof(L[0].c_str(), &end);
  if (end == L[0].c_str())
    return false;
  for (size_t k = 1; k < L.size() && k <= 1001; k++)
    if (L[k].size() >= 73 && L[k].compare(60, 13, "END OF HEADER") == 0)
      return true;
  return false;
}
/// headers with one decisive thing wrong
static void heads(Src &s) {
  File f;
  f.head = header(s, 5);
  f.ep.push_back(epoch(s, f.head, 2));
  auto L = split_lines(f.text());
  size_t e = 0;
  while (L[e].size() < 73 || L[e].compare(60, 13, "END OF HEADER"))
    ++e;
  std::string why;
  auto put = [&](size_t l, size_t at, char c) {
    why = fmt("'%c' at %zu:%zu", c, l, at);
    L[l][at] = c;
  };
  switch (s.u(6)) {
  case 0: {
    char c = s.chr(" NMoCHGR0");
    put(0, 20, c);
    if (s.flip())
      put(0, 40, s.chr(" GM"));
    break;
  }
  case 1:
    put(0, 40, s.chr(" XNOgm05"));
    break;
  case 2:
    L[0].replace(0, 20, s.flip() ? std::string(20, ' ') : "     x.02           ");
    why = "no version";
    break;
  case 3:
    L.erase(L.begin() + e);
    why = "no END OF HEADER";
    break;
  case 4:
    put(e, 60 + s.u(12), s.chr("x_e"));
    break;
  case 5:
    L.resize(s.u(e));
    why = "ends early";
    break;
  default: // too long a header
    L.insert(L.begin() + 1, s.i(1001, 1500), std::string(60, ' ') + "COMMENT");
    why = "too many lines";
  }
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return why + (L.size() < 100 ? "\n" + text : ""); });
  s.nontrivial();
  bool ok = true;
  capture_stdout([&] {
    try {
      ObservationRnx r(fn.c_str());
    } catch (std::runtime_error &) {
      ok = false;
    }
  });
  CHECK(!ok, "accepted", "a header with %s was accepted", why.c_str());
}
/// lines of satellites with a number that is none
static void numbers(Src &s) {
  File f;
  f.head = header(s, 3);
  f.ep.push_back(epoch(s, f.head, 4));
  f.ep.push_back(epoch(s, f.head, 4));
  Wanted w;
  for (char c : f.head.order)
    w[sys(c)].push_back(wanted(s, c, f.head.types.at(c)));
  auto L = split_lines(f.text());
  std::vector<size_t> at;
  for (size_t k = f.head.lines.size(); k < L.size(); k++)
    if (L[k][0] != '>')
      at.push_back(k);
  if (at.empty())
    return;
  size_t k = s.pick(at);
  std::string what = s.pick(std::vector<std::string>{"00", " 0", "0 ", "-1", "  ", "xx", " -", "-0"});
  L[k].replace(1, 2, what);
  std::string text = join_lines(L), fn = write_file(text, "f");
  s.note([&] { return text; });
  s.nontrivial();
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  ReadMap m = r->set_read_map(w, true);
  Out out = r->initialize_epoch_vector(m);
  int errors = 0;
  for (int j = 0; j < 2; j++) {
    int sats = -7;
    ngpt::modified_julian_day mjd;
    double sod = -7;
    int st = r->read_next_epoch(m, out, sats, mjd, sod);
    if (st) {
      ++errors;
      break;
    }
    for (int i = 0; i < sats; i++)
      CHECK(out[i].first.prn() >= 1 && out[i].first.prn() <= 99, "prn", "satellite %d was collected",
            out[i].first.prn());
  }
  CHECK(errors, "accepted", "a satellite [%s] was read without complaint", L[k].substr(0, 3).c_str());
}
/// an epoch with one thing that cannot be read is not delivered
static void broken(Src &s) {
  File f;
  f.head = header(s, 4);
  int n = s.i(1, 3), k = s.u(n - 1);
  for (int j = 0; j < n; j++)
    f.ep.push_back(epoch(s, f.head, 4));
  Wanted w;
  for (char c : f.head.order)
    w[sys(c)].push_back(wanted(s, c, f.head.types.at(c)));
  auto L = split_lines(f.text());
  size_t at = f.head.lines.size();
  for (int j = 0; j < k; j++)
    at += 1 + f.ep[j].sats.size();
  auto &e = f.ep[k];
  std::string why;
  char bad = s.chr("x#?*");
  ReadMap m;
  std::string text, fn;
  auto put = [&] {
    text = join_lines(L);
    fn = write_file(text, "f");
  };
  int what = e.sats.empty() ? s.pick(std::vector<int>{0, 1, 2, 5, 6, 7}) : s.w({2, 2, 2, 6, 6, 1, 1, 1, 2});
  switch (what) {
  case 0: { // part of the date
    static const int where[] = {2, 7, 10, 13, 16};
    int j = s.u(4);
    if (j && s.p(1, 3)) { // the date ends with a part in the last column that fits
      size_t len = std::max(size_t(84), f.head.maxobs() * 16 + 3) - s.u(1);
      std::string t = L[at].substr(where[j], 2);
      L[at].resize(where[j]);
      L[at].resize(len - 2, ' ');
      L[at] += t;
    } else
      L[at].replace(where[j], j ? 2 : 4, std::string(j ? 2 : 4, bad));
    why = "date";
    break;
  }
  case 1:
    L[at].replace(18, 11, std::string(11, bad));
    why = "seconds";
    break;
  case 2:
    L[at].replace(32, 3, s.flip() ? std::string(3, bad) : s.pick(std::vector<std::string>{" -1", "1#1", " 1?", "  x"}));
    why = "number of satellites";
    break;
  case 3: {
    size_t j = s.u(e.sats.size() - 1);
    L[at + 1 + j][0] = s.chr("XA1 -g>");
    why = fmt("system letter of satellite %zu", j);
    break;
  }
  case 5: // no epoch line at all
    L[at][0] = s.chr("x< *#g/");
    why = "label";
    break;
  case 6: // ends within or before the number of satellites
    L[at].resize(s.i(20, 34));
    why = "line (ends early)";
    break;
  case 7: { // a line beyond what a line can be: refused, or else read as if nothing were
    auto &l = L[at + s.u(e.sats.size())];
    size_t len = std::max(size_t(84), f.head.maxobs() * 16 + 3);
    l.resize(std::max(l.size(), len - 2), ' ');
    l.resize(s.flip() ? len + s.i(-2, 3) : len + s.i(1, 5000), ' ');
    why = "end of a line";
    break;
  }
  case 8: { // the satellite's number
    size_t j = s.u(e.sats.size() - 1);
    L[at + 1 + j].replace(1, 2, s.flip() ? std::string(2, bad) : std::string(1, L[at + 1 + j][1] == ' ' ? '0' : L[at + 1 + j][1]) + bad);
    why = fmt("number of satellite %zu", j);
    break;
  }
  default: { // a number that is read, but is none
    put();
    m = [&] {
      std::unique_ptr<ObservationRnx> r;
      capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
      return r->set_read_map(w, true);
    }();
    size_t j = s.u(e.sats.size() - 1);
    char c = L[at + 1 + j][0];
    auto it = m.find(sys(c));
    if (it == m.end() || it->second.empty() || it->second[0].empty())
      return;
    size_t col = s.pick(s.pick(it->second)).first;
    std::string &l = L[at + 1 + j];
    if (l.size() < 3 + 16 * (col + 1))
      l.resize(3 + 16 * (col + 1), ' ');
    std::string was = l.substr(3 + 16 * col, 14);
    l.replace(3 + 16 * col, 14, s.flip() ? spoilt(s, was) : s.flip() ? std::string(14, bad) : std::string("  ") + bad + "  123456.789");
    why = fmt("column %zu of satellite %zu", col, j);
  }
  }
  put();
  s.note([&] { return why + "\n" + text; });
  s.label(why.substr(0, 6));
  s.nontrivial();
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  m = r->set_read_map(w, true);
  Out out = r->initialize_epoch_vector(m);
  for (int j = 0; j <= k; j++) {
    int sats = -7;
    ngpt::modified_julian_day mjd;
    double sod = -7;
    int st = r->read_next_epoch(m, out, sats, mjd, sod);
    if (j == k && what == 7 && !st)
      same(f, e, w, out, sats, mjd, sod);
    else if (j == k)
      CHECK(st > 0, "broken", "status %d for an epoch of an unreadable %s", st, why.c_str());
    else {
      CHECK(st == 0, "before", "status %d for epoch %d", st, j);
      same(f, f.ep[j], w, out, sats, mjd, sod);
    }
  }
}
static void damage(Src &s) {
  File f;
  f.head = header(s, s.flip() ? 3 : 15);
  int n = s.i(1, 3);
  for (int k = 0; k < n; k++)
    f.ep.push_back(s.p(1, 6) ? event(s, f.head) : epoch(s, f.head, 4));
  Wanted w = wanted(s, f.head);
  std::string good = f.text(), why, text;
  // the header is longer than the rest; damage one, the other or both
  size_t body = good.find("END OF HEADER") + 14;
  body = std::min(good.find('\n', body - 1) + 1, good.size());
  switch (s.u(2)) {
  case 0:
    text = damaged(s, good, why);
    break;
  case 1:
    text = good.substr(0, body) + damaged(s, good.substr(body), why);
    why = "behind the header: " + why;
    break;
  default:
    text = damaged(s, good.substr(0, body), why) + good.substr(body);
  }
  std::string fn = write_file(text, "f"), gn = write_file(good, "g");
  s.note([&] { return why + "\n" + text; });
  auto L = split_lines(text);
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] {
    try {
      r.reset(new ObservationRnx(fn.c_str()));
    } catch (std::runtime_error &) {
    }
  });
  if (!r) {
    s.label("header refused");
    return;
  }
  CHECK(fine(L), "accepted", "a header that cannot be one was accepted");
  Wanted got = w;
  ReadMap m = r->set_read_map(got, true);
  Out out = r->initialize_epoch_vector(m);
  capture_stdout([&] { r->print_members(); });
  auto all = [&] {
    std::vector<std::string> v;
    for (size_t k = 0; k < L.size() + 5; k++) {
      for (auto &o : out)
        for (double &x : o.second)
          x = 4711;
      int sats = -7;
      ngpt::modified_julian_day mjd;
      double sod = -7;
      int st = r->read_next_epoch(m, out, sats, mjd, sod);
      std::string t = fmt("%d", st);
      if (!st) {
        CHECK(sats >= 0 && size_t(sats) <= out.size(), "number", "%d satellites", sats);
        t += fmt(" %ld %.9g:", long(mjd.as_underlying_type()), sod);
        for (int j = 0; j < sats; j++) {
          char c = ngpt::satsys_to_char(out[j].first.system());
          int prn = out[j].first.prn();
          CHECK(prn >= 1 && prn <= 99, "prn", "%c%d was collected", c, prn);
          bool there = false;
          for (auto &l : L)
            there |= l.size() > 1 && l[0] == c && atoi(l.substr(1, 2).c_str()) == prn;
          CHECK(there, "invented", "%c%02d was collected, but is nowhere in the file", c, prn);
          t += fmt(" %c%d", c, prn);
          auto it = m.find(out[j].first.system());
          CHECK(it != m.end(), "unasked", "%c%02d was not asked for", c, prn);
          for (size_t i = 0; i < it->second.size(); i++)
            t += fmt(" %.17g", out[j].second[i]);
        }
      }
      v.push_back(t);
      if (st < 0 || st == 50)
        return v;
    }
    fail("endless", fmt("%zu reads of a file of %zu lines did not reach an end", v.size(), L.size()));
    return v;
  };
  auto a = all();
  int okay = 0;
  for (auto &x : a)
    okay += x[0] == '0';
  s.label(a.back()[0] == '-' ? "read to the end" : "stopped");
  if (okay)
    s.nontrivial();
  r->rewind();
  auto b = all();
  for (size_t k = 0; k < std::max(a.size(), b.size()); k++)
    CHECK(k < a.size() && k < b.size() && a[k] == b[k], "history",
          "read %zu gave [%s] at first, [%s] after rewinding", k, k < a.size() ? a[k].c_str() : "",
          k < b.size() ? b[k].c_str() : "");
  // the object can be used for another file
  capture_stdout([&] { *r = ObservationRnx(gn.c_str()); });
  m = r->set_read_map(w, true);
  out = r->initialize_epoch_vector(m);
  for (auto &e : f.ep) {
    if (e.special())
      continue;
    int sats = -7;
    ngpt::modified_julian_day mjd;
    double sod = -7;
    int st = r->read_next_epoch(m, out, sats, mjd, sod);
    CHECK(st == 0, "afterwards", "status %d for an epoch of a good file", st);
    same(f, e, w, out, sats, mjd, sod);
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C29";
  e.rule = "random files of 1-3 epochs and events damaged in 1-12 ways (fields "
           "and characters replaced, lines cut, lost, repeated, exchanged, "
           "lengthened, columns shifted, CRLF, truncation), read to the end "
           "twice, then the object is assigned an undamaged file; kept inputs "
           "chosen by branch coverage; and headers with one decisive thing wrong, "
           "which must be refused, and satellites with numbers that are none, and epochs with one "
           "thing that cannot be read, which must not be delivered. Non-trivial: at least one epoch is read";
  e.subs = {{"damage", 30000, 400000, damage, true},
            {"headers", 4000, 50000, heads},
            {"numbers", 4000, 50000, numbers},
            {"broken", 12000, 150000, broken}};
  return e.main(argc, argv);
}
