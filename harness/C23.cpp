// C23 the epochs of an SP3 file, one after another
#define PBT_MAIN
#include "pbt.hpp"
#include "sp3_gen.hpp"
using namespace pbt;
using namespace sp3;

static void steps(Src &s) {
  bool large = s.p(1, 40); // up to 180 satellites
  File f = large ? file(s, 2, 180) : file(s, 6), g = file(s, 2);
  if (s.p(1, 8)) { // more satellites than the header announces
    f.h.nsats = s.i(1, f.h.nsats);
    f.h.sats.resize(f.h.nsats);
  }
  std::string fn = write_file(f.text(), "f"), gn = write_file(g.text(), "g");
  s.note([&] { return f.text(); });
  std::unique_ptr<Sp3c> r(new Sp3c(fn.c_str()));
  auto vec = r->allocate_epoch_vector();
  size_t pos = 0;
  const std::string text = f.text();
  std::vector<size_t> starts; // of the epochs
  for (size_t k = 0; k + 1 < text.size(); k++)
    if ((k == 0 || text[k - 1] == '\n') && text[k] == '*' && text[k + 1] == ' ')
      starts.push_back(k);
  CHECK(starts.size() == f.e.size(), "model", "%zu epoch lines for %zu epochs", starts.size(), f.e.size());
  int ops = s.i(1, 16), moves = 0, rewinds = 0;
  for (int o = 0; o < ops; o++) {
    switch (s.w({8, 1, 1, 1})) {
    case 0: {
      Time t;
      int n = -7, st = r->get_next_epoch(t, vec, n);
      s.note([&] { return fmt("read -> %d (before epoch %zu of %zu)", st, pos, f.e.size()); });
      if (pos < f.e.size()) {
        CHECK(st == (pos + 1 < f.e.size() ? 0 : -1), "status", "status %d at epoch %zu of %zu", st, pos,
              f.e.size());
        same(f.e[pos], t, vec, n);
        ++pos;
      } else
        CHECK(st > 0, "end", "status %d behind the end", st);
      break;
    }
    case 1:
      if (s.flip()) { // to some byte of the file
        size_t to = s.w({2, 1}) ? s.pick(starts) : s.u(text.size() - 1);
        s.note([&] { return fmt("rewind to byte %zu", to); });
        r->rewind(Sp3c::pos_type(to));
        ++rewinds;
        size_t k = std::find(starts.begin(), starts.end(), to) - starts.begin();
        if (k < starts.size()) {
          pos = k;
          break;
        }
        // no epoch line begins here
        Time t;
        int n = -7, st = r->get_next_epoch(t, vec, n);
        if (!(text[to] == '*' && text[to + 1] == ' '))
          CHECK(st > 0, "elsewhere", "status %d at byte %zu, where no epoch begins", st, to);
        r->rewind();
        pos = 0;
        break;
      }
      s.note([&] { return fmt("rewind"); });
      r->rewind();
      pos = 0;
      ++rewinds;
      break;
    case 2: {
      s.note([&] { return fmt("move"); });
      std::unique_ptr<Sp3c> q(new Sp3c(std::move(*r)));
      r = std::move(q);
      ++moves;
      break;
    }
    default: {
      s.note([&] { return fmt("move to another object"); });
      std::unique_ptr<Sp3c> q(new Sp3c(gn.c_str()));
      if (s.flip()) {
        auto v = q->allocate_epoch_vector();
        Time t;
        int n;
        q->get_next_epoch(t, v, n);
      }
      *q = std::move(*r);
      r = std::move(q);
      ++moves;
      CHECK(r->num_sats() == f.h.nsats, "move", "%d satellites after a move", r->num_sats());
    }
    }
  }
  if (f.e.size() > 1 && (moves || rewinds))
    s.nontrivial();
  s.label(fmt("%zu epochs", f.e.size()));
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C23";
  e.rule = "files of 1-6 epochs of 0-6 satellites with velocity and correlation "
           "lines between, 1-16 read, rewind (to the first epoch, to "
           "another, to any byte) and move operations against a "
           "cursor model. Non-trivial: at least two epochs and a rewind or move";
  e.subs = {{"steps", 20000, 250000, steps}};
  return e.main(argc, argv);
}
