// C21 the epochs of an observation file, one after another
// configurations: debug and release
#define PBT_MAIN
#include "pbt.hpp"
#include "obs_gen.hpp"
using namespace pbt;
using namespace obs;

static void steps(Src &s) {
  File f;
  f.head = header(s, 4);
  std::vector<int> real; // indices of epochs of observations
  int n = s.i(0, 7);
  for (int k = 0; k < n; k++) {
    if (s.p(1, 5)) {
      f.ep.push_back(event(s, f.head));
    } else {
      real.push_back(f.ep.size());
      f.ep.push_back(epoch(s, f.head, 5));
    }
  }
  f.last_newline = !s.p(1, 4);
  // a second file, for move assignment
  File g;
  g.head = header(s, 20);
  g.ep.push_back(epoch(s, g.head, 3));
  Wanted w = wanted(s, f.head);
  std::string fn = write_file(f.text(), "f"), gn = write_file(g.text(), "g");
  s.note([&] { return brief(f); });
  std::unique_ptr<ObservationRnx> r;
  capture_stdout([&] { r.reset(new ObservationRnx(fn.c_str())); });
  ReadMap m = r->set_read_map(w, true);
  Out out = r->initialize_epoch_vector(m);
  size_t pos = 0;
  int ops = s.i(1, 16), moves = 0, rewinds = 0;
  for (int o = 0; o < ops; o++) {
    switch (s.w({8, 1, 1, 1})) {
    case 0: {
      int sats = -7;
      ngpt::modified_julian_day mjd;
      double sod = -7;
      int st = r->read_next_epoch(m, out, sats, mjd, sod);
      s.note([&] { return fmt("read -> %d (before epoch %zu of %zu)", st, pos, real.size()); });
      if (pos < real.size()) {
        CHECK(st == 0, "status", "status %d at epoch %zu of %zu", st, pos, real.size());
        same(f, f.ep[real[pos]], w, out, sats, mjd, sod);
        ++pos;
      } else
        CHECK(st == -1, "end", "status %d at the end", st);
      break;
    }
    case 1:
      s.note([&] { return fmt("rewind"); });
      r->rewind();
      pos = 0;
      ++rewinds;
      break;
    case 2: { // move construction
      s.note([&] { return fmt("move"); });
      std::unique_ptr<ObservationRnx> q(new ObservationRnx(std::move(*r)));
      r = std::move(q);
      ++moves;
      break;
    }
    default: { // move assignment over another one
      s.note([&] { return fmt("move to another object"); });
      std::unique_ptr<ObservationRnx> q;
      capture_stdout([&] { q.reset(new ObservationRnx(gn.c_str())); });
      *q = std::move(*r);
      r = std::move(q);
      ++moves;
    }
    }
  }
  if (real.size() > 1 && (moves || rewinds))
    s.nontrivial();
  s.label(real.size() == f.ep.size() ? "no events" : "events");
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C21";
  e.rule = "files of 0-7 epochs and special events, 1-16 read, rewind and move "
           "operations against a cursor model. Non-trivial: at least two epochs "
           "and a rewind or move";
  e.subs = {{"steps", 20000, 250000, steps}};
  return e.main(argc, argv);
}
