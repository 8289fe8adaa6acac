// C35 objects have nothing in common: any schedule of their operations, in one
// thread or one thread each, gives what each of them gives alone
// sanitizer: thread
#define PBT_MAIN
#include "pbt.hpp"
#include "antex_gen.hpp"
#include "bern_gen.hpp"
#include "gnssobsrv.hpp"
#include "nav_gen.hpp"
#include "nvarstr.hpp"
#include "obs_gen.hpp"
#include "sp3_gen.hpp"
#include <atomic>
#include <thread>
using namespace pbt;

typedef std::function<std::string()> Step;
/// something that is done in steps, each of which gives a text
struct Script {
  std::string what, file;
  std::function<std::vector<Step>()> begin; // opens the file; captures the object
};
static std::string guard(const Step &f) {
  try {
    return f();
  } catch (Failure &x) {
    return "failure " + x.key;
  } catch (std::exception &x) {
    return std::string("exception ") + x.what();
  }
}
static std::string hex(double x) { return fmt(" %a", x); }
static std::string state(const ngpt::NavDataFrame &d) {
  std::string r = fmt("%c%d %s", ngpt::satsys_to_char(d.system()), d.prn(),
                      ngpt::strftime_ymd_hms<ngpt::seconds>(d.toc()).c_str());
  for (int k = 0; k < 31; k++)
    r += hex(d.data(k));
  char c = ngpt::satsys_to_char(d.system());
  if (std::string("GREC").find(c) == std::string::npos)
    return r;
  double x[6] = {0, 0, 0, 0, 0, 0}, clk = 0;
  auto t = d.toe<ngpt::milliseconds>();
  t.add_seconds(ngpt::milliseconds(300500));
  int st = d.stateNclock(t, x, clk);
  r += fmt(" state %d", st);
  if (!st) {
    for (double v : x)
      r += hex(v);
    r += hex(clk);
  }
  return r + fmt(" health %d fit %ld", d.sv_health(), d.fit_interval());
}

static Script antex(Src &s, const atx::File &f, const std::string &fn) {
  int n = s.i(1, 8);
  std::vector<std::pair<int, std::pair<atx::RQuery, atx::SQuery>>> q;
  for (int k = 0; k < n; k++) {
    int w = s.u(2);
    atx::RQuery r;
    atx::SQuery v;
    if (w)
      v = atx::squery(s, f);
    else
      r = atx::rquery(s, f);
    q.push_back({w, {r, v}});
  }
  return {"ANTEX", fn, [=] {
            auto a = std::make_shared<ngpt::Antex>(fn.c_str());
            std::vector<Step> st;
            for (auto &x : q)
              st.push_back([a, x]() -> std::string {
                ngpt::AntennaPcoList l;
                if (!x.first) {
                  int c = a->get_antenna_pco(x.second.first.ant(), l, x.second.first.must);
                  return fmt("receiver %d ", c) + atx::listed(l);
                }
                auto &v = x.second.second;
                ngpt::Satellite sv(ngpt::SATELLITE_SYSTEM::irnss, 99);
                int c = x.first == 1 ? a->get_antenna_pco(v.prn, ngpt::char_to_satsys(v.sys), v.t.dt(), l, &sv)
                                     : a->get_satellite_info(v.prn, ngpt::char_to_satsys(v.sys), v.t.dt(), sv);
                return fmt("satellite %d ", c) + atx::listed(l) + (c ? "" : sv.to_string());
              });
            return st;
          }};
}
static Script navigation(Src &s, const nav::File &f, const std::string &fn) {
  int n = s.i(1, 10);
  struct Op {
    int w;
    char c;
    int prn;
    nav::Ep t;
  };
  std::vector<Op> q;
  for (int k = 0; k < n; k++) {
    Op o{int(s.w({4, 2, 2, 3, 2, 3})), 'G', 1, {}};
    if (o.w == 3 || o.w == 5) {
      o.c = !f.m.empty() && s.p(3, 4) ? s.pick(f.m).sys : s.chr("GREC");
      o.prn = s.i(1, 3);
      o.t = f.m.empty() ? nav::Ep{} : s.pick(f.m).toc.plus(s.iz(-1000, 9000));
    }
    q.push_back(o);
  }
  return {"navigation", fn, [=] {
            auto a = std::make_shared<ngpt::NavigationRnx>(fn.c_str());
            std::vector<Step> st;
            for (auto &x : q)
              st.push_back([a, x]() -> std::string {
                ngpt::NavDataFrame d;
                ngpt::NavigationRnx::pos_type p;
                int c;
                switch (x.w) {
                case 0:
                  c = a->read_next_record(d);
                  return fmt("read %d ", c) + (c ? "" : state(d));
                case 1: {
                  auto y = a->peak_satsys(c);
                  return fmt("peek %d ", c) + (c ? ' ' : ngpt::satsys_to_char(y));
                }
                case 2:
                  return fmt("ignore %d", a->ignore_next_block());
                case 3:
                  c = a->find_next(p, d, ngpt::char_to_satsys(x.c), x.prn);
                  return fmt("find %d ", c) + (c ? "" : state(d));
                case 4:
                  a->rewind();
                  return "rewind";
                }
                c = a->find_next_valid(x.t.dt<ngpt::seconds>(), p, d, ngpt::char_to_satsys(x.c), x.prn);
                return fmt("valid %d ", c) + (c ? "" : state(d));
              });
            return st;
          }};
}
static Script observation(Src &s, const obs::File &f, const std::string &fn) {
  obs::Wanted w = obs::wanted(s, f.head);
  std::vector<int> q;
  for (int k = s.i(1, 8); k > 0; k--)
    q.push_back(s.w({5, 1}));
  return {"observation", fn, [=] {
            struct Live {
              ngpt::ObservationRnx r;
              obs::ReadMap m;
              obs::Out out;
              Live(const char *fn) : r(fn) {}
            };
            auto a = std::make_shared<Live>(fn.c_str());
            std::vector<Step> st;
            st.push_back([a, w]() -> std::string {
              auto x = w;
              a->m = a->r.set_read_map(x, true);
              a->out = a->r.initialize_epoch_vector(a->m);
              std::string r = fmt("%zu vectors", a->out.size());
              for (auto &y : a->m)
                for (auto &z : y.second)
                  for (auto &u : z)
                    r += fmt(" %zu", u.first) + hex(u.second);
              return r;
            });
            for (int x : q)
              st.push_back([a, x]() -> std::string {
                if (x) {
                  a->r.rewind();
                  return "rewind";
                }
                int sats = 0;
                ngpt::modified_julian_day mjd;
                double sod = 0;
                int c = a->r.read_next_epoch(a->m, a->out, sats, mjd, sod);
                std::string r = fmt("epoch %d ", c);
                if (c)
                  return r;
                r += fmt("%ld", long(mjd.as_underlying_type())) + hex(sod);
                for (int k = 0; k < sats; k++) {
                  auto &o = a->out[k];
                  r += " " + o.first.to_string();
                  size_t n = a->m[o.first.system()].size();
                  for (size_t j = 0; j < n && j < o.second.size(); j++)
                    r += hex(o.second[j]);
                }
                return r;
              });
            return st;
          }};
}
static Script orbits(Src &s, const std::string &fn) {
  std::vector<int> q;
  for (int k = s.i(1, 8); k > 0; k--)
    q.push_back(s.w({6, 1}));
  return {"SP3", fn, [=] {
            auto a = std::make_shared<ngpt::Sp3c>(fn.c_str());
            std::vector<Step> st;
            for (int x : q)
              st.push_back([a, x]() -> std::string {
                if (x) {
                  a->rewind();
                  return "rewind";
                }
                auto v = a->allocate_epoch_vector();
                sp3::Time t;
                int n = 0, c = a->get_next_epoch(t, v, n);
                std::string r = fmt("epoch %d ", c);
                if (c > 0)
                  return r;
                r += sp3::show(t);
                for (int k = 0; k < n; k++) {
                  r += fmt(" %c%d", ngpt::satsys_to_char(v[k].s_), v[k].prn_);
                  for (int j = 0; j < 4; j++)
                    r += hex(v[k].vals_[j]);
                }
                return r;
              });
            return st;
          }};
}
static Script channels(Src &s, const bern::File &f, const std::string &fn) {
  std::vector<bern::Query> q;
  for (int k = s.i(1, 8); k > 0; k--)
    q.push_back(bern::query(s, f));
  return {"SATELLIT", fn, [=] {
            auto a = std::make_shared<ngpt::BernSatellit>(fn.c_str());
            std::vector<Step> st;
            for (auto &x : q)
              st.push_back([a, x]() -> std::string {
                int frq = 0, prn = 0, c = a->get_frequency_channel(x.svn, x.t.time(), frq, prn);
                return fmt("channel %d", c) + (c ? "" : fmt(" %d %d", frq, prn));
              });
            return st;
          }};
}
static Script values(Src &s) {
  struct Op {
    int w;
    std::string t, u;
    double x;
  };
  std::vector<Op> q;
  for (int k = s.i(2, 10); k > 0; k--) {
    Op o{int(s.u(4)), "", "", 0};
    o.t = std::string(1, s.chr("CLDSIX")) + char('0' + s.i(0, 9)) + s.chr("CPWX?");
    o.u = std::string(1, s.chr("GSECJIRM")) + fmt("%d", s.i(1, 9));
    o.x = s.dec(-60, 60, 6);
    if (o.w == 3)
      o.t = s.str("ABC 0123.eE+-", 1, 20);
    if (o.w == 2)
      o.t = "LEIAR25.R" + std::string(1, s.chr("34")) + std::string(6, ' ') + s.pick(std::vector<std::string>{"LEIT", "NONE", "    "});
    q.push_back(o);
  }
  return {"values", "", [=] {
            std::vector<Step> st;
            auto sum = std::make_shared<ngpt::GnssObservable>(ngpt::SATELLITE_SYSTEM::gps,
                                                              ngpt::ObservationCode("C1C"), 1);
            for (auto &o : q)
              st.push_back([o, sum]() -> std::string {
                switch (o.w) {
                case 0:
                  sum->add(ngpt::char_to_satsys(o.u[0]), ngpt::ObservationCode(o.t.c_str()), o.x);
                  return sum->to_string();
                case 1: {
                  ngpt::__ObsPart p(ngpt::char_to_satsys(o.u[0]),
                                    ngpt::ObservationCode((o.t.substr(0, 1) + o.u[1] + "?").c_str()), o.x);
                  return p.to_string() + hex(p.frequency()); // may throw
                }
                case 2: {
                  ngpt::ReceiverAntenna a(o.t.c_str());
                  a.set_serial_nr(o.u.c_str());
                  ngpt::ReceiverAntenna b(a);
                  return fmt("%d %d ", a.is_same(b), a.compare_model(ngpt::ReceiverAntenna("LEIAR25.R3      LEIT"))) +
                         a.__underlying_char__();
                }
                case 3: {
                  double v[3] = {0, 0, 0};
                  std::string t = o.t;
                  t.resize(24, ' ');
                  errno = 0; // as asked for
                  bool ok = ngpt::__char2double__<3, 8>(t.c_str(), v);
                  return fmt("%d", ok) + (ok ? hex(v[0]) + hex(v[1]) + hex(v[2]) : "");
                }
                }
                return fmt("%d", ngpt::char_to_observabletype(o.t[0]) == ngpt::OBSERVABLE_TYPE::doppler) +
                       ngpt::ObservationCode(o.t.c_str()).to_string();
              });
            return st;
          }};
}

static std::vector<Script> scripts(Src &s) {
  std::vector<Script> v;
  int n = s.i(2, 4), kind = -1;
  atx::File af;
  nav::File nf;
  obs::File of;
  sp3::File pf;
  bern::File bf;
  std::string fn;
  for (int k = 0; k < n; k++) {
    // another object of the same kind on the same file, or something new
    bool again = k && s.p(2, 5);
    if (!again) {
      kind = s.u(5);
      std::string nm = fmt("a%d", k);
      switch (kind) {
      case 0:
        af = atx::file(s);
        fn = write_file(af.text(), nm.c_str());
        break;
      case 1:
        nf = nav::File();
        nf.head = nav::header(s);
        for (int j = s.i(1, 6); j > 0; j--) {
          nav::Msg m = nav::message(s, "GREC");
          m.prn = s.i(1, 3);
          if (nav::kepler(m.sys))
            nav::orbit(s, m);
          nf.m.push_back(m);
        }
        fn = write_file(nf.text(), nm.c_str());
        break;
      case 2:
        of = obs::File();
        of.head = obs::header(s, 6);
        for (int j = s.i(1, 4); j > 0; j--)
          of.ep.push_back(obs::epoch(s, of.head, 5));
        fn = write_file(of.text(), nm.c_str());
        break;
      case 3:
        pf = sp3::file(s, 4, 4);
        fn = write_file(pf.text(), nm.c_str());
        break;
      case 4:
        bf = bern::file(s, 6);
        fn = write_file(bf.text(), nm.c_str());
      }
    }
    switch (kind) {
    case 0:
      v.push_back(antex(s, af, fn));
      break;
    case 1:
      v.push_back(navigation(s, nf, fn));
      break;
    case 2:
      v.push_back(observation(s, of, fn));
      break;
    case 3:
      v.push_back(orbits(s, fn));
      break;
    case 4:
      v.push_back(channels(s, bf, fn));
      break;
    default:
      v.push_back(values(s));
    }
  }
  return v;
}
static std::vector<std::string> alone(const Script &x) {
  std::vector<std::string> t;
  auto st = x.begin();
  for (auto &f : st)
    t.push_back(guard(f));
  return t;
}
static std::string describe(const std::vector<Script> &v, const std::vector<std::vector<std::string>> &want) {
  std::string r;
  for (size_t k = 0; k < v.size(); k++) {
    r += fmt("object %zu: %s %s\n", k, v[k].what.c_str(), v[k].file.substr(v[k].file.rfind('/') + 1).c_str());
    for (auto &t : want[k])
      r += "    " + t.substr(0, 100) + "\n";
  }
  return r;
}
static void compare(size_t k, const Script &x, size_t step, const std::string &got, const std::string &want,
                    const char *how) {
  CHECK(got == want, how, "object %zu (%s), step %zu gives [%s] instead of [%s]", k, x.what.c_str(), step,
        got.c_str(), want.c_str());
}
static bool good(const std::vector<std::vector<std::string>> &want) {
  int n = 0;
  for (auto &w : want)
    n += w.size() > 1;
  return n > 1;
}
static void interleaved(Src &s) {
  auto v = scripts(s);
  std::vector<std::vector<std::string>> want;
  for (auto &x : v)
    want.push_back(alone(x));
  s.note([&] { return describe(v, want); });
  if (good(want))
    s.nontrivial();
  std::vector<std::vector<Step>> live(v.size());
  std::vector<size_t> pos(v.size());
  std::vector<bool> open(v.size());
  std::string order;
  size_t left = v.size();
  while (left) {
    size_t k = s.u(v.size() - 1);
    while (open[k] && pos[k] == live[k].size())
      k = (k + 1) % v.size();
    switch (s.u(3)) { // of no concern here
    case 0:
      errno = ERANGE;
      break;
    case 1:
      errno = EINVAL;
    }
    order += fmt(" %zu", k);
    if (!open[k]) {
      live[k] = v[k].begin();
      open[k] = true;
    } else {
      std::string t = guard(live[k][pos[k]]);
      if (t != want[k][pos[k]])
        s.note([&] { return "order:" + order; });
      compare(k, v[k], pos[k], t, want[k][pos[k]], "schedule");
      ++pos[k];
    }
    if (pos[k] == live[k].size()) {
      --left;
      if (s.flip()) // and goes away early
        for (auto &f : live[k])
          f = nullptr;
    }
  }
  s.note([&] { return "order:" + order; });
}
static void threads(Src &s) {
  auto v = scripts(s);
  std::vector<std::vector<std::string>> want, got(v.size());
  for (auto &x : v)
    want.push_back(alone(x));
  s.note([&] { return describe(v, want); });
  if (good(want))
    s.nontrivial();
  // all the objects live until every thread is done: a descriptor used again
  // would put the threads in an order
  const int rounds = 3;
  std::vector<std::vector<std::vector<Step>>> live(v.size(), std::vector<std::vector<Step>>(rounds));
  std::vector<std::thread> th;
  std::atomic<size_t> ready{0};
  for (size_t k = 0; k < v.size(); k++)
    th.emplace_back([&, k] {
      bool counted = false;
      try {
        for (int r = 0; r < rounds; r++) {
          live[k][r] = v[k].begin();
          if (!counted) { // then all at once
            counted = true;
            for (++ready; ready < v.size();)
              std::this_thread::yield();
          }
          std::vector<std::string> t;
          for (auto &f : live[k][r])
            t.push_back(guard(f));
          got[k] = t;
          if (got[k] != want[k])
            break;
        }
      } catch (std::exception &x) {
        if (!counted)
          ++ready;
        got[k] = {std::string("exception ") + x.what()};
      }
    });
  for (auto &t : th)
    t.join();
  for (size_t k = 0; k < v.size(); k++) {
    CHECK(got[k].size() == want[k].size(), "threads", "object %zu: %zu steps instead of %zu", k, got[k].size(),
          want[k].size());
    for (size_t j = 0; j < got[k].size(); j++)
      compare(k, v[k], j, got[k][j], want[k][j], "threads");
  }
}
int main(int argc, char **argv) {
  Engine e;
  e.prop = "C35";
  e.rule = "two to four objects (readers of ANTEX, navigation, observation, SP3 "
           "and SATELLIT files, several of them on the same file, and value "
           "types) with scripts of up to ten operations: each alone, then in a "
           "random interleaving of all with errno set to anything in between, then "
           "each in a thread of its own under ThreadSanitizer. Non-trivial: at "
           "least two objects with two operations";
  e.assumptions = {"an object is used by one thread at a time"};
  e.subs = {{"interleaved", 6000, 120000, interleaved}, {"threads", 3000, 60000, threads, false, true}};
  return e.main(argc, argv);
}
