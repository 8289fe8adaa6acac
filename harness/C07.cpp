// C07 text helpers: trimming, fixed-width numbers, two-digit years
#define PBT_MAIN
#include "pbt.hpp"
#include "mangle.hpp"
#include "nvarstr.hpp"
#include "rinex.hpp"
using namespace pbt;
using namespace ngpt;
using ngpt::str_algorithm_details::StrSearchPolicyEnd;
using ngpt::str_algorithm_details::StrSearchPolicyStart;

// the text is placed at the end of an exactly sized heap block, so that a read
// outside of it is seen
struct Exact {
  char *p;
  explicit Exact(const std::string &s) : p(new char[s.size() + 1]) {
    memcpy(p, s.c_str(), s.size() + 1);
  }
  ~Exact() { delete[] p; }
};

static void trims(Src &s) {
  std::string t;
  switch (s.u(3)) {
  case 0:
    t = s.str("  ab", 0, 12);
    break;
  case 1:
    t = s.str(" ", 0, 20);
    break;
  case 2:
    t = s.str(" ", 0, 5) + s.str("ABC xyz019./", 0, 60) + s.str(" ", 0, 30);
    break;
  default:
    t = s.str("abcXYZ", 0, 30);
  }
  size_t stop = size_t(-1);
  if (s.flip())
    stop = s.i(0, t.size() + 3);
  size_t len = std::min(t.size(), stop);
  std::string v = t.substr(0, len);
  Exact x(t);
  s.note([&] { return fmt("\"%s\" stop %ld", t.c_str(), long(stop)); });
  if (v.find(' ') != std::string::npos)
    s.nontrivial();
  s.label(stop == size_t(-1) ? "no stop" : (stop > t.size() ? "stop beyond" : "stop"));
  size_t pos = 12345;
  // up to the first blank
  size_t f = v.find(' ');
  size_t wantp = f == std::string::npos ? len : f;
  std::string r = stop == size_t(-1) ? rtrim(x.p, pos) : rtrim(x.p, pos, stop);
  CHECK(r == v.substr(0, wantp) && pos == wantp, "rtrim-start",
        "\"%s\" stop %ld -> \"%s\" at %zu", t.c_str(), long(stop), r.c_str(), pos);
  pos = 12345;
  r = rtrim<StrSearchPolicyStart>(x.p, pos, stop);
  CHECK(r == v.substr(0, wantp) && pos == wantp, "rtrim-start2", "\"%s\"", t.c_str());
  // without the trailing blanks
  size_t e = v.find_last_not_of(' ');
  wantp = e == std::string::npos ? 0 : e + 1;
  pos = 12345;
  r = rtrim<StrSearchPolicyEnd>(x.p, pos, stop);
  CHECK(r == v.substr(0, wantp) && pos == wantp, "rtrim-end",
        "\"%s\" stop %ld -> \"%s\" at %zu", t.c_str(), long(stop), r.c_str(), pos);
  // leading blanks
  f = v.find_first_not_of(' ');
  wantp = f == std::string::npos ? len : f;
  pos = 12345;
  r = stop == size_t(-1) ? ltrim(x.p, pos) : ltrim(x.p, pos, stop);
  CHECK(r == v.substr(wantp) && pos == wantp, "ltrim",
        "\"%s\" stop %ld -> \"%s\" at %zu", t.c_str(), long(stop), r.c_str(), pos);
  bool empty = e == std::string::npos;
  CHECK((stop == size_t(-1) ? string_is_empty(x.p) : string_is_empty(x.p, stop)) == empty,
        "empty", "\"%s\" stop %ld", t.c_str(), long(stop));
}

static void fortran(Src &s) {
  std::string t = s.flip() ? s.str("DdEe+-.0123456789 ", 0, 80) : "";
  if (t.empty())
    for (int k = s.i(0, 60); k > 0; k--)
      t += char(s.i(1, 255));
  std::string w = t;
  for (auto &c : w)
    if (c == 'D' || c == 'd')
      c = 'E';
  Exact x(t);
  s.note([&] { return "\"" + esc(t) + "\""; });
  if (w != t)
    s.nontrivial();
  __for2cpp__(x.p);
  CHECK(w == x.p, "for2cpp", "\"%s\" -> \"%s\"", esc(t).c_str(), esc(x.p).c_str());
}

template <int M> struct Dyn {
  static bool f(const char *l, double *d, int n) { return __char2double__<M>(l, d, n); }
};
template <int N> static bool st(int M, const char *l, double *d) {
  switch (M) {
  case 8: return __char2double__<N, 8>(l, d);
  case 14: return __char2double__<N, 14>(l, d);
  default: return __char2double__<N, 19>(l, d);
  }
}
static bool stat(int N, int M, const char *l, double *d) {
  switch (N) {
  case 1: return st<1>(M, l, d);
  case 2: return st<2>(M, l, d);
  case 3: return st<3>(M, l, d);
  default: return st<4>(M, l, d);
  }
}
static bool dyn(int N, int M, const char *l, double *d) {
  switch (M) {
  case 8: return Dyn<8>::f(l, d, N);
  case 14: return Dyn<14>::f(l, d, N);
  default: return Dyn<19>::f(l, d, N);
  }
}

// one number in M columns
static std::string field(Src &s, int M) {
  std::string f;
  switch (s.u(3)) {
  case 0: // fixed
    f = fmt("%.*f", int(s.i(0, M - 4)), s.dec(-9, 9, 3));
    break;
  case 1: { // all columns used
    f = s.flip() ? "-" : "";
    while (int(f.size()) < M)
      f += s.chr("0123456789");
    if (s.flip())
      f[s.i(1, M - 1)] = '.';
    break;
  }
  case 2: // exponent
    f = fmt("%.*E", std::max(0, M - 8), s.dec(-9, 9, 6) * std::pow(10.0, double(s.iz(-12, 12))));
    break;
  default:
    f = std::to_string(s.iz(-99999, 99999));
  }
  if (int(f.size()) > M)
    f = "1";
  size_t l = s.flip() ? 0 : s.u(M - f.size());
  if (!s.flip())
    l = M - f.size(); // right aligned
  f = std::string(l, ' ') + f;
  f.resize(M, ' ');
  return f;
}

static void numbers(Src &s) {
  int N = s.i(1, 4), M = s.pick(std::vector<int>{14, 19, 8});
  int bad = s.u(7); // 1 blank field, 2 text field, 3 short line
  std::string line;
  std::vector<std::string> fs;
  for (int k = 0; k < N; k++)
    fs.push_back(field(s, M));
  int at = s.u(N - 1);
  if (bad == 1)
    fs[at] = std::string(M, ' ');
  else if (bad == 2)
    fs[at] = s.flip() ? std::string(M, s.chr("xz#")) : spoilt(s, fs[at]);
  for (auto &f : fs)
    line += f;
  if (bad == 3) // the line ends in or before field `at`
    line.resize(at * M + s.u(1) * 0);
  else if (bad == 0 || bad > 3) {
    if (s.flip()) // the last field ends without trailing blanks
      while (line.size() > 1 && line.back() == ' ')
        line.pop_back();
    else
      line += s.str("0123456789 .", 0, 20);
  }
  bool ok = !(bad >= 1 && bad <= 3);
  s.note([&] { return fmt("N=%d M=%d \"%s\"", N, M, line.c_str()); });
  s.label(ok ? "valid" : fmt("invalid%d", bad));
  s.nontrivial();
  Exact x(line);
  for (int how = 0; how < 2; how++) {
    double d[5] = {-777, -777, -777, -777, -777};
    errno = 0;
    bool r = how ? dyn(N, M, x.p, d) : stat(N, M, x.p, d);
    errno = 0;
    CHECK(r == ok, "numbers-status", "status %d for \"%s\" (%d x %d)", r, line.c_str(), N,
          M);
    if (ok)
      for (int k = 0; k < N; k++) {
        double w = strtod(fs[k].c_str(), nullptr);
        CHECK(d[k] == w, "numbers", "field %d of \"%s\" is %.17g, expected %.17g", k,
              line.c_str(), d[k], w);
      }
    for (int k = N; k < 5; k++)
      CHECK(d[k] == -777, "numbers-extra", "element %d written", k);
  }
}

static void years(Src &s) {
  int y = s.i(0, 99);
  s.note([&] { return fmt("year %d", y); });
  s.nontrivial();
  int w = y >= 80 ? 1900 + y : 2000 + y;
  CHECK(ngpt::rinex::four2two_digit_year(y) == w, "year", "%d -> %d", y,
        ngpt::rinex::four2two_digit_year(y));
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C07";
  e.rule = "random texts with blanks and optional stop column in exactly sized "
           "heap blocks; texts with D/d; lines of 1-4 numbers in 8/14/19 "
           "columns (aligned, full width, exponents; blank, non-numeric and "
           "missing fields); all two-digit years. Non-trivial: a blank inside "
           "the considered text, a D to replace, any number line or year";
  e.subs = {{"trims", 400000, 5000000, trims},
            {"fortran", 60000, 600000, fortran},
            {"numbers", 250000, 3000000, numbers},
            {"years", 2000, 10000, years}};
  return e.main(argc, argv);
}
