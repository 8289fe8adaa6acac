// C26 the positioning filter is the textbook extended Kalman filter
#define PBT_MAIN
#include "pbt.hpp"
#include "gauss_newton.hpp"
using namespace pbt;
using ngpt::Kalman;
typedef long double R;

// reference: extended Kalman filter over position, receiver clock offset (m)
// and clock drift, in long double, with its own linear algebra
struct Ekf {
  R x[5], P[5][5];
  bool first = true;
  R coef;
  bool illcond = false;
  R vmax = 0; // largest innovation so far
  R qmax = 0; // largest predicted variance so far
  void update(int n, const std::vector<double> &obs,
              const std::vector<std::array<double, 4>> &sv, R dt,
              const std::vector<double> *w) {
    R F[5][5] = {};
    for (int i = 0; i < 5; i++)
      F[i][i] = 1;
    F[3][4] = dt;
    R y[5];
    for (int i = 0; i < 5; i++) {
      y[i] = 0;
      for (int j = 0; j < 5; j++)
        y[i] += F[i][j] * x[j];
    }
    memcpy(x, y, sizeof x);
    if (first) {
      memset(P, 0, sizeof P);
      for (int i = 0; i < 4; i++)
        P[i][i] = 2500;
      P[4][4] = 30;
      first = false;
    }
    R T[5][5], Q[5][5];
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++) {
        T[i][j] = 0;
        for (int k = 0; k < 5; k++)
          T[i][j] += F[i][k] * P[k][j];
      }
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++) {
        Q[i][j] = 0;
        for (int k = 0; k < 5; k++)
          Q[i][j] += T[i][k] * F[j][k];
      }
    Q[3][3] += 0.0114L;
    Q[3][4] += 0.0019L;
    Q[4][3] += 0.0019L;
    Q[4][4] += 0.0039L;
    for (int i = 0; i < 5; i++)
      qmax = std::max(qmax, Q[i][i]);
    std::vector<std::array<R, 5>> H(n);
    std::vector<R> v(n);
    for (int i = 0; i < n; i++) {
      R dx = sv[i][0] - x[0], dy = sv[i][1] - x[1], dz = sv[i][2] - x[2];
      R r = sqrtl(dx * dx + dy * dy + dz * dz);
      H[i] = {-coef * dx / r, -coef * dy / r, -coef * dz / r, coef, 0};
      v[i] = obs[i] + R(sv[i][3]) * 299792458.0L * coef - (r + x[3]);
      vmax = std::max(vmax, fabsl(v[i]));
    }
    // S = H Q H' + noise
    std::vector<std::vector<R>> S(n, std::vector<R>(2 * n, 0));
    std::vector<std::array<R, 5>> HQ(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < 5; j++) {
        HQ[i][j] = 0;
        for (int k = 0; k < 5; k++)
          HQ[i][j] += H[i][k] * Q[k][j];
      }
    R smax = 0;
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++)
        for (int k = 0; k < 5; k++)
          S[i][j] += HQ[i][k] * H[j][k];
      if (w)
        S[i][i] += 100 + R((*w)[i]);
      S[i][n + i] = 1;
      smax = std::max(smax, S[i][i]);
    }
    // inverse by Gauss-Jordan with pivoting
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int r = c; r < n; r++)
        if (fabsl(S[r][c]) > fabsl(S[p][c]))
          p = r;
      std::swap(S[p], S[c]);
      if (fabsl(S[c][c]) < smax * (w ? 1e-6L : 1e-3L))
        illcond = true;
      R d = S[c][c];
      for (auto &e : S[c])
        e /= d;
      for (int r = 0; r < n; r++)
        if (r != c) {
          R f = S[r][c];
          if (f != 0)
            for (int k = 0; k < 2 * n; k++)
              S[r][k] -= f * S[c][k];
        }
    }
    // W = (HQ)' S^-1 ; P = Q - W (HQ) ; x += W v
    for (int i = 0; i < 5; i++) {
      std::vector<R> W(n, 0);
      for (int j = 0; j < n; j++)
        for (int k = 0; k < n; k++)
          W[j] += HQ[k][i] * S[k][n + j];
      for (int j = 0; j < 5; j++) {
        P[i][j] = Q[i][j];
        for (int k = 0; k < n; k++)
          P[i][j] -= W[k] * HQ[k][j];
      }
      for (int j = 0; j < n; j++)
        x[i] += W[j] * v[j];
    }
  }
};

static bool parse(const std::string &t, double *x, double *sd) {
  // each number has exactly three decimals
  size_t p = 0;
  auto num = [&](double &v) {
    while (p < t.size() && isspace((unsigned char)t[p]))
      ++p;
    for (const char *nn : {"nan", "-nan"})
      if (!t.compare(p, strlen(nn), nn)) {
        p += strlen(nn);
        v = NAN;
        return true;
      }
    size_t q = t.find('.', p);
    if (q == std::string::npos || q + 3 >= t.size() + 0)
      return false;
    std::string n = t.substr(p, q + 4 - p);
    char *e;
    v = strtod(n.c_str(), &e);
    p = q + 4;
    return *e == 0;
  };
  for (int i = 0; i < 5; i++) {
    if (!num(x[i]))
      return false;
    while (p < t.size() && isspace((unsigned char)t[p]))
      ++p;
    if (t.compare(p, 3, "+/-"))
      return false;
    p += 3;
    if (!num(sd[i]))
      return false;
  }
  return true;
}

static void filter(Src &s) {
  // receiver
  const double PI = 3.14159265358979323846;
  double lat = s.dec(-80, 80, 2) * PI / 180, lon = s.dec(-180, 180, 2) * PI / 180;
  double rr = 6371000 + s.dec(0, 4000, 0);
  double tr[3] = {rr * cos(lat) * cos(lon), rr * cos(lat) * sin(lon), rr * sin(lat)};
  double x0[5];
  for (int i = 0; i < 3; i++)
    x0[i] = tr[i] + s.dec(-200, 200, 2);
  x0[3] = s.dec(-500000, 500000, 1);
  x0[4] = s.p(1, 2) ? 0 : s.dec(-50, 50, 3);
  double coef = s.p(3, 4) ? 1.0 : s.dec(0.5, 2, 2);
  double tclk = s.p(1, 2) ? x0[3] + s.dec(-100, 100, 2) : s.dec(-500000, 500000, 2);
  double tdrift = s.dec(-20, 20, 3);
  bool weights = s.p(7, 8);
  // the first update without weights, the others with them
  bool mixed = weights && s.p(1, 12);
  int nup = weights ? (s.p(1, 20) ? s.i(9, 40) : s.i(1, 8)) : 1;
  auto mk = [&] {
    return (coef == 1.0 && s.flip())
               ? Kalman<5>{{x0[0], x0[1], x0[2], x0[3], x0[4]}}
               : Kalman<5>{{x0[0], x0[1], x0[2], x0[3], x0[4]}, coef};
  };
  Kalman<5> k = mk(), k2 = mk();
  Ekf r;
  r.coef = coef;
  for (int i = 0; i < 5; i++)
    r.x[i] = x0[i];
  s.note([&] {
    return fmt("x0=(%.2f %.2f %.2f %.1f %.3f) coef=%.2f weights=%d updates=%d", x0[0],
               x0[1], x0[2], x0[3], x0[4], coef, weights, nup);
  });
  double t = 0;
  int nmax = 0;
  s.label(mixed ? "first unweighted" : weights ? "weighted" : "unweighted");
  for (int u = 0; u < nup; u++) {
    bool wgt = weights && !(mixed && u == 0);
    int n = wgt ? (s.p(1, 40) ? s.i(15, 80) : s.i(1, 14)) : s.i(1, 4);
    double dt = u == 0 && s.flip() ? 0 : (s.flip() ? s.pick(std::vector<double>{1, 5, 15, 30})
                                                   : s.dec(0, n > 14 ? 30 : 120, 1));
    t += dt;
    std::vector<double> obs, w;
    std::vector<std::array<double, 4>> sv;
    for (int i = 0; i < n; i++) {
      double az = s.dec(0, 360, 1) * PI / 180, el = s.dec(5, 89, 1) * PI / 180;
      double d = 2.0e7 + s.dec(0, 5e6, 0);
      // local frame
      double e = cos(el) * sin(az), nn = cos(el) * cos(az), up = sin(el);
      double vx = -sin(lon) * e - sin(lat) * cos(lon) * nn + cos(lat) * cos(lon) * up;
      double vy = cos(lon) * e - sin(lat) * sin(lon) * nn + cos(lat) * sin(lon) * up;
      double vz = cos(lat) * nn + sin(lat) * up;
      double clk = s.dec(-1e-3, 1e-3, 9);
      std::array<double, 4> a{tr[0] + d * vx, tr[1] + d * vy, tr[2] + d * vz, clk};
      sv.push_back(a);
      obs.push_back(d + tclk + tdrift * t - clk * 299792458.0 * coef + s.dec(-30, 30, 3));
      w.push_back(s.dec(0, 400, 2));
    }
    // unused trailing elements must not matter
    int extra = s.u(2);
    auto obsx = obs, wx = w;
    auto svx = sv;
    for (int q = 0; q < extra; q++) {
      obsx.push_back(1e15);
      wx.push_back(-1e9);
      svx.push_back({1, 2, 3, 4});
    }
    s.note([&] {
      std::string o = fmt("update dt=%.1f n=%d", dt, n);
      for (int i = 0; i < n; i++)
        o += fmt("\n   sv=(%.3f %.3f %.3f %.9f) obs=%.3f w=%.2f", sv[i][0], sv[i][1],
                 sv[i][2], sv[i][3], obs[i], w[i]);
      return o;
    });
    // asking for the diagnostics (printed, their format is not specified)
    // must not change the result
    if (s.u(15) == 15) {
      s.label("with diagnostics");
      capture_stdout([&] { k.update(n, &obsx, &svx, dt, wgt ? &wx : nullptr, true); });
    } else
      k.update(n, &obsx, &svx, dt, wgt ? &wx : nullptr);
    r.update(n, obs, sv, dt, wgt ? &w : nullptr);
    // the same observations in another order, to a second filter
    std::vector<size_t> perm(n);
    for (int i = 0; i < n; i++)
      perm[i] = i;
    for (int i = n; i > 1; i--)
      std::swap(perm[i - 1], perm[s.u(i - 1)]);
    std::vector<double> o2, w2;
    std::vector<std::array<double, 4>> s2;
    for (auto p : perm)
      o2.push_back(obs[p]), w2.push_back(w[p]), s2.push_back(sv[p]);
    k2.update(n, &o2, &s2, dt, wgt ? &w2 : nullptr);
    if (r.illcond) {
      s.label("skipped: singular geometry");
      return;
    }
    nmax = std::max(nmax, n);
    // the condition number of the innovation covariance grows with these
    double amp = std::max(1., std::pow(double(r.qmax) / 4e5 * nmax / 14. * coef * coef, 1.5));
    double x[5], sd[5], y[5], sd2[5];
    std::string out = capture_stdout([&] { k.print_state(); });
    std::string out2 = capture_stdout([&] { k2.print_state(); });
    CHECK(parse(out, x, sd), "format", "unexpected output '%s'", out.c_str());
    CHECK(parse(out2, y, sd2), "format", "unexpected output '%s'", out2.c_str());
    for (int i = 0; i < 5; i++) {
      // rounding errors of the gain are multiplied by the innovation
      double tol = 0.0035 + 2e-9 * std::abs(double(r.x[i])) + 1e-7 * double(r.vmax) * amp;
      if (!weights || mixed)
        tol += 0.02;
      CHECK(std::abs(x[i] - double(r.x[i])) < tol, "state",
            "update %d: component %d is %.3f, expected %.4Lf", u, i, x[i], r.x[i]);
      double e = double(r.P[i][i] > 0 ? sqrtl(r.P[i][i]) : 0);
      double stol = 0.0015 + 1e-5 * e + 2e-9 * double(r.qmax) * amp / std::max(e, 0.1) + (weights && !mixed ? 0 : 0.05);
      // without measurement noise the variance along an observed direction is
      // zero, and its rounded value may be slightly negative
      if ((weights && !mixed) || e > 0.5)
        CHECK(std::abs(sd[i] - e) < stol, "sigma",
              "update %d: sigma %d is %.3f, expected %.4f", u, i, sd[i], e);
      CHECK(std::abs(x[i] - y[i]) < 2 * tol, "order",
            "update %d: component %d depends on satellite order: %.3f %.3f", u, i, x[i],
            y[i]);
      if ((weights && !mixed) || e > 0.5)
        CHECK(std::abs(sd[i] - sd2[i]) < 2 * stol, "order-sigma",
              "update %d: sigma %d depends on satellite order", u, i);
    }
  }
  s.nontrivial();
}

int main(int argc, char **argv) {
  Engine e;
  e.prop = "C26";
  e.rule = "random receiver, initial state and coefficient, then 1-40 updates "
           "with 1-80 satellites at random directions, noisy pseudoranges, "
           "weights and time steps; compared after every update with a long "
           "double filter, and with the same filter fed in another order. "
           "Non-trivial: all updates of the case were compared";
  e.assumptions = {"geometries whose innovation covariance is numerically "
                   "singular are not compared (only met without weights)"};
  e.subs = {{"filter", 60000, 450000, filter}};
  return e.main(argc, argv);
}
