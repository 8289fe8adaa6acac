// reference orbit and clock computations (long double, from the ICDs)
#pragma once
#include "nav_gen.hpp"

namespace navref {
using namespace nav;
typedef long double R;
constexpr R PI = 3.14159265358979323846264338327950288L;

struct Const {
  R mu, omega, F;
};
inline Const constants(char c) {
  const R C = 299792458.0L;
  if (c == 'G')
    return {3.986005e14L, 7.2921151467e-5L, -4.442807633e-10L};
  if (c == 'E')
    return {3.986004418e14L, 7.2921151467e-5L, -4.442807309e-10L};
  R mu = 3.986004418e14L;
  return {mu, 7.2921150e-5L, -2 * sqrtl(mu) / (C * C)};
}
inline R eccentric(R M, R e) {
  // Newton, from a safe start
  R E = M + e * sinl(M);
  for (int k = 0; k < 60; k++) {
    R d = (E - e * sinl(E) - M) / (1 - e * cosl(E));
    E -= d;
    if (fabsl(d) < 1e-18L * (1 + fabsl(E)))
      break;
  }
  return E;
}
inline bool geo(const Msg &m) { return m.sys == 'C' && (m.prn <= 5 || m.prn >= 59); }

/// earth-fixed position tk seconds after ToE
inline void position(const Msg &m, R tk, R x[3]) {
  Const c = constants(m.sys);
  auto d = [&](int k) { return R(m.val(k)); };
  R A = d(10) * d(10);
  R n = sqrtl(c.mu / A) / A + d(5);
  R e = d(8), E = eccentric(d(6) + n * tk, e);
  R nu = 2 * atan2l(sqrtl(1 + e) * sinl(E / 2), sqrtl(1 - e) * cosl(E / 2));
  R phi = nu + d(17);
  R s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  R u = phi + d(9) * s2 + d(7) * c2;
  R r = A * (1 - e * cosl(E)) + d(4) * s2 + d(16) * c2;
  R i = d(15) + d(19) * tk + d(14) * s2 + d(12) * c2;
  // node in the frame of the orbit
  R om = d(13) + d(18) * tk - c.omega * d(11);
  if (!geo(m))
    om -= c.omega * tk;
  R p[3] = {r * cosl(u), r * sinl(u) * cosl(i), r * sinl(u) * sinl(i)};
  R g[3] = {p[0] * cosl(om) - p[1] * sinl(om), p[0] * sinl(om) + p[1] * cosl(om), p[2]};
  if (geo(m)) { // Rz(omega tk) Rx(-5 deg)
    R f = -5 * PI / 180;
    R h[3] = {g[0], g[1] * cosl(f) + g[2] * sinl(f), -g[1] * sinl(f) + g[2] * cosl(f)};
    R w = c.omega * tk;
    g[0] = h[0] * cosl(w) + h[1] * sinl(w);
    g[1] = -h[0] * sinl(w) + h[1] * cosl(w);
    g[2] = h[2];
  }
  for (int k = 0; k < 3; k++)
    x[k] = g[k];
}
/// clock offset dt seconds after ToC, tk after ToE
inline R clock(const Msg &m, R dt, R tk) {
  auto d = [&](int k) { return R(m.val(k)); };
  if (m.sys == 'R')
    return d(0) + d(1) * dt;
  Const c = constants(m.sys);
  R A = d(10) * d(10);
  R n = sqrtl(c.mu / A) / A + d(5);
  R E = eccentric(d(6) + n * tk, d(8));
  return d(0) + d(1) * dt + d(2) * dt * dt + c.F * d(8) * d(10) * sinl(E);
}
/// GLONASS equations of motion (ICD J.2.1), PZ-90 earth-fixed
inline void deriv(const R *x, const R *a, R *o) {
  const R mu = 398600.4418e9L, ae = 6378136.0L, J2 = 1082625.75e-9L, w = 7.2921151467e-5L;
  R r = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
  R g = mu / (r * r * r);
  R j = 1.5L * J2 * g * (ae / r) * (ae / r);
  R z = x[2] / r;
  o[0] = x[3];
  o[1] = x[4];
  o[2] = x[5];
  o[3] = -g * x[0] - j * x[0] * (1 - 5 * z * z) + w * w * x[0] + 2 * w * x[4] + a[0];
  o[4] = -g * x[1] - j * x[1] * (1 - 5 * z * z) + w * w * x[1] - 2 * w * x[3] + a[1];
  o[5] = -g * x[2] - j * x[2] * (3 - 5 * z * z) + a[2];
}
inline void glonass(const Msg &m, R tk, R x[6]) {
  R a[3];
  for (int k = 0; k < 3; k++) {
    x[k] = m.val(3 + 4 * k);
    x[k + 3] = m.val(4 + 4 * k);
    a[k] = m.val(5 + 4 * k);
  }
  int n = int(ceill(fabsl(tk) / 10));
  R h = n ? tk / n : 0;
  for (int k = 0; k < n; k++) {
    R k1[6], k2[6], k3[6], k4[6], t[6];
    deriv(x, a, k1);
    for (int i = 0; i < 6; i++)
      t[i] = x[i] + h / 2 * k1[i];
    deriv(t, a, k2);
    for (int i = 0; i < 6; i++)
      t[i] = x[i] + h / 2 * k2[i];
    deriv(t, a, k3);
    for (int i = 0; i < 6; i++)
      t[i] = x[i] + h * k3[i];
    deriv(t, a, k4);
    for (int i = 0; i < 6; i++)
      x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
}
/// the frame, read back from a file
inline void frame(const Msg &m, NavDataFrame &d) {
  std::string t;
  for (auto &l : m.lines())
    t += l + "\n";
  std::string fn = write_file(t, "f");
  std::ifstream in(fn);
  int st = d.set_from_rnx3(in);
  CHECK(st == 0, "read", "status %d for a good message", st);
}
} // namespace navref
