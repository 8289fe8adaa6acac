// the GLONASS equations of motion, integrated with small steps
#pragma once
#include <cmath>
template <class D> void glo(D f, double dt, double *w) {
  typedef long double R;
  R y[6] = {f(3), f(7), f(11), f(4), f(8), f(12)}, a[3] = {f(5), f(9), f(13)};
  auto der = [&](const R *x, R *d) {
    const R mu = 398600441.8e6L, J2 = 1082625.75e-9L, ae = 6378136, om = 7.2921151467e-5L;
    R r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], r = std::sqrt(r2), k = mu / (r2 * r),
      j = 1.5L * J2 * k * ae * ae / r2, z = 5 * x[2] * x[2] / r2;
    for (int i = 0; i < 3; i++)
      d[i] = x[i + 3];
    d[3] = -k * x[0] - j * x[0] * (1 - z) + om * om * x[0] + 2 * om * x[4] + a[0];
    d[4] = -k * x[1] - j * x[1] * (1 - z) + om * om * x[1] - 2 * om * x[3] + a[1];
    d[5] = -k * x[2] - j * x[2] * (3 - z) + a[2];
  };
  const int n = 900;
  R h = R(dt) / n;
  for (int k = 0; k < n; k++) {
    R k1[6], k2[6], k3[6], k4[6], t[6];
    der(y, k1);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k1[i];
    der(t, k2);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h / 2 * k2[i];
    der(t, k3);
    for (int i = 0; i < 6; i++) t[i] = y[i] + h * k3[i];
    der(t, k4);
    for (int i = 0; i < 6; i++) y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
  }
  for (int i = 0; i < 6; i++)
    w[i] = double(y[i]);
}
