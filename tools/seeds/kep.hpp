// the user algorithm for positions from broadcast elements
#pragma once
#include <cmath>
template <class D> void kep(D f, double tk, double gm, double we, double *x) {
  typedef long double R;
  R A = R(f(10)) * f(10), n = std::sqrt(R(gm) / (A * A * A)) + f(5), M = f(6) + n * tk, e = f(8), E = M;
  for (int i = 0; i < 200; i++)
    E = M + e * std::sin(E);
  R v = std::atan2(std::sqrt(1 - e * e) * std::sin(E), std::cos(E) - e), p = v + f(17);
  R s = std::sin(2 * p), c = std::cos(2 * p);
  R u = p + f(9) * s + f(7) * c, r = A * (1 - e * std::cos(E)) + f(4) * s + f(16) * c,
    i = f(15) + f(14) * s + f(12) * c + f(19) * tk;
  R o = f(13) + (f(18) - R(we)) * tk - R(we) * f(11);
  R a = r * std::cos(u), b = r * std::sin(u);
  x[0] = a * std::cos(o) - b * std::cos(i) * std::sin(o);
  x[1] = a * std::sin(o) + b * std::cos(i) * std::cos(o);
  x[2] = b * std::sin(i);
}
