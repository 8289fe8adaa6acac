// the extended Kalman filter of a position, a clock and its drift
#pragma once
#include <eigen3/Eigen/Dense>
#include <array>
#include <vector>
struct Ekf {
  Eigen::VectorXd x{5};
  Eigen::MatrixXd P{5, 5};
  double k;
  Ekf(std::array<double, 5> s, double coef) : k(coef) {
    P.setZero();
    for (int i = 0; i < 5; i++) {
      x(i) = s[i];
      P(i, i) = i == 4 ? 30 : 2500;
    }
  }
  void update(const std::vector<double> &o, const std::vector<std::array<double, 4>> &sv, double dt, const std::vector<double> &w) {
    Eigen::MatrixXd F = Eigen::MatrixXd::Identity(5, 5);
    F(3, 4) = dt;
    x = F * x;
    P = F * P * F.transpose();
    P(3, 3) += .0114; P(3, 4) += .0019; P(4, 3) += .0019; P(4, 4) += .0039;
    int n = o.size();
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, 5), R = Eigen::MatrixXd::Zero(n, n);
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++) {
      Eigen::Vector3d d(sv[i][0] - x(0), sv[i][1] - x(1), sv[i][2] - x(2));
      v(i) = o[i] + sv[i][3] * 299792458. * k - d.norm() - x(3);
      for (int c = 0; c < 3; c++) H(i, c) = -k * d(c) / d.norm();
      H(i, 3) = k;
      R(i, i) = 100 + w[i];
    }
    Eigen::MatrixXd S = H * P * H.transpose() + R, K = P * H.transpose() * S.inverse();
    P = P - K * S * K.transpose();
    x += K * v;
  }
};
inline std::vector<std::array<double, 4>> sats(double t) {
  std::vector<std::array<double, 4>> v;
  const double a[6][2] = {{.2, .3}, {1.1, .9}, {2.6, .5}, {3.5, 1.2}, {4.4, .4}, {5.7, .8}};
  for (auto &q : a) {
    double l = q[0] + t * 1e-4, b = q[1];
    v.push_back({26.5e6 * cos(b) * cos(l), 26.5e6 * cos(b) * sin(l), 26.5e6 * sin(b), 1e-5 * q[0]});
  }
  return v;
}
