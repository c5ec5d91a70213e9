#pragma once
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/kinematics/rotations.hpp>
// quaternions are [x y z w]; C(q) = (w^2 - e'e) I + 2 e e' - 2 w [e]x and C(p+ q) = C(p) C(q): a rotation of the axis
// angle a is C = exp(-[a]x), the convention of this package
namespace sm { namespace kinematics {
inline Eigen::Vector4d quatIdentity() { return Eigen::Vector4d(0, 0, 0, 1); }
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) { return Eigen::Vector4d(-q(0), -q(1), -q(2), q(3)); }
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) {
  const Eigen::Vector3d e = q.head<3>(); const double w = q(3);
  return (w * w - e.dot(e)) * Eigen::Matrix3d::Identity() + 2 * e * e.transpose() - 2 * w * crossMx(e);
}
inline Eigen::Vector4d qplus(const Eigen::Vector4d& p, const Eigen::Vector4d& q) {
  const Eigen::Vector3d a = p.head<3>(), b = q.head<3>();
  Eigen::Vector4d r; r.head<3>() = p(3) * b + q(3) * a - a.cross(b); r(3) = p(3) * q(3) - a.dot(b);
  return r;
}
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) {
  // largest component first; sign: non-negative scalar part
  const double t[4] = {1 + C(0, 0) - C(1, 1) - C(2, 2), 1 - C(0, 0) + C(1, 1) - C(2, 2), 1 - C(0, 0) - C(1, 1) + C(2, 2), 1 + C(0, 0) + C(1, 1) + C(2, 2)};
  int m = 0; for (int i = 1; i < 4; ++i) if (t[i] > t[m]) m = i;
  Eigen::Vector4d q; const double d = std::sqrt(t[m]) / 2; q(m) = d;
  if (m == 3) q.head<3>() = Eigen::Vector3d(C(1, 2) - C(2, 1), C(2, 0) - C(0, 2), C(0, 1) - C(1, 0)) / (4 * d);
  else {
    const int j = (m + 1) % 3, k = (m + 2) % 3;
    q(j) = (C(m, j) + C(j, m)) / (4 * d); q(k) = (C(m, k) + C(k, m)) / (4 * d); q(3) = (C(j, k) - C(k, j)) / (4 * d);
  }
  if (q(3) < 0) q = -q;
  return q.normalized();
}
inline Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v) { return quat2r(q) * v; }
inline Eigen::Vector4d axisAngle2quat(const Eigen::Vector3d& a) {
  const double n = a.norm(); Eigen::Vector4d q;
  if (n < 1e-12) q << a / 2, 1; else q << a / n * std::sin(n / 2), std::cos(n / 2);
  return q.normalized();
}
inline Eigen::Vector3d quat2AxisAngle(const Eigen::Vector4d& q0) {
  const Eigen::Vector4d q = q0(3) < 0 ? Eigen::Vector4d(-q0) : q0; const double n = q.head<3>().norm();
  if (n < 1e-12) return 2 * q.head<3>();
  return q.head<3>() / n * 2 * std::atan2(n, q(3));
}
inline Eigen::Vector4d qexp(const Eigen::Vector3d& a) { return axisAngle2quat(a); }
inline Eigen::Vector3d qlog(const Eigen::Vector4d& q) { return quat2AxisAngle(q); }
} }
