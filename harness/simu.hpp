// shared by the checks of the simulations of the example packages: the motion they should follow, and noise
#pragma once
#include "cal.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
namespace simu {
using cal::V3; using cal::M3; using cal::Ns;
typedef sm::kinematics::Transformation Tf;
struct Pose { M3 R = M3::Identity(); V3 p = V3::Zero(); };
inline Pose operator*(const Pose& a, const Pose& b) { Pose c; c.R = a.R * b.R; c.p = a.R * b.p + a.p; return c; }
inline Pose inv(const Pose& a) { Pose c; c.R = a.R.transpose(); c.p = -(c.R * a.p); return c; }
inline Pose of(const Tf& t) { Pose p; p.R = t.C(); p.p = t.t(); return p; }
inline M3 exp(const V3& w) { const double n = w.norm(); return n < 1e-300 ? M3::Identity() : M3(Eigen::AngleAxisd(n, w / n)); }
inline V3 log(const M3& R) { Eigen::AngleAxisd a(Eigen::Quaterniond(R).normalized()); return a.angle() * a.axis(); }
// constant body velocities over a step: along the heading at its start, then turned
inline Pose step(const Pose& a, const V3& v, const V3& w, double dt) { Pose b; b.p = a.p + dt * (a.R * v); b.R = a.R * exp(w * dt); return b; }
inline void same(const Pose& got, const Pose& want, double tol, const std::string& what) {
  VCHECK((got.p - want.p).norm() <= tol * (1 + want.p.norm()), what << ": at " << got.p.transpose() << ", expected " << want.p.transpose());
  VCHECK((got.R - want.R).cwiseAbs().maxCoeff() <= tol, what << ": attitude\n" << got.R << "\nexpected\n" << want.R);
}
// a sine wave along x at unit speed: heading and position
struct Sine { double A, f; double phi(double t) const { return std::atan(2 * M_PI * f * A * std::cos(2 * M_PI * f * t)); } Eigen::Vector2d r(double t) const { return Eigen::Vector2d(t, A * std::sin(2 * M_PI * f * t)); } };
// forward speed and turn rate that lead from a to b in dt, as seen from b
inline Eigen::Vector2d between(const Sine& s, double phi0, const Eigen::Vector2d& r0, double t, double dt) {
  const double p = s.phi(t); const Eigen::Vector2d d = (s.r(t) - r0) / dt;
  return Eigen::Vector2d(std::cos(p) * d(0) + std::sin(p) * d(1), (p - phi0) / dt);
}
// normalized noise: no sample is wildly off, and together they have the variance asked for
struct Noise {
  size_t n = 0; double sum = 0, sq = 0;
  void add(double x, double variance, const std::string& what) { const double z = x / std::sqrt(variance); VCHECK(std::fabs(z) < 9, what << ": noise of " << x << " with variance " << variance); n++; sum += z; sq += z * z; }
  void check(const std::string& what) const {
    if (n < 100) return;
    VCHECK(std::fabs(sum) < 9 * std::sqrt((double)n), what << ": " << n << " samples of noise have normalized mean " << sum / (double)n);
    VCHECK(std::fabs(sq / (double)n - 1) < 9 * std::sqrt(2.0 / (double)n), what << ": " << n << " samples of noise have normalized variance " << sq / (double)n);
  }
};
inline std::vector<std::vector<double> > rows(const std::string& file) {
  std::ifstream f(file); std::vector<std::vector<double> > r; std::string l;
  while (std::getline(f, l)) { std::istringstream i(l); r.emplace_back(); std::string w; while (i >> w) r.back().push_back(std::strtod(w.c_str(), nullptr)); }
  return r;
}
}  // namespace simu
