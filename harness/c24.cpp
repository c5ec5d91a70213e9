// C24: simulated path and landmark initialization of the 2D laser-rangefinder example
#include "vpt.hpp"
#include <aslam/calibration/2dlrf/utils.h>
namespace ac = aslam::calibration;
typedef Eigen::Matrix<double, 3, 1> E3;
typedef Eigen::Matrix<double, 2, 1> E2;

CLAUSE(sine, 4000, 60000, "three or more steps of a path that turns") {
  const size_t n = s.chance(1, 20) ? 1000 + s.index(4000) : 1 + s.index(60);
  const double A = s.chance(1, 8) ? 0 : s.any(10), f = s.chance(1, 3) ? 0.01 : s.logReal(1e-4, 5), T = s.chance(1, 2) ? s.pick(std::vector<double>{0.1, 0.01, 0.3, 0.05, 1, 0.7}) : s.logReal(1e-4, 3);
  s.desc() << n << " steps, amplitude " << A << " frequency " << f << " T " << T << "\n";
  std::vector<E3> u;
  if (s.flip()) u.assign(1 + s.index(5), E3(1, 2, 3));  // a used container is replaced
  ac::genSineWavePath(u, n, A, f, T);
  VEQ(u.size(), n, "inputs");
  VCHECK(u[0] == E3::Zero(), "the first input is not zero: " << u[0].transpose());
  double heading = 0, len = 0, curve = 0;
  for (size_t i = 1; i < n; ++i) {
    const double c = A * std::cos(2 * M_PI * f * (double)i * T), p = A * std::cos(2 * M_PI * f * (double)(i - 1) * T);
    VEQ(u[i](1), 0.0, "sideways velocity at " << i);
    heading += u[i](2) * T;
    VCLOSE(heading, std::atan(c), 1e-9, 1e-9, "the heading after " << i << " steps is the slope of the wave");
    const double v = 2 * M_PI * f * (std::sqrt(1 + c * c) + std::sqrt(1 + p * p)) / 2;
    VCLOSE(u[i](0), v, 1e-9, 1e-12, "velocity at " << i << " is the mean speed along the wave");
    len += u[i](0) * T; curve += v * T;
  }
  VCLOSE(len, curve, 1e-9, 1e-12, "length of the path");
  s.nontrivial(n >= 3 && A != 0);
}

CLAUSE(landmarks, 6000, 100000, "a landmark is seen later than in the first step, and one several times") {
  const size_t n = s.index(8), nl = s.index(6);
  std::vector<E3> x;
  for (size_t i = 0; i < n; ++i) x.push_back(E3(s.any(20), s.any(20), s.real(-7, 7)));
  const E3 Th(s.any(2), s.any(2), s.real(-4, 4));
  std::vector<E2> l(nl), out;
  const double world = s.chance(1, 4) ? s.logReal(1e-3, 1e4) : 1.0;
  for (auto& p : l) p = world * E2(s.any(30), s.any(30));
  const bool exact = s.flip();
  std::vector<std::vector<double> > r(n, std::vector<double>(nl, 0.0)), b = r;
  bool late = false, twice = false;
  std::vector<int> first(nl, -1);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < nl; ++j) {
      const double c = std::cos(x[i](2)), d = std::sin(x[i](2));
      const E2 q(x[i](0) + c * Th(0) - d * Th(1), x[i](1) + d * Th(0) + c * Th(1));
      b[i][j] = exact ? std::atan2(l[j](1) - q(1), l[j](0) - q(0)) - x[i](2) - Th(2) : s.real(-4, 4);
      switch (s.index(3)) {
        case 0: r[i][j] = exact ? (l[j] - q).norm() : s.logReal(1e-3, 50) * world; break;
        case 1: r[i][j] = s.flip() ? 0.0 : -0.0; break;
        default: r[i][j] = -1; b[i][j] = 3;  // not seen
      }
      if (r[i][j] > 0) { if (first[j] >= 0) twice = true; else { first[j] = (int)i; late = late || i > 0; } }
    }
  s.note([&](std::ostream& o) { o << "calibration " << Th.transpose() << "\n"; for (size_t i = 0; i < n; ++i) { o << "pose " << x[i].transpose() << " ranges"; for (double v : r[i]) o << " " << v; o << " bearings"; for (double v : b[i]) o << " " << v; o << "\n"; } });
  const bool used = s.flip();
  if (used) out.assign(1 + s.index(8), E2(7, 7));
  const size_t had = out.size();
  // measurements may go beyond the poses known so far
  const size_t extra = n ? s.index(3) : 0;
  for (size_t k = 0; k < extra; ++k) { r.push_back(std::vector<double>(nl, 5.0)); b.push_back(std::vector<double>(nl, 1.0)); }
  ac::initLandmarks(out, x, Th, r, b);
  if (n == 0) {
    VEQ(out.size(), had, "no measurements: nothing is known about landmarks");
    for (auto& p : out) VCHECK(p == E2(7, 7), "no measurements: changed");
    return;
  }
  VEQ(out.size(), nl, "landmarks");
  for (size_t j = 0; j < nl; ++j) {
    if (first[j] < 0) { VCHECK(out[j] == E2::Zero(), "a landmark never seen is at " << out[j].transpose()); continue; }
    const size_t i = (size_t)first[j];
    const double a = x[i](2), c = std::cos(a), d = std::sin(a), be = b[i][j] + Th(2) + a;
    const E2 want(x[i](0) + c * Th(0) - d * Th(1) + r[i][j] * std::cos(be), x[i](1) + d * Th(0) + c * Th(1) + r[i][j] * std::sin(be));
    VCHECK((out[j] - want).norm() <= 1e-9 * (1 + want.norm() + r[i][j]), "landmark " << j << " first seen at " << i << " is put at " << out[j].transpose() << ", not " << want.transpose());
    if (exact) VCHECK((out[j] - l[j]).norm() <= 1e-8 * (1 + l[j].norm() + x[i].norm()), "exact measurements give landmark " << j << " at " << out[j].transpose() << ", it is at " << l[j].transpose());
  }
  s.nontrivial(late && twice);
}
