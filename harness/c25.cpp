// C25: the odometry error terms of the car example
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include "odo.hpp"
typedef ac::VectorDesignVariable<4> V4;

struct Steering { Velocity v; std::unique_ptr<V4> p; double m, q; std::vector<ab::DesignVariable*> dvs; double poly, phi; };
static void steering(vpt::Src& s, Steering& w) {
  velocity(s, w.v, 30);
  w.p.reset(new V4(V4::Container(s.any(0.5), s.any(1), s.any(0.1), s.any(0.01))));
  w.m = s.flip() ? s.any(3) : s.real(-40, 40); w.q = s.logReal(1e-4, 10);
  w.dvs = w.v.dvs; w.dvs.push_back(w.p.get());
  const E3 v = w.v.e.toValue();
  if (std::hypot(v(0), v(1)) < 1e-2) throw vpt::Discard();
  if (s.chance(1, 6) && w.dvs.size() == 2) { const double u = s.flip() ? 3.0 : -2.0; Eigen::MatrixXd x = E3(0, u, v(2)); w.v.v->setParameters(x); s.label("sideways"); }
  const E3 u = w.v.e.toValue();
  const auto a = w.p->getValue();
  w.poly = a(0) + w.m * (a(1) + w.m * (a(2) + w.m * a(3))); w.phi = std::atan2(u(1), u(0));
  if (M_PI - std::fabs(et::wrap(w.poly - w.phi)) < 2e-2) throw vpt::Discard();
  s.note([&](std::ostream& o) { o << "steering measured " << w.m << " variance " << w.q << " parameters " << a.transpose() << "\n"; });
}
CLAUSE(steering, 4000, 80000, "the velocity depends on several variables and all terms of the polynomial count") {
  Steering w; steering(s, w);
  ac::ErrorTermSteering e(w.v.e, w.m, w.q, w.p.get());
  Eigen::Matrix<double, 1, 1> Q; Q << w.q;
  et::weighted(e, Q, "steering");
  const double err = e.error()(0);
  VCHECK(std::fabs(err) <= M_PI + 1e-9, "steering error beyond half a turn");
  VCLOSE(et::wrap(err - et::wrap(w.poly - w.phi)), 0, 0, 1e-9 * (1 + std::fabs(w.poly)), "steering error: the polynomial in the measurement minus the direction of the wheel");
  et::Opt o; o.angles = {0};
  const E3 u = w.v.e.toValue(); const double n = std::hypot(u(0), u(1));
  o.h = 1e-3 * std::min(1.0, n); o.abs = 1e-6 * (1 + 1 / n) * (1 + u.norm());
  // the cubic makes the parameter derivatives large: keep the steps below the wrap
  if (std::pow(std::fabs(w.m), 3) * o.h > 1) o.h = 1e-2 / std::pow(std::fabs(w.m), 3);
  o.abs *= 1e-3 / o.h * 1e-3 + 1;
  et::jacobians(s, e, w.dvs, o, "steering");
  const auto a = w.p->getValue();
  s.nontrivial(w.dvs.size() > 2 && w.m != 0 && a(1) != 0 && a(2) != 0 && a(3) != 0);
}
CLAUSE(steering_accessors, 3000, 40000, "measurement and variance were changed") {
  Steering a, b; steering(s, a); steering(s, b);
  ac::ErrorTermSteering e(a.v.e, a.m, a.q, a.p.get()), want(a.v.e, b.m, b.q, a.p.get()), other(b.v.e, b.m, b.q, b.p.get());
  VEQ(e.getMeasurement(), a.m, "measurement"); VEQ(e.getVariance(), a.q, "variance");
  for (auto d : a.dvs) d->setActive(true);
  ac::ErrorTermSteering c(e);
  et::same(e, c, "copied steering");
  VEQ(c.getMeasurement(), a.m, "copied measurement"); VEQ(c.getVariance(), a.q, "copied variance");
  for (size_t i : s.permutation(2)) { if (i == 0) e.setMeasurement(b.m); else e.setVariance(b.q); }
  VEQ(e.getMeasurement(), b.m, "measurement set"); VEQ(e.getVariance(), b.q, "variance set");
  et::same(want, e, "steering after changing its parameters, and built with them");
  VEQ(c.getMeasurement(), a.m, "the copy is separate");
  other = c;
  et::same(c, other, "assigned steering");
  VEQ(other.getMeasurement(), a.m, "assigned measurement"); VEQ(other.getVariance(), a.q, "assigned variance");
  s.nontrivial();
}

CLAUSE(velocities, 3000, 60000, "both velocities depend on several variables") {
  Velocity v, w; velocity(s, v, 30); velocity(s, w, 3);
  const E3 vm = vec(s, 30), wm = vec(s, 3);
  const Eigen::Matrix3d Qv = et::spd(s, 3), Qw = et::spd(s, 3);
  ac::ErrorTermVelocities e(v.e, w.e, vm, wm, Qv, Qw);
  M6 Q = M6::Zero(); Q.topLeftCorner<3, 3>() = Qv; Q.bottomRightCorner<3, 3>() = Qw;
  et::weighted(e, Q, "velocities");
  E6 want; want << vm - v.e.toValue(), wm - w.e.toValue();
  et::close(E6(e.error()), want, 0, 1e-10 * (1 + want.norm()), "velocity error");
  std::vector<ab::DesignVariable*> dvs = v.dvs; dvs.insert(dvs.end(), w.dvs.begin(), w.dvs.end());
  et::Opt o; o.abs = 1e-6 * (1 + v.e.toValue().norm());
  et::jacobians(s, e, dvs, o, "velocities");
  ac::ErrorTermVelocities c(e), other(w.e, v.e, wm, vm, Qw, Qv);
  et::same(e, c, "copied velocities");
  other = c;
  et::same(e, other, "assigned velocities");
  s.nontrivial(v.dvs.size() > 1 && w.dvs.size() > 1);
}
