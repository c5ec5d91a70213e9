// C23: the models of the 2D laser-rangefinder example
#include "et.hpp"
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/2dlrf/ErrorTermMotion.h>
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
namespace ac = aslam::calibration;
typedef ac::VectorDesignVariable<3> V3;
typedef ac::VectorDesignVariable<2> V2;
typedef Eigen::Vector3d E3;
typedef Eigen::Vector2d E2;

template <typename T> static const T& ro(const T& t) { return t; }  // what a user sees who may not change it

static double angle(vpt::Src& s) {
  switch (s.index(4)) {
    case 0: return s.real(-M_PI, M_PI);
    case 1: return (double)s.range(-4, 4) * M_PI / 2;
    case 2: return s.real(-30, 30);
    default: return 0;
  }
}
static E3 pose(vpt::Src& s) { return E3(s.any(20), s.any(20), angle(s)); }

struct Motion {
  std::unique_ptr<V3> a, b; E3 u; double T; Eigen::Matrix3d Q;
  // the inputs of the motion that leads from one pose to the other: velocities in the frame of the first
  E3 want() const {
    const E3 x = a->getValue(), y = b->getValue(); const double c = std::cos(x(2)), n = std::sin(x(2));
    const E3 d = (y - x) / T;
    return E3(u(0) - c * d(0) - n * d(1), u(1) + n * d(0) - c * d(1), et::wrap((u(2) - d(2)) * T) / T);
  }
};
static Motion motion(vpt::Src& s) {
  Motion m;
  m.a.reset(new V3(pose(s))); m.b.reset(new V3(pose(s)));
  m.u = E3(s.any(10), s.any(10), s.any(3)); m.T = s.chance(1, 3) ? 0.1 : s.logReal(1e-2, 10); m.Q = et::spd(s, 3);
  if (M_PI - std::fabs(m.want()(2) * m.T) < 1e-2) throw vpt::Discard();  // at the jump of the heading error
  s.note([&](std::ostream& o) { o << "motion from " << m.a->getValue().transpose() << " to " << m.b->getValue().transpose() << " input " << m.u.transpose() << " T " << m.T << "\nQ\n" << m.Q << "\n"; });
  return m;
}

CLAUSE(motion, 4000, 100000, "the heading is not zero, and the covariance not diagonal") {
  Motion m = motion(s);
  ac::ErrorTermMotion e(m.a.get(), m.b.get(), m.T, m.u, m.Q);
  et::weighted(e, m.Q, "motion");
  const double sc = 1 + m.want().norm();
  et::close(E3(e.error()), m.want(), 0, 1e-10 * sc * (1 + 1 / m.T), "motion error");
  et::Opt o; o.abs = 1e-6 * (1 + 1 / m.T) * (1 + (m.b->getValue() - m.a->getValue()).norm());
  et::jacobians(s, e, {m.a.get(), m.b.get()}, o, "motion");
  // a pose reached by the input has no error
  const E3 x = m.a->getValue(); const double c = std::cos(x(2)), n = std::sin(x(2));
  V3 y(E3(x + m.T * E3(c * m.u(0) - n * m.u(1), n * m.u(0) + c * m.u(1), m.u(2))));
  ac::ErrorTermMotion z(m.a.get(), &y, m.T, m.u, m.Q);
  z.evaluateError();
  et::close(E3(z.error()), E3::Zero(), 0, 1e-9 * (1 + 1 / m.T) * (1 + x.norm()), "error of a pose reached by the input");
  s.nontrivial(std::fabs(std::sin(x(2))) > 1e-3 && m.Q(0, 1) != 0);
}

struct Obs {
  std::unique_ptr<V3> x, Th; std::unique_ptr<V2> l; double r, b; Eigen::Matrix2d R;
  double range, bearing;  // of the landmark from the sensor
};
static Obs observation(vpt::Src& s) {
  Obs o;
  o.x.reset(new V3(pose(s))); o.Th.reset(new V3(E3(s.any(3), s.any(3), angle(s))));
  const E3 x = o.x->getValue(), t = o.Th->getValue();
  const double c = std::cos(x(2)), n = std::sin(x(2));
  const E2 p(x(0) + c * t(0) - n * t(1), x(1) + n * t(0) + c * t(1));  // the sensor
  const double d = s.logReal(0.2, 100), beta = angle(s);
  o.l.reset(new V2(E2(p(0) + d * std::cos(beta), p(1) + d * std::sin(beta))));
  o.range = (o.l->getValue() - p).norm();
  if (o.range < 0.1) throw vpt::Discard();
  o.bearing = std::atan2(o.l->getValue()(1) - p(1), o.l->getValue()(0) - p(0)) - x(2) - t(2);
  o.r = s.chance(1, 3) ? o.range : s.logReal(0.1, 100);
  o.b = s.chance(1, 3) ? et::wrap(o.bearing) : angle(s);
  if (M_PI - std::fabs(et::wrap(o.b - o.bearing)) < 1e-2) throw vpt::Discard();  // at the jump of the angle error
  o.R = et::spd(s, 2);
  s.note([&](std::ostream& q) { q << "pose " << x.transpose() << " calibration " << t.transpose() << " landmark " << o.l->getValue().transpose() << " measured " << o.r << " " << o.b << "\nR\n" << o.R << "\n"; });
  return o;
}
CLAUSE(observation, 4000, 100000, "all of pose, landmark and calibration angles are turned") {
  Obs o = observation(s);
  ac::ErrorTermObservation e(o.x.get(), o.l.get(), o.Th.get(), o.r, o.b, o.R);
  et::weighted(e, o.R, "observation");
  VCLOSE(e.error()(0), o.r - o.range, 0, 1e-9 * (1 + o.range + o.r), "range error");
  VCLOSE(et::wrap(e.error()(1) - et::wrap(o.b - o.bearing)), 0, 0, 1e-8, "bearing error, modulo a full turn");
  VCHECK(std::fabs(e.error()(1)) <= M_PI + 1e-9, "bearing error beyond half a turn: " << e.error()(1));
  et::Opt p; p.angles = {1}; p.h = 1e-4 * std::min(1.0, o.range); p.abs = 1e-6 * (1 + 1 / o.range) * (1 + o.Th->getValue().head<2>().norm());
  et::jacobians(s, e, {o.x.get(), o.l.get(), o.Th.get()}, p, "observation");
  s.nontrivial(std::fabs(std::sin(o.x->getValue()(2))) > 1e-3 && std::fabs(o.Th->getValue()(2)) > 1e-3);
}

CLAUSE(accessors, 4000, 60000, "parameters were changed in both error terms") {
  Motion m = motion(s), m2 = motion(s);
  ac::ErrorTermMotion e(m.a.get(), m.b.get(), m.T, m.u, m.Q), want(m.a.get(), m.b.get(), m2.T, m2.u, m2.Q), other(m2.a.get(), m2.b.get(), m2.T, m2.u, m2.Q);
  VEQ(e.getTimestep(), m.T, "timestep"); VCHECK(e.getInput() == m.u && ro(e).getInput() == m.u, "input"); VCHECK(e.getCovariance() == m.Q && ro(e).getCovariance() == m.Q, "covariance");
  ac::ErrorTermMotion copy(e);
  et::same(e, copy, "copied motion");
  VEQ(copy.getTimestep(), m.T, "copied timestep"); VCHECK(copy.getInput() == m.u && ro(copy).getInput() == m.u, "copied input"); VCHECK(copy.getCovariance() == m.Q && ro(copy).getCovariance() == m.Q, "copied covariance");
  e.evaluateError();
  for (size_t i : s.permutation(3)) {
    if (i == 0) e.setTimestep(m2.T);
    if (i == 1) { if (s.flip()) e.setInput(m2.u); else e.getInput() = m2.u; }
    if (i == 2) { if (s.flip()) e.setCovariance(m2.Q); else e.setCovariance(ro(want).getCovariance()); }
  }
  VEQ(e.getTimestep(), m2.T, "timestep set"); VCHECK(e.getInput() == m2.u && ro(e).getInput() == m2.u, "input set"); VCHECK(e.getCovariance() == m2.Q && ro(e).getCovariance() == m2.Q, "covariance set");
  et::same(want, e, "motion after changing its parameters, and built with them");
  VEQ(copy.getTimestep(), m.T, "the copy is separate");
  other = copy;
  et::same(copy, other, "assigned motion");
  VEQ(other.getTimestep(), m.T, "assigned timestep"); VCHECK(other.getInput() == m.u && ro(other).getInput() == m.u, "assigned input"); VCHECK(other.getCovariance() == m.Q && ro(other).getCovariance() == m.Q, "assigned covariance");
  other = *&other;
  et::same(copy, other, "motion assigned to itself");

  Obs a = observation(s), b = observation(s);
  ac::ErrorTermObservation f(a.x.get(), a.l.get(), a.Th.get(), a.r, a.b, a.R), fw(a.x.get(), a.l.get(), a.Th.get(), b.r, b.b, b.R), fo(b.x.get(), b.l.get(), b.Th.get(), b.r, b.b, b.R);
  VEQ(f.getRange(), a.r, "range"); VEQ(f.getBearing(), a.b, "bearing"); VCHECK(f.getCovariance() == a.R && ro(f).getCovariance() == a.R, "covariance");
  ac::ErrorTermObservation fc(f);
  et::same(f, fc, "copied observation");
  f.evaluateError();
  for (size_t i : s.permutation(3)) {
    if (i == 0) f.setRange(b.r);
    if (i == 1) f.setBearing(b.b);
    if (i == 2) f.setCovariance(b.R);
  }
  VEQ(f.getRange(), b.r, "range set"); VEQ(f.getBearing(), b.b, "bearing set"); VCHECK(f.getCovariance() == b.R && ro(f).getCovariance() == b.R, "covariance set");
  et::same(fw, f, "observation after changing its parameters, and built with them");
  VEQ(fc.getRange(), a.r, "the copy is separate");
  fo = fc;
  et::same(fc, fo, "assigned observation");
  VEQ(fo.getRange(), a.r, "assigned range"); VEQ(fo.getBearing(), a.b, "assigned bearing"); VCHECK(fo.getCovariance() == a.R && ro(fo).getCovariance() == a.R, "assigned covariance");
  s.nontrivial();
}
