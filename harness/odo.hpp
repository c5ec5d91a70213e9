// C25 and C26: the odometry error terms of the car and time-delay examples (the same classes in both)
#include "et.hpp"
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/EuclideanExpression.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/RotationExpression.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/ScalarExpression.hpp>
#include <aslam/backend/TransformationExpression.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
typedef Eigen::Vector3d E3;
typedef Eigen::Matrix<double, 6, 1> E6;
typedef Eigen::Matrix<double, 6, 6> M6;

static Eigen::Vector4d quat(vpt::Src& s) {
  Eigen::Vector4d q;
  switch (s.index(3)) {
    case 0: q = sm::kinematics::axisAngle2quat(E3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)) * s.logReal(1e-3, 3)); break;
    case 1: q << 0, 0, 0, 1; break;
    default: q << s.real(-1, 1), s.real(-1, 1), s.real(-1, 1), s.real(-1, 1);
  }
  if (q.norm() < 1e-3) throw vpt::Discard();
  return q.normalized();
}
static E3 vec(vpt::Src& s, double m) { return E3(s.any(m), s.any(m), s.any(m)); }
static E3 ypr(const Eigen::Matrix3d& C) { return sm::kinematics::EulerAnglesYawPitchRoll().rotationMatrixToParameters(C); }

// a velocity: a variable itself, or one seen through a rotation with a lever arm
struct Velocity {
  std::unique_ptr<ab::EuclideanPoint> v, w; std::unique_ptr<ab::RotationQuaternion> R;
  std::vector<ab::DesignVariable*> dvs; ab::EuclideanExpression e;
};
static void velocity(vpt::Src& s, Velocity& o, double m) {
  o.v.reset(new ab::EuclideanPoint(vec(s, m))); o.dvs = {o.v.get()}; o.e = ab::EuclideanExpression(o.v.get());
  if (s.flip()) {
    o.R.reset(new ab::RotationQuaternion(quat(s))); o.w.reset(new ab::EuclideanPoint(vec(s, 2)));
    o.dvs.push_back(o.R.get()); o.dvs.push_back(o.w.get());
    ab::RotationExpression R(o.R.get());
    o.e = R * (o.e + ab::EuclideanExpression(o.w.get()).cross(ab::EuclideanExpression(E3(1, 2, 3))));
  }
  s.note([&](std::ostream& q) { q << "velocity " << o.e.toValue().transpose() << " of " << o.dvs.size() << " variables\n"; });
}

struct Wheel { Velocity v; std::unique_ptr<ab::Scalar> k; ab::ScalarExpression ke; double m; Eigen::Matrix3d Q; bool front; std::vector<ab::DesignVariable*> dvs; };
static void wheel(vpt::Src& s, Wheel& w) {
  velocity(s, w.v, 30);
  w.dvs = w.v.dvs;
  if (s.chance(1, 5)) w.ke = ab::ScalarExpression(1.0);
  else { w.k.reset(new ab::Scalar(s.flip() ? 1.0 : s.real(-2, 2))); w.ke = ab::ScalarExpression(w.k.get()); w.dvs.push_back(w.k.get()); }
  w.m = s.any(40); w.Q = et::spd(s, 3); w.front = s.flip();
  const E3 v = w.v.e.toValue();
  // a front wheel has no direction of rolling at a standstill (or sideways)
  if (w.front && std::fabs(v(0)) < 1e-2) throw vpt::Discard();
  s.note([&](std::ostream& o) { o << (w.front ? "front" : "rear") << " wheel, factor " << w.ke.toScalar() << " measured " << w.m << "\nQ\n" << w.Q << "\n"; });
}
static E3 wantWheel(const Wheel& w) {
  const E3 v = w.v.e.toValue(); const double k = w.ke.toScalar();
  if (w.front) return E3(w.m - k * std::copysign(std::hypot(v(0), v(1)), v(0)), 0, -v(2));
  return E3(w.m - k * v(0), -v(1), -v(2));
}

CLAUSE(wheel, 4000, 80000, "the velocity depends on several variables, and the car moves backwards or turns") {
  Wheel w; wheel(s, w);
  ac::ErrorTermWheel e(w.v.e, w.ke, w.m, w.Q, w.front);
  VEQ(e.getFrontEnabled(), w.front, "front wheel");
  VEQ(ac::ErrorTermWheel(w.v.e, w.ke, w.m, w.Q).getFrontEnabled(), false, "a wheel is a rear wheel by default");
  et::weighted(e, w.Q, "wheel");
  const E3 want = wantWheel(w);
  et::close(E3(e.error()), want, 0, 1e-10 * (1 + want.norm() + std::fabs(w.m)), "wheel error");
  et::Opt o; const E3 v = w.v.e.toValue();
  o.h = w.front ? 1e-4 * std::min(1.0, std::fabs(v(0))) : 1e-4;
  o.abs = 1e-6 * (1 + v.norm());
  et::jacobians(s, e, w.dvs, o, "wheel");
  s.label(w.front ? "front" : "rear");
  if (v(0) < 0) s.label("backwards");
  s.nontrivial(w.dvs.size() > 2 && (v(0) < 0 || std::fabs(v(1)) > 0.1));
}
CLAUSE(wheel_accessors, 3000, 40000, "a covariance and the kind of wheel were changed") {
  Wheel a, b; wheel(s, a); wheel(s, b);
  const E3 v = a.v.e.toValue();
  if (std::fabs(v(0)) < 1e-2) throw vpt::Discard();
  ac::ErrorTermWheel e(a.v.e, a.ke, a.m, a.Q, a.front), want(a.v.e, a.ke, b.m, b.Q, b.front), other(b.v.e, b.ke, b.m, b.Q, b.front);
  VEQ(e.getMeasurement(), a.m, "measurement"); VCHECK(e.getCovariance() == a.Q, "covariance");
  ac::ErrorTermWheel c(e);
  et::same(e, c, "copied wheel");
  VEQ(c.getMeasurement(), a.m, "copied measurement"); VCHECK(c.getCovariance() == a.Q, "copied covariance"); VEQ(c.getFrontEnabled(), a.front, "copied kind");
  for (size_t i : s.permutation(3)) { if (i == 0) e.setMeasurement(b.m); if (i == 1) e.setCovariance(b.Q); if (i == 2) { if (b.front && s.flip()) e.setFrontEnabled(); else e.setFrontEnabled(b.front); } }
  VEQ(e.getMeasurement(), b.m, "measurement set"); VCHECK(e.getCovariance() == b.Q, "covariance set"); VEQ(e.getFrontEnabled(), b.front, "kind set");
  for (auto d : a.dvs) d->setActive(true);
  et::same(want, e, "wheel after changing its parameters, and built with them");
  VEQ(c.getMeasurement(), a.m, "the copy is separate");
  other = c;
  et::same(c, other, "assigned wheel");
  VEQ(other.getMeasurement(), a.m, "assigned measurement"); VCHECK(other.getCovariance() == a.Q, "assigned covariance"); VEQ(other.getFrontEnabled(), a.front, "assigned kind");
  s.nontrivial(a.front != b.front);
}

struct Pose { std::unique_ptr<ab::EuclideanPoint> t, t2; std::unique_ptr<ab::RotationQuaternion> R, R2; ab::TransformationExpression T; std::vector<ab::DesignVariable*> dvs; E6 m; M6 Q; };
static void pose(vpt::Src& s, Pose& p) {
  p.t.reset(new ab::EuclideanPoint(vec(s, 30))); p.R.reset(new ab::RotationQuaternion(quat(s)));
  p.T = ab::TransformationExpression(ab::RotationExpression(p.R.get()), ab::EuclideanExpression(p.t.get()));
  p.dvs = {p.t.get(), p.R.get()};
  if (s.flip()) {  // with a mounting
    p.t2.reset(new ab::EuclideanPoint(vec(s, 3))); p.R2.reset(new ab::RotationQuaternion(quat(s)));
    ab::TransformationExpression M(ab::RotationExpression(p.R2.get()), ab::EuclideanExpression(p.t2.get()));
    p.T = p.T * (s.flip() ? M : M.inverse());
    p.dvs.push_back(p.t2.get()); p.dvs.push_back(p.R2.get());
  }
  const Eigen::Matrix4d T = p.T.toTransformationMatrix();
  const E3 a = ypr(T.topLeftCorner<3, 3>());
  if (std::fabs(std::cos(a(1))) < 0.05) throw vpt::Discard();  // yaw and roll are not defined there
  p.m.head<3>() = s.flip() ? E3(T.topRightCorner<3, 1>()) : vec(s, 30);
  for (int i = 0; i < 3; ++i) { p.m(3 + i) = s.flip() ? a(i) + 2 * M_PI * (double)s.range(-1, 1) : s.real(-4, 4); if (M_PI - std::fabs(et::wrap(p.m(3 + i) - a(i))) < 2e-2) throw vpt::Discard(); }
  p.Q = et::spd(s, 6);
  s.note([&](std::ostream& o) { o << "pose\n" << T << "\nmeasured " << p.m.transpose() << "\nQ\n" << p.Q << "\n"; });
}
CLAUSE(pose, 3000, 60000, "the pose is turned about several axes and seen through a mounting") {
  Pose p; pose(s, p);
  ac::ErrorTermPose e(p.T, p.m, p.Q);
  et::weighted(e, p.Q, "pose");
  const Eigen::Matrix4d T = p.T.toTransformationMatrix();
  const E3 a = ypr(T.topLeftCorner<3, 3>());
  E6 err = e.error();
  et::close(E3(err.head<3>()), E3(p.m.head<3>() - T.topRightCorner<3, 1>()), 0, 1e-9 * (1 + p.m.norm()), "position error");
  for (int i = 0; i < 3; ++i) {
    VCHECK(std::fabs(err(3 + i)) <= M_PI + 1e-9, "angle error " << i << " beyond half a turn");
    VCLOSE(et::wrap(err(3 + i) - et::wrap(p.m(3 + i) - a(i))), 0, 0, 1e-8, "angle error " << i);
  }
  et::Opt o; o.angles = {3, 4, 5}; o.h = 1e-3 * std::fabs(std::cos(a(1))); o.abs = 1e-5 / std::pow(std::fabs(std::cos(a(1))), 2) * (1 + T.topRightCorner<3, 1>().norm() + (p.t2 ? p.t2->toEuclidean().norm() : 0));
  et::jacobians(s, e, p.dvs, o, "pose");
  s.nontrivial(p.dvs.size() == 4 && std::fabs(a(0)) > 1e-2 && std::fabs(a(1)) > 1e-2 && std::fabs(a(2)) > 1e-2);
}
template <typename T> static const T& ro(const T& t) { return t; }  // what a user sees who may not change it
CLAUSE(pose_accessors, 3000, 40000, "both input and covariance were changed") {
  Pose a, b; pose(s, a); pose(s, b);
  ac::ErrorTermPose e(a.T, a.m, a.Q), want(a.T, b.m, b.Q), other(b.T, b.m, b.Q);
  VCHECK(e.getInput() == a.m && ro(e).getInput() == a.m, "input"); VCHECK(e.getCovariance() == a.Q && ro(e).getCovariance() == a.Q, "covariance");
  ac::ErrorTermPose c(e);
  for (auto d : a.dvs) d->setActive(true);
  et::same(e, c, "copied pose");
  VCHECK(c.getInput() == a.m && ro(c).getInput() == a.m, "copied input"); VCHECK(c.getCovariance() == a.Q && ro(c).getCovariance() == a.Q, "copied covariance");
  for (size_t i : s.permutation(2)) { if (i == 0) { if (s.flip()) e.setInput(b.m); else e.getInput() = b.m; } else e.setCovariance(b.Q); }
  VCHECK(e.getInput() == b.m && ro(e).getInput() == b.m, "input set"); VCHECK(e.getCovariance() == b.Q && ro(e).getCovariance() == b.Q, "covariance set");
  et::same(want, e, "pose after changing its parameters, and built with them");
  VCHECK(c.getInput() == a.m && ro(c).getInput() == a.m, "the copy is separate");
  other = c;
  et::same(c, other, "assigned pose");
  VCHECK(other.getInput() == a.m && ro(other).getInput() == a.m, "assigned input"); VCHECK(other.getCovariance() == a.Q && ro(other).getCovariance() == a.Q, "assigned covariance");
  s.nontrivial();
}
