// C31: the car calibrator: predictions, batches, windows, estimates
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#include "carconf.hpp"
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::Ns; using cal::V3; using cal::M3; using cal::Item; using cal::State;

struct Data {
  std::vector<cal::Pose> poses; M3 sp, sa;                        // with covariances
  struct Vel { Ns t; V3 v, w; M3 sv, sw; }; std::vector<Vel> vels;
  struct One { Ns t; double v; }; std::vector<One> dmi, steer;
  struct Two { Ns t; double l, r; }; std::vector<Two> front, rear;
};
struct Scene { carconf::Conf c; Data d; };

// when a delayed sensor is used: the delayed time with its bound lies within the splines
static bool usable(Ns t, const carconf::Conf& c, Ns lo, Ns hi) { return t + c.delayBound <= hi && t - c.delayBound >= lo; }
static std::vector<Ns> sensorTimes(vpt::Src& s, Ns lo, Ns hi, Ns delay, Ns bound) {
  std::vector<Ns> t; const size_t n = s.index(8);
  for (size_t i = 0; i < n; ++i) switch (s.index(8)) {
    case 0: t.push_back(lo + bound - delay + s.range(-1, 1)); break;  // about the first and last usable times
    case 1: t.push_back(hi - bound - delay + s.range(-1, 1)); break;
    case 2: t.push_back(s.flip() ? lo : hi); break;
    default: t.push_back(lo + (Ns)(s.unit() * (double)(hi - lo)));
  }
  for (Ns& x : t) x = std::max<Ns>(x, 0);
  if (s.flip()) std::sort(t.begin(), t.end());
  return t;
}
static Scene scene(vpt::Src& s, bool regular = false) {
  Scene q; q.c = carconf::draw(s); Data& d = q.d; carconf::Conf& c = q.c;
  c.window = 1e9; c.delta = -1e18;
  const double len = s.real(0.5, 3); const Ns t0 = s.flip() ? 1000000000 : 1363945215000000000ll;
  const size_t n = (size_t)s.range(2, 25);
  d.poses = cal::poses(s, cal::motion(s), cal::times(s, t0, len, n), c.r, cal::fromYpr(c.ypr), s.chance(1, 3) ? s.logReal(1e-3, 0.1) : 0);
  d.sp = et::spd(s, 3); d.sa = et::spd(s, 3);
  const Ns lo = d.poses.front().t, hi = d.poses.back().t;
  for (Ns t : sensorTimes(s, lo, hi, 0, 0)) d.vels.push_back({t, V3(s.any(10), s.any(10), s.any(10)), V3(s.any(2), s.any(2), s.any(2)), et::spd(s, 3), et::spd(s, 3)});
  for (Ns t : sensorTimes(s, lo, hi, c.td, c.delayBound)) d.dmi.push_back({t, s.any(20)});
  for (Ns t : sensorTimes(s, lo, hi, c.tf, c.delayBound)) d.front.push_back({t, s.any(12) + (s.flip() ? 4 : 0), s.any(12) + (s.flip() ? 4 : 0)});
  for (Ns t : sensorTimes(s, lo, hi, c.tr, c.delayBound)) d.rear.push_back({t, s.any(12) + (s.flip() ? 4 : 0), s.any(12) + (s.flip() ? 4 : 0)});
  for (Ns t : sensorTimes(s, lo, hi, c.ts, c.delayBound)) d.steer.push_back({t, s.any(2)});
  s.note([&](std::ostream& o) {
    o << n << " poses over " << len << " s, " << d.vels.size() << " velocities, " << d.dmi.size() << " dmi, " << d.front.size() << " front, " << d.rear.size() << " rear, " << d.steer.size() << " steering; parameters "
      << carconf::parameters(c).transpose() << " bound " << c.delayBound << " knots " << c.knots << "\n";
    for (auto& p : d.poses) o << "  pose " << p.t << " " << p.p.transpose() << " " << p.a.transpose() << "\n";
  });
  return q;
}
static ac::PoseMeasurement poseOf(const Data& d, const cal::Pose& p) { ac::PoseMeasurement m; m.m_r_mr = p.p; m.m_R_r = p.a; m.sigma2_m_r_mr = d.sp; m.sigma2_m_R_r = d.sa; return m; }
static ac::WheelSpeedsMeasurement two(const Data::Two& x) { ac::WheelSpeedsMeasurement m; m.left = x.l; m.right = x.r; return m; }
static ac::DMIMeasurement dmiOf(double v) { ac::DMIMeasurement m; m.wheelSpeed = v; return m; }
static ac::SteeringMeasurement steerOf(double v) { ac::SteeringMeasurement m; m.value = v; return m; }
static ac::VelocitiesMeasurement velOf(const Data::Vel& v) { ac::VelocitiesMeasurement m; m.r_v_mr = v.v; m.r_om_mr = v.w; m.sigma2_r_v_mr = v.sv; m.sigma2_r_om_mr = v.sw; return m; }
// hands the measurements over, the sensors interleaved in any order, each sensor's own in order
static void feed(vpt::Src& s, ac::CarCalibrator& k, const Data& d) {
  std::vector<int> order;
  for (size_t i = 0; i < d.poses.size(); ++i) order.push_back(0);
  for (size_t i = 0; i < d.vels.size(); ++i) order.push_back(1);
  for (size_t i = 0; i < d.dmi.size(); ++i) order.push_back(2);
  for (size_t i = 0; i < d.front.size(); ++i) order.push_back(3);
  for (size_t i = 0; i < d.rear.size(); ++i) order.push_back(4);
  for (size_t i = 0; i < d.steer.size(); ++i) order.push_back(5);
  size_t at[6] = {0, 0, 0, 0, 0, 0};
  if (s.flip()) { std::vector<int> o; for (size_t i : s.permutation(order.size())) o.push_back(order[i]); order = o; }
  for (int x : order) { const size_t i = at[x]++; switch (x) {
    case 0: k.addPoseMeasurement(poseOf(d, d.poses[i]), d.poses[i].t); break;
    case 1: k.addVelocitiesMeasurement(velOf(d.vels[i]), d.vels[i].t); break;
    case 2: k.addDMIMeasurement(dmiOf(d.dmi[i].v), d.dmi[i].t); break;
    case 3: k.addFrontWheelsMeasurement(two(d.front[i]), d.front[i].t); break;
    case 4: k.addRearWheelsMeasurement(two(d.rear[i]), d.rear[i].t); break;
    default: k.addSteeringMeasurement(steerOf(d.steer[i].v), d.steer[i].t);
  } }
}
static void stored(const ac::CarCalibrator& k, const Data& d) {
  VEQ(k.getPoseMeasurements().size(), d.poses.size(), "stored poses"); VEQ(k.getVelocitiesMeasurements().size(), d.vels.size(), "stored velocities"); VEQ(k.getDMIMeasurements().size(), d.dmi.size(), "stored dmi");
  VEQ(k.getFrontWheelsMeasurements().size(), d.front.size(), "stored front wheels"); VEQ(k.getRearWheelsMeasurements().size(), d.rear.size(), "stored rear wheels"); VEQ(k.getSteeringMeasurements().size(), d.steer.size(), "stored steering");
  for (size_t i = 0; i < d.poses.size(); ++i) VCHECK(k.getPoseMeasurements()[i].first == d.poses[i].t && k.getPoseMeasurements()[i].second.m_r_mr == d.poses[i].p && k.getPoseMeasurements()[i].second.m_R_r == d.poses[i].a, "stored pose " << i);
  for (size_t i = 0; i < d.vels.size(); ++i) VCHECK(k.getVelocitiesMeasurements()[i].first == d.vels[i].t && k.getVelocitiesMeasurements()[i].second.r_v_mr == d.vels[i].v && k.getVelocitiesMeasurements()[i].second.r_om_mr == d.vels[i].w, "stored velocities " << i);
  for (size_t i = 0; i < d.dmi.size(); ++i) VCHECK(k.getDMIMeasurements()[i].first == d.dmi[i].t && k.getDMIMeasurements()[i].second.wheelSpeed == d.dmi[i].v, "stored dmi " << i);
  for (size_t i = 0; i < d.front.size(); ++i) VCHECK(k.getFrontWheelsMeasurements()[i].first == d.front[i].t && k.getFrontWheelsMeasurements()[i].second.left == d.front[i].l && k.getFrontWheelsMeasurements()[i].second.right == d.front[i].r, "stored front wheels " << i);
  for (size_t i = 0; i < d.rear.size(); ++i) VCHECK(k.getRearWheelsMeasurements()[i].first == d.rear[i].t && k.getRearWheelsMeasurements()[i].second.left == d.rear[i].l && k.getRearWheelsMeasurements()[i].second.right == d.rear[i].r, "stored rear wheels " << i);
  for (size_t i = 0; i < d.steer.size(); ++i) VCHECK(k.getSteeringMeasurements()[i].first == d.steer[i].t && k.getSteeringMeasurements()[i].second.value == d.steer[i].v, "stored steering " << i);
  VEQ(k.unprocessedMeasurements(), d.poses.size() + d.vels.size() + d.dmi.size() + d.front.size() + d.rear.size() + d.steer.size() > 0, "unprocessed measurements");
}
static cal::Splines expectedSplines(const Scene& q) {
  std::vector<Ns> t; std::vector<V3> p; std::vector<M3> R;
  const M3 M = cal::fromYpr(q.c.ypr);
  for (auto& x : q.d.poses) { const M3 C = cal::fromYpr(x.a) * M.transpose(); t.push_back(x.t); R.push_back(C); p.push_back(x.p - C * q.c.r); }
  return cal::refit(t, p, R, q.c.knots, q.c.tOrder, q.c.tLambda, q.c.rOrder, q.c.rLambda);
}
struct Want { std::vector<Item> pose, vel, dmi, fl, fr, front, rl, rr, rear, steer; size_t skipped = 0;
  size_t terms(bool p, bool v) const { return (p ? pose.size() : 0) + (v ? vel.size() : 0) + dmi.size() + fl.size() + fr.size() + rl.size() + rr.size() + steer.size(); }
};
static Item wheel(Ns t, double m, double k, const V3& v, bool front, double q, const carconf::Conf& c) {
  Item i; i.t = t;
  const double f = front ? std::copysign(std::hypot(v(0), v(1)), v(0)) : v(0);
  i.value = cal::vec({k * f}); i.error = V3(m - k * f, front ? 0 : -v(1), -v(2)); i.cov = V3(q, c.qVy, c.qVz).asDiagonal(); i.meas = cal::vec({m, v.norm()});
  return i;
}
static Item both(const Item& l, const Item& r) {
  Item b; b.t = l.t; b.value = cal::vec({l.value(0), r.value(0)}); b.error.resize(6); b.error << l.error, r.error; b.meas.resize(4); b.meas << l.meas, r.meas;
  b.cov = Eigen::MatrixXd::Zero(6, 6); b.cov.topLeftCorner(3, 3) = l.cov; b.cov.bottomRightCorner(3, 3) = r.cov; return b;
}
static Want expected(const Scene& q, const cal::TSpline& T, const cal::RSpline& Q) {
  Want w; const carconf::Conf& c = q.c; const Data& d = q.d; const Ns lo = T.getMinTime(), hi = T.getMaxTime(); const M3 M = cal::fromYpr(c.ypr);
  auto near = [](double x, double y) { if (std::fabs(x - y) < 1e-9) throw vpt::Discard(); return x < y; };  // too close to a threshold to tell
  for (auto& x : d.poses) {
    const State s = cal::state(T, Q, x.t); Item i; i.t = x.t; i.angles = {3, 4, 5};
    const M3 C = s.R * M; const V3 a = cal::toYpr(C), p = s.p + s.R * c.r;
    if (std::fabs(std::cos(a(1))) < 0.05) throw vpt::Discard();
    i.value.resize(6); i.value << p, a; i.error.resize(6); i.error << x.p - p, et::wrap(x.a(0) - a(0)), et::wrap(x.a(1) - a(1)), et::wrap(x.a(2) - a(2));
    for (int k = 3; k < 6; ++k) if (M_PI - std::fabs(i.error(k)) < 1e-3) throw vpt::Discard();
    i.cov = Eigen::MatrixXd::Zero(6, 6); i.cov.topLeftCorner(3, 3) = d.sp; i.cov.bottomRightCorner(3, 3) = d.sa; i.meas = x.p;
    w.pose.push_back(i);
  }
  for (auto& x : d.vels) {
    if (x.t < lo || x.t > hi) { w.skipped++; continue; }
    const State s = cal::state(T, Q, x.t); Item i; i.t = x.t; i.value.resize(6); i.value << M.transpose() * (s.v + s.w.cross(c.r)), M.transpose() * s.w;
    Eigen::VectorXd m(6); m << x.v, x.w; i.error = m - i.value; i.meas = m; i.cov = Eigen::MatrixXd::Zero(6, 6); i.cov.topLeftCorner(3, 3) = x.sv; i.cov.bottomRightCorner(3, 3) = x.sw;
    w.vel.push_back(i);
  }
  for (auto& x : d.dmi) {
    const Ns t = x.t + c.td; if (!usable(t, c, lo, hi)) { w.skipped++; continue; }
    const State s = cal::state(T, Q, t); w.dmi.push_back(wheel(t, x.v, c.kdmi, s.v + s.w.cross(V3(0, c.er, 0)), false, c.qDmi, c));
  }
  for (auto& x : d.front) {
    const Ns t = x.t + c.tf; if (x.l < c.cutoff || x.r < c.cutoff || !usable(t, c, lo, hi)) { w.skipped++; continue; }
    const State s = cal::state(T, Q, t); if (near(s.v(0), 0)) { w.skipped++; continue; }
    const V3 l = s.v + s.w.cross(V3(c.L, c.ef, 0)), r = s.v + s.w.cross(V3(c.L, -c.ef, 0));
    if (std::fabs(l(0)) < 1e-2 || std::fabs(r(0)) < 1e-2) throw vpt::Discard();
    w.fl.push_back(wheel(t, x.l, c.kfl, l, true, c.qFl, c)); w.fr.push_back(wheel(t, x.r, c.kfr, r, true, c.qFr, c)); w.front.push_back(both(w.fl.back(), w.fr.back()));
  }
  for (auto& x : d.rear) {
    const Ns t = x.t + c.tr; if (x.l < c.cutoff || x.r < c.cutoff || !usable(t, c, lo, hi)) { w.skipped++; continue; }
    const State s = cal::state(T, Q, t); if (near(s.v(0), 0)) { w.skipped++; continue; }
    w.rl.push_back(wheel(t, x.l, c.krl, s.v + s.w.cross(V3(0, c.er, 0)), false, c.qRl, c)); w.rr.push_back(wheel(t, x.r, c.krr, s.v + s.w.cross(V3(0, -c.er, 0)), false, c.qRr, c)); w.rear.push_back(both(w.rl.back(), w.rr.back()));
  }
  for (auto& x : d.steer) {
    const Ns t = x.t + c.ts; if (!usable(t, c, lo, hi)) { w.skipped++; continue; }
    const State s = cal::state(T, Q, t); const V3 v = s.v + s.w.cross(V3(c.L, 0, 0)); if (near(std::fabs(v(0)), c.vTol)) { w.skipped++; continue; }
    const double phi = std::atan2(v(1), v(0)), m = x.v, f = c.a[0] + m * (c.a[1] + m * (c.a[2] + m * c.a[3]));
    Item i; i.t = t; i.value = cal::vec({phi}); i.error = cal::vec({et::wrap(f - phi)}); i.angles = {0}; i.meas = i.value; i.cov = Eigen::MatrixXd::Constant(1, 1, c.qSt);
    if (M_PI - std::fabs(i.error(0)) < 1e-3) throw vpt::Discard();
    w.steer.push_back(i);
  }
  return w;
}
static Eigen::VectorXd six(const V3& a, const V3& b) { Eigen::VectorXd v(6); v << a, b; return v; }
static void predicted(const ac::CarCalibrator& k, const Want& w) {
  cal::predictions(k.getPosePredictions(), k.getPosePredictionErrors(), k.getPosePredictionErrors2(), w.pose, [](const ac::PoseMeasurement& p) { return six(p.m_r_mr, p.m_R_r); }, "pose");
  cal::predictions(k.getVelocitiesPredictions(), k.getVelocitiesPredictionErrors(), k.getVelocitiesPredictionErrors2(), w.vel, [](const ac::VelocitiesMeasurement& p) { return six(p.r_v_mr, p.r_om_mr); }, "velocities");
  cal::predictions(k.getDMIPredictions(), k.getDMIPredictionErrors(), k.getDMIPredictionErrors2(), w.dmi, [](const ac::DMIMeasurement& p) { return cal::vec({p.wheelSpeed}); }, "dmi");
  auto ws = [](const ac::WheelSpeedsMeasurement& p) { return cal::vec({p.left, p.right}); };
  cal::predictions(k.getFrontWheelsPredictions(), k.getFrontWheelsPredictionErrors(), k.getFrontWheelsPredictionErrors2(), w.front, ws, "front wheels");
  cal::predictions(k.getRearWheelsPredictions(), k.getRearWheelsPredictionErrors(), k.getRearWheelsPredictionErrors2(), w.rear, ws, "rear wheels");
  cal::predictions(k.getSteeringPredictions(), k.getSteeringPredictionErrors(), k.getSteeringPredictionErrors2(), w.steer, [](const ac::SteeringMeasurement& p) { return cal::vec({p.value}); }, "steering");
}
static void inBatch(const ac::OptimizationProblemSpline& cb, const ac::CarCalibrator& k, const Want& w, bool usePose, bool useVel) {
  auto& b = const_cast<ac::OptimizationProblemSpline&>(cb);
  auto& v = *const_cast<ac::CarCalibrator&>(k).getOdometryDesignVariables();
  const auto dvs = carconf::variables(v);
  const std::vector<const ab::DesignVariable*> calib(dvs.begin(), dvs.end());
  const cal::Terms t = cal::terms(b);
  const auto P = cal::of<ac::ErrorTermPose>(t); const auto V = cal::of<ac::ErrorTermVelocities>(t); const auto W = cal::of<ac::ErrorTermWheel>(t); const auto S = cal::of<ac::ErrorTermSteering>(t);
  VEQ(P.size() + V.size() + W.size() + S.size(), t.size(), "error terms of known kinds in the batch");
  VEQ(W.size(), w.dmi.size() + w.fl.size() + w.fr.size() + w.rl.size() + w.rr.size(), "wheel error terms in the batch");
  typedef std::set<const ab::DesignVariable*> On;
  const On mount = {v.v_r_vr.get(), v.v_R_r.get()};
  cal::same(P, usePose ? w.pose : std::vector<Item>(), calib, mount, "pose");
  cal::same(V, useVel ? w.vel : std::vector<Item>(), calib, mount, "velocities");
  cal::same(cal::with(W, v.k_dmi.get()), w.dmi, calib, On{v.k_dmi.get(), v.e_r.get(), v.t_dmi.get()}, "dmi");
  cal::same(cal::with(W, v.k_fl.get()), w.fl, calib, On{v.k_fl.get(), v.e_f.get(), v.L.get(), v.t_f.get()}, "front left wheel");
  cal::same(cal::with(W, v.k_fr.get()), w.fr, calib, On{v.k_fr.get(), v.e_f.get(), v.L.get(), v.t_f.get()}, "front right wheel");
  cal::same(cal::with(W, v.k_rl.get()), w.rl, calib, On{v.k_rl.get(), v.e_r.get(), v.t_r.get()}, "rear left wheel");
  cal::same(cal::with(W, v.k_rr.get()), w.rr, calib, On{v.k_rr.get(), v.e_r.get(), v.t_r.get()}, "rear right wheel");
  cal::same(S, w.steer, calib, On{v.a.get(), v.L.get(), v.t_s.get()}, "steering");
  cal::groups(b, dvs);
}
static void none(const ac::CarCalibrator& k) {
  VCHECK(k.getPosePredictions().empty() && k.getPosePredictionErrors().empty() && k.getPosePredictionErrors2().empty() && k.getVelocitiesPredictions().empty() && k.getVelocitiesPredictionErrors().empty() && k.getVelocitiesPredictionErrors2().empty() &&
         k.getDMIPredictions().empty() && k.getDMIPredictionErrors().empty() && k.getDMIPredictionErrors2().empty() && k.getFrontWheelsPredictions().empty() && k.getFrontWheelsPredictionErrors().empty() && k.getFrontWheelsPredictionErrors2().empty() &&
         k.getRearWheelsPredictions().empty() && k.getRearWheelsPredictionErrors().empty() && k.getRearWheelsPredictionErrors2().empty() && k.getSteeringPredictions().empty() && k.getSteeringPredictionErrors().empty() && k.getSteeringPredictionErrors2().empty(), "predictions left");
}

CLAUSE(predictions, 800, 20000, "every sensor has predictions and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; carconf::write(q.c, t);
  ac::CarCalibrator k(t);
  feed(s, k, q.d);
  stored(k, q.d);
  k.predict();
  VCHECK(k.getTranslationSpline() && k.getRotationSpline(), "no splines");
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), expectedSplines(q), s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  predicted(k, w);
  stored(k, q.d);
  const Eigen::VectorXd p = k.getOdometryDesignVariables()->getParameters(), h = carconf::parameters(q.c);
  VCHECK((p - h).cwiseAbs().maxCoeff() < 1e-9 * (1 + h.cwiseAbs().maxCoeff()), "predicting moved the calibration");
  k.clearPredictions(); none(k); stored(k, q.d);
  if (s.flip()) { k.predict(); predicted(k, w); }
  k.clearMeasurements(); stored(k, Data());
  s.label(w.skipped ? "skipped" : "none skipped");
  s.nontrivial(w.skipped && w.vel.size() && w.dmi.size() && w.front.size() && w.rear.size() && w.steer.size());
}

CLAUSE(batch, 400, 10000, "every sensor has error terms and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; carconf::write(q.c, t);
  ac::CarCalibrator k(t);
  feed(s, k, q.d);
  if (s.flip()) { k.predict(); k.clearPredictions(); }
  const cal::Splines sp = expectedSplines(q);
  if (!expected(q, *sp.T, *sp.Q).terms(q.c.usePose, q.c.useVelocities)) throw vpt::Discard();
  k.addMeasurements();
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), sp, s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), (size_t)1, "batches in the estimator");
  auto* b = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(0));
  VCHECK(b, "the batch is not a spline batch");
  VCHECK(b->getTranslationSpline(0) == k.getTranslationSpline().get() && b->getRotationSpline(0) == k.getRotationSpline().get(), "the splines of the batch are not the current ones");
  inBatch(*b, k, w, q.c.usePose, q.c.useVelocities);
  stored(k, Data());
  VEQ(k.getInformationGainHistory().size(), (size_t)1, "information gain history"); VEQ(k.getOdometryVariablesHistory().size(), (size_t)2, "history of the calibration");
  VCHECK(k.getOdometryVariablesHistory()[1] == k.getOdometryDesignVariables()->getParameters(), "the history does not end with the current calibration");
  VCHECK(k.getOdometryVariablesVariance() == Eigen::VectorXd(k.getEstimator()->getSigma2Theta().diagonal()), "variance of the estimates");
  s.nontrivial(w.skipped && w.vel.size() && w.dmi.size() && w.front.size() && w.rear.size() && w.steer.size());
}

// a history of additions against a model of the windows
CLAUSE(windows, 250, 6000, "at least two windows were processed and one was too short of poses") {
  carconf::Conf c = carconf::draw(s);
  c.knots = (int)s.range(1, 3); c.tOrder = c.rOrder = 4; const bool picky = s.chance(1, 3); c.delta = picky ? 1e18 : -1e18; c.iterations = picky ? (int)s.range(0, 2) : 0; c.usePose = true; c.delayBound = 0; c.cutoff = 0; c.delaysActive = false; c.tr = c.tf = c.ts = c.td = 0; c.vTol = 1e-3;
  const Ns step = 50000000; const Ns win = step * s.range(1, 12);
  c.window = (double)win / 1e9;
  sm::PropertyTree t; carconf::write(c, t);
  ac::CarCalibrator k(t);
  const cal::Motion m = cal::motion(s);
  Ns now = s.flip() ? 0 : 1363945215000000000ll; Ns start = -1, last = -1; const Ns t0 = now;
  Data d; d.sp = d.sa = M3::Identity(); std::vector<size_t> posesOf; bool starved = false;
  std::vector<size_t> kept; size_t turned = 0, seen = 0; std::ptrdiff_t rank = -1;
  const size_t ops = 5 + s.index(40);
  auto process = [&] {  // false: not enough poses
    if (d.poses.size() < 2) { if (d.poses.size() + d.vels.size() + d.dmi.size() + d.front.size() + d.rear.size() + d.steer.size()) starved = true; return; }
    posesOf.push_back(d.poses.size());
    const M3 sp = d.sp; d = Data(); d.sp = d.sa = sp; start = last;
  };
  for (size_t i = 0; i < ops; ++i) {
    now += step * s.range(1, 3);
    const int what = s.chance(2, 3) ? 0 : (int)s.range(0, 7);
    if (what <= 5) { last = now; if (start == -1) start = now; if ((double)(now - start) / 1e9 >= c.window) process(); }
    const double e = (double)(now - t0) * 1e-9;
    switch (what) {
      case 0: { cal::Pose p; p.t = now; const M3 C = cal::fromYpr(m.angles(e)); p.p = m.positions({e})[0] + C * c.r; p.a = cal::toYpr(C * cal::fromYpr(c.ypr)); if (std::fabs(std::cos(p.a(1))) < 0.05) throw vpt::Discard(); d.poses.push_back(p); k.addPoseMeasurement(poseOf(d, p), now); break; }
      case 1: d.vels.push_back({now, V3(1, 2, 3), V3(0, 0, 1), M3::Identity(), M3::Identity()}); k.addVelocitiesMeasurement(velOf(d.vels.back()), now); break;
      case 2: d.dmi.push_back({now, 2}); k.addDMIMeasurement(dmiOf(2), now); break;
      case 3: d.front.push_back({now, 5, 6}); k.addFrontWheelsMeasurement(two(d.front.back()), now); break;
      case 4: d.rear.push_back({now, 5, 6}); k.addRearWheelsMeasurement(two(d.rear.back()), now); break;
      case 5: d.steer.push_back({now, 0.1}); k.addSteeringMeasurement(steerOf(0.1), now); break;
      case 6: if (s.flip()) { const size_t n = d.poses.size(); if (n >= 2) { k.predict(); VEQ(k.getPosePredictions().size(), n, "pose predictions"); k.clearPredictions(); } } else { k.clearMeasurements(); const M3 sp = d.sp; d = Data(); d.sp = d.sa = sp; } break;
      default: process(); k.addMeasurements();
    }
    stored(k, d);
    VEQ(k.getInformationGainHistory().size(), posesOf.size(), "windows processed (information gains)"); VEQ(k.getOdometryVariablesHistory().size(), posesOf.size() + 1, "windows processed (calibration history)");
    VCHECK(k.getOdometryVariablesHistory().back() == k.getOdometryDesignVariables()->getParameters(), "the history does not end with the current calibration");
    if (posesOf.size() > seen) {  // whether the batch was kept or not, its window is over
      seen = posesOf.size();
      const size_t nb = k.getEstimator()->getProblem()->getNumOptimizationProblems();
      const bool keep = !picky || k.getEstimator()->getRankTheta() > rank;
      VEQ(nb, kept.size() + keep, "batches kept after window " << seen << ", rank " << rank << " then " << k.getEstimator()->getRankTheta());
      if (keep) { kept.push_back(seen - 1); rank = k.getEstimator()->getRankTheta(); { const double g = k.getInformationGainHistory().back(), e = k.getEstimator()->getInformationGain(); VCHECK(g == e || (std::isnan(g) && std::isnan(e)), "information gain of window " << seen << " is " << e << ", recorded " << g); } }
      else { turned++; const auto& h = k.getOdometryVariablesHistory(); VCHECK(h[h.size() - 1] == h[h.size() - 2], "a batch turned down changed the calibration from " << h[h.size() - 2].transpose() << " to " << h[h.size() - 1].transpose()); }
    }
    VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), kept.size(), "batches kept");
    for (size_t b = 0; b < kept.size(); ++b) {
      auto* p = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(b));
      VEQ(cal::of<ac::ErrorTermPose>(cal::terms(const_cast<ac::OptimizationProblemSpline&>(*p))).size(), posesOf[kept[b]], "poses in window " << kept[b]);
    }
  }
  if (turned) s.label("batches turned down");
  s.label("windows " + std::to_string(std::min<size_t>(posesOf.size(), 3)));
  s.nontrivial(posesOf.size() > 1 && starved);
}

CLAUSE(few_poses, 200, 4000, "other measurements are there") {
  Scene q = scene(s); q.d.poses.resize(s.index(2)); sm::PropertyTree t; carconf::write(q.c, t);
  ac::CarCalibrator k(t); feed(s, k, q.d);
  k.addMeasurements(); stored(k, q.d);
  VCHECK(k.getInformationGainHistory().empty(), "a batch from less than two poses");
  VNOTHROW(k.predict(), "predicting from less than two poses"); none(k); stored(k, q.d);
  s.nontrivial(q.d.dmi.size() && q.d.front.size());
}

// talking about it changes nothing, and tells the observability of what is estimated
CLAUSE(verbose, 150, 3000, "columns are scaled, and delays are active or the optimizer ran") {
  Scene q = scene(s); q.c.iterations = q.c.delaysActive ? 0 : (int)s.range(0, 3); q.c.validity = false; q.c.usePose = true;  // delays estimated from noise run off
  const uint64_t seed = s.choice(0); std::vector<uint64_t> ch; for (int i = 0; i < 200; ++i) ch.push_back(seed >> (i % 60));
  Eigen::VectorXd h[2]; double ig[2]; std::string text; Eigen::MatrixXd basis;
  for (int v = 0; v < 2; ++v) {
    sm::PropertyTree t; q.c.verbose = v == 1; carconf::write(q.c, t); t.setBool("estimator/verbose", false); t.setBool("estimator/optimizer/verbose", false);
    cal::Quiet quiet;
    ac::CarCalibrator k(t);
    vpt::Src f(ch, nullptr); feed(f, k, q.d);
    k.addMeasurements();
    h[v] = k.getOdometryVariablesHistory().back(); ig[v] = k.getInformationGainHistory().back();
    if (v) { text = quiet.o.str(); basis = k.getEstimator()->getObsBasis(true); } else VCHECK(quiet.o.str().empty(), "output without verbose: " << quiet.o.str());
  }
  VCHECK(h[0] == h[1], "verbose changes the calibration from " << h[0].transpose() << " to " << h[1].transpose());
  VCHECK(ig[0] == ig[1] || (std::isnan(ig[0]) && std::isnan(ig[1])), "verbose changes the information gain from " << ig[0] << " to " << ig[1]);
  VCHECK(text.find("IG: ") != std::string::npos && (text.find("ACCEPTED") != std::string::npos) != (text.find("REJECTED") != std::string::npos), "verbose output without information gain or decision:\n" << text);
  if (q.c.columnScaling && q.c.iterations > 0 && text.find("ACCEPTED") != std::string::npos) cal::observability(text, basis, carconf::observed(q.c.delaysActive));
  s.nontrivial(q.c.columnScaling && (q.c.delaysActive || q.c.iterations > 0));
}

// from measurements of a known car without noise, the calibration is found
CLAUSE(recovery, 60, 600, "the calibration was observable and more than a little off") {
  carconf::Conf c = carconf::draw(s); c.window = 1e9; c.delta = -1e18; c.knots = 3; c.tOrder = c.rOrder = 4; c.tLambda = c.rLambda = 0; c.delayBound = 100000000; c.cutoff = 0; c.vTol = 0.05; c.qVy = c.qVz = 1e8;
  c.usePose = true; c.useVelocities = s.flip(); c.columnScaling = true; c.iterations = 30; c.a[2] = c.a[3] = 0; c.delaysActive = s.flip();
  for (double* q : {&c.qDmi, &c.qFl, &c.qFr, &c.qRl, &c.qRr, &c.qSt}) *q = 1;
  cal::Motion m; m.y0 = s.real(-2, 2); m.yr = s.real(0.3, 0.6); m.ya = s.real(0.4, 0.8); m.yf = s.real(1.5, 2.5); m.s0 = s.real(4, 6); m.sa = s.real(1, 2); m.sf = s.real(1, 2); m.pa = m.ra = 0.05; m.pf = m.rf = 1; m.za = 0; m.zf = 1; m.o = V3(3, 2, 1);
  Scene q; q.c = c; q.d.sp = q.d.sa = 1e-4 * M3::Identity();
  q.d.poses = cal::poses(s, m, cal::times(s, 1000000000, 4, 60), c.r, cal::fromYpr(c.ypr), 0);
  sm::PropertyTree t; carconf::write(c, t);
  ac::CarCalibrator truth(t);
  for (int i = 2; i < 58; ++i) { const Ns x = q.d.poses[i].t; q.d.dmi.push_back({x, 0}); q.d.front.push_back({x, 0, 0}); q.d.rear.push_back({x, 0, 0}); q.d.steer.push_back({x, 0}); q.d.vels.push_back({x, V3::Zero(), V3::Zero(), 1e-2 * M3::Identity(), 1e-2 * M3::Identity()}); }
  feed(s, truth, q.d); truth.predict();
  const Want w = expected(q, *truth.getTranslationSpline(), *truth.getRotationSpline());
  if (w.dmi.size() < 40 || w.front.size() < 40 || w.rear.size() < 40 || w.steer.size() < 40) throw vpt::Discard();
  // what the sensors of this car say on this path, stamped as they arrive
  Data d; d.sp = q.d.sp; d.sa = q.d.sa;
  for (auto& i : w.pose) d.poses.push_back({i.t, i.value.head<3>(), i.value.tail<3>()});
  for (auto& i : w.vel) d.vels.push_back({i.t, i.value.head<3>(), i.value.tail<3>(), 1e-2 * M3::Identity(), 1e-2 * M3::Identity()});
  for (auto& i : w.dmi) d.dmi.push_back({i.t - c.td, i.value(0)});
  for (auto& i : w.front) d.front.push_back({i.t - c.tf, i.value(0), i.value(1)});
  for (auto& i : w.rear) d.rear.push_back({i.t - c.tr, i.value(0), i.value(1)});
  for (auto& i : w.steer) d.steer.push_back({i.t - c.ts, (i.value(0) - c.a[0]) / c.a[1]});
  carconf::Conf g = c; const double u = 0.1;
  for (double* x : {&g.er, &g.ef, &g.L, &g.krl, &g.krr, &g.kfl, &g.kfr, &g.kdmi, &g.a[1]}) *x *= 1 + s.real(-u, u);
  g.a[0] += s.real(-0.05, 0.05);
  if (c.delaysActive) for (int* x : {&g.tr, &g.tf, &g.ts, &g.td}) *x += (int)s.range(-20000000, 20000000);
  sm::PropertyTree tg; carconf::write(g, tg);
  g.verbose = s.flip(); tg.setBool("verbose", g.verbose);
  ac::CarCalibrator k(tg); feed(s, k, d);
  { cal::Quiet quiet; k.addMeasurements(); if (g.verbose && quiet.o.str().find("ACCEPTED") != std::string::npos) cal::observability(quiet.o.str(), k.getEstimator()->getObsBasis(true), carconf::observed(c.delaysActive)); }
  const Eigen::VectorXd got = k.getOdometryDesignVariables()->getParameters(), want = carconf::parameters(c), from = carconf::parameters(g), sd = k.getOdometryVariablesVariance().cwiseSqrt();
  VEQ(sd.size(), c.delaysActive ? 16 : 12, "size of the variance");
  s.note([&](std::ostream& o) { o << "from " << from.transpose() << "\nto   " << got.transpose() << "\ntrue " << want.transpose() << "\nsd   " << sd.transpose() << "\n"; });
  if (sd.maxCoeff() > 3) throw vpt::Discard();
  for (int i = 0; i < 22; ++i) { if (i == 10 || i == 11) continue; VCHECK(std::fabs(got(i) - want(i)) < 2e-3 * (1 + std::fabs(want(i))), "parameter " << i << " is estimated as " << got(i) << ", true " << want(i) << " (started from " << from(i) << ")"); }
  s.nontrivial((from - want).cwiseAbs().maxCoeff() > 0.02);
}
