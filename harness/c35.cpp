// C35: the egomotion simulation: parameters, motion, measurements, noise
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#include "egoconf.hpp"
#include "simu.hpp"
namespace ac = aslam::calibration;
using cal::V3; using cal::M3; using cal::Ns; using simu::Pose;
typedef Eigen::Matrix<double, 6, 1> V6;
struct Sensor { int idx, t; V3 r, ypr; };
struct Sim { std::string type; double A, f, T, dt, tl, rl; V3 r, ypr; int n, knots, to, ro, ref; bool noOrder; std::vector<Sensor> sensors; std::map<int, V6> var; };
static Sim draw(vpt::Src& s) {
  Sim m; static const char* types[] = {"straight", "sinePlanar", "random", "combined"}; m.type = types[s.index(4)];
  m.n = 3 * (1 + (int)s.index(20)) + (m.type == "combined" ? 3 : 0); m.dt = s.real(0.01, 0.3); m.T = (m.n + 0.5) * m.dt;  // every phase ends between two steps
  m.A = s.chance(1, 5) ? 0 : s.real(-30, 30); m.f = s.chance(1, 8) ? 0 : s.real(0.005, 0.6);
  m.tl = s.flip() ? 0 : s.logReal(1e-6, 1e-2); m.rl = s.flip() ? 0 : s.logReal(1e-6, 1e-2); m.knots = (int)s.range(1, 8); m.to = (int)s.range(3, 6); m.ro = (int)s.range(3, 6); m.noOrder = s.chance(1, 4); if (m.noOrder) m.to = 4;
  m.r = V3(s.any(100), s.any(100), s.any(10)); m.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1.3, 1.3), s.real(-3, 3));
  std::vector<size_t> ids = s.permutation(6); m.ref = (int)ids[0]; const size_t k = s.index(4);
  auto var = [&](int i) { for (int j = 0; j < 6; ++j) m.var[i](j) = s.logReal(1e-8, 1e-1); }; var(m.ref);
  for (size_t i = 0; i < k; ++i) {
    Sensor x; x.idx = (int)ids[i + 1]; x.t = (int)s.range(-300000000, 300000000); x.r = V3(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)); x.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1.3, 1.3), s.real(-3, 3));
    m.sensors.push_back(x); var(x.idx);
  }
  return m;
}
static ac::SimulationParams params(vpt::Src& s, const Sim& m) {
  sm::PropertyTree t, all;
  auto pose = [&](const std::string& a, const std::string& b, const V3& r, const V3& y) { const char* n[] = {"x", "y", "z"}; const char* e[] = {"yaw", "pitch", "roll"}; for (int i = 0; i < 3; ++i) { t.setDouble(a + n[i], r(i)); t.setDouble(b + e[i], y(i)); } };
  t.setString("trajectory/type", m.type); t.setDouble("trajectory/A", m.A); t.setDouble("trajectory/f", m.f); pose("trajectory/w_T_v_0/", "trajectory/w_T_v_0/", m.r, m.ypr);
  const std::string p = "trajectory/splines/"; t.setDouble(p + "transSplineLambda", m.tl); t.setDouble(p + "rotSplineLambda", m.rl); t.setInt(p + "splineKnotsPerSecond", m.knots); if (!m.noOrder) t.setInt(p + "transSplineOrder", m.to); t.setInt(p + "rotSplineOrder", m.ro);
  t.setDouble("T", m.T); t.setDouble("dt", m.dt); t.setInt("calibration/num", (int)m.sensors.size());
  for (size_t i = 0; i < m.sensors.size(); ++i) { const std::string q = "calibration/sensor_" + std::to_string(i) + "/"; const Sensor& x = m.sensors[i]; t.setInt(q + "idx", x.idx); t.setInt(q + "intrinsics/timeDelay", x.t); pose(q + "extrinsics/translation/", q + "extrinsics/rotation/", x.r, x.ypr); }
  std::vector<int> ids; for (auto& v : m.var) ids.push_back(v.first);
  size_t at = 0; for (size_t i : s.permutation(ids.size())) { const std::string q = "noise/sensor_" + std::to_string(at++) + "/"; t.setInt(q + "idx", ids[i]); for (int j = 0; j < 6; ++j) t.setDouble(q + "e" + std::to_string(j + 1), m.var.at(ids[i])(j)); }
  all.setInt("egomotion/calibrator/referenceSensor", m.ref);
  return ac::SimulationParams(t, all);
}
static Pose pose(const V3& r, const V3& y) { Pose p; p.p = r; p.R = cal::fromYpr(y); return p; }

CLAUSE(params, 1500, 20000, "there are sensors") {
  const Sim m = draw(s); const ac::SimulationParams p = params(s, m); const auto& t = p.trajectoryParams;
  VEQ(p.dt, m.dt, "dt"); VEQ(p.T, m.T, "T"); VEQ(p.referenceSensor, (size_t)m.ref, "reference sensor");
  VEQ(t.A, m.A, "A"); VEQ(t.f, m.f, "f"); VEQ(t.type, m.type, "type"); VEQ(t.transSplineLambda, m.tl, "transSplineLambda"); VEQ(t.rotSplineLambda, m.rl, "rotSplineLambda"); VEQ(t.splineKnotsPerSecond, m.knots, "splineKnotsPerSecond");
  VEQ(t.transSplineOrder, m.to, "transSplineOrder" << (m.noOrder ? ", left out" : "")); VEQ(t.rotSplineOrder, m.ro, "rotSplineOrder");
  simu::same(simu::of(t.w_T_v_0), pose(m.r, m.ypr), 1e-9, "start");
  VEQ(p.sensorCalibration.size(), m.sensors.size(), "sensors"); VEQ(p.sigma2.size(), m.var.size(), "covariances");
  for (auto& x : m.sensors) { VCHECK(p.sensorCalibration.count((size_t)x.idx), "sensor " << x.idx); const auto& c = p.sensorCalibration.at((size_t)x.idx); VEQ(c.first, (Ns)x.t, "time delay of sensor " << x.idx); simu::same(simu::of(c.second), pose(x.r, x.ypr), 1e-9, "mounting of sensor " + std::to_string(x.idx)); }
  for (auto& v : m.var) { VCHECK(p.sigma2.count((size_t)v.first), "covariance of sensor " << v.first); Eigen::Matrix<double, 6, 6> w = v.second.asDiagonal(); VCHECK(p.sigma2.at((size_t)v.first) == w, "covariance of sensor " << v.first << "\n" << p.sigma2.at((size_t)v.first)); }
  s.nontrivial(!m.sensors.empty());
}

CLAUSE(motion, 3000, 60000, "the vehicle turns") {
  const double dt = s.real(1e-3, 1);
  const Pose a = pose(V3(s.any(1e3), s.any(1e3), s.any(1e3)), V3(s.real(-3, 3), s.real(-1.5, 1.5), s.real(-3, 3)));
  const V3 v(s.any(30), s.any(5), s.any(5)); const V3 w = s.chance(1, 5) ? V3(0, 0, 0) : V3(s.any(3), s.any(3), s.any(3));
  simu::same(simu::of(ac::integrateMotionModel(simu::Tf(sm::kinematics::r2quat(a.R), a.p), v, w, dt)), simu::step(a, v, w, dt), 1e-9, "moving");
  const simu::Sine p = {s.any(30), s.real(0, 1)}; double t = s.real(0, 100);
  double phi = s.real(-1.5, 1.5); Eigen::Vector2d r(s.any(100), s.any(100));
  for (int i = 0; i < 3; ++i) {
    const Eigen::Vector2d want = simu::between(p, phi, r, t, dt), got = ac::genSineBodyVel2d(phi, r, t, dt, p.A, p.f);
    VCHECK((got - want).norm() <= 1e-8 * (1 + want.norm()), "speed and turn rate " << got.transpose() << ", expected " << want.transpose());
    VCLOSE(phi, p.phi(t), 1e-9, 1e-9, "heading kept"); VCHECK((r - p.r(t)).norm() <= 1e-9 * (1 + r.norm()), "position kept");
    t += dt;
  }
  s.nontrivial(!w.isZero());
}

// the poses of the vehicle as long as it moves without chance
static std::vector<Pose> known(const Sim& m) {
  std::vector<Pose> r = {pose(m.r, m.ypr)}; simu::Sine p = {m.A, m.f}; const bool c = m.type == "combined"; if (m.type == "random") return r;
  if (m.type == "straight" || c) p.A = 0;
  double phi = p.phi(m.dt); Eigen::Vector2d at = p.r(0);
  for (int k = 1; k <= m.n; ++k) {
    if (c && k == m.n / 3 + 1) { p.A = m.A; at = p.r((k - 1) * m.dt); phi = p.phi(k * m.dt); }  // goes on along the sine wave
    if (c && k == 2 * m.n / 3 + 1) break;
    const double t = k * m.dt; const Eigen::Vector2d u = simu::between(p, phi, at, t, m.dt); phi = p.phi(t); at = p.r(t);
    r.push_back(simu::step(r.back(), V3(u(0), 0, 0), V3(0, 0, u(1)), m.dt));
  }
  return r;
}
static Pose at(const ac::Trajectory& t, Ns n) { Pose p; p.p = t.translationSpline->getEvaluatorAt<0>(n).eval(); p.R = sm::kinematics::quat2r(t.rotationSpline->getEvaluatorAt<0>(n).eval()); return p; }
static void measurements(const Sim& m, const ac::SimulationData& d) {
  const auto& T = d.trajectory; const Ns dt = sm::timing::secToNsec(m.dt); const size_t n = (size_t)m.n;
  VEQ(d.motionData.size(), m.var.size(), "sensors"); VEQ(d.motionDataNoisy.size(), m.var.size(), "sensors");
  std::vector<Pose> p; for (size_t k = 0; k <= n; ++k) p.push_back(at(T, (Ns)k * dt));
  for (auto& v : m.var) {
    const size_t id = (size_t)v.first; const std::string w = " of sensor " + std::to_string(id); VCHECK(d.motionData.count(id) && d.motionDataNoisy.count(id), "measurements" << w);
    const auto &a = d.motionData.at(id), &b = d.motionDataNoisy.at(id); VEQ(a.size(), n, "measurements" << w); VEQ(b.size(), n, "noisy measurements" << w);
    Pose mount; Ns delay = 0; for (auto& x : m.sensors) if (x.idx == v.first) { mount = pose(x.r, x.ypr); delay = x.t; }
    simu::Noise nt, nr; const Eigen::Matrix<double, 6, 6> cov = v.second.asDiagonal();
    for (size_t k = 0; k < n; ++k) {
      const Ns t = (Ns)(k + 1) * dt + delay; VEQ(a[k].first, t, "time" << w); VEQ(b[k].first, t, "noisy time" << w);
      VEQ(a[k].second.duration, dt, "duration" << w); VEQ(b[k].second.duration, dt, "noisy duration" << w); VCHECK(a[k].second.sigma2 == cov && b[k].second.sigma2 == cov, "covariance" << w);
      const Pose z = simu::of(a[k].second.motion), zn = simu::of(b[k].second.motion);
      simu::same(z, simu::inv(p[k] * mount) * (p[k + 1] * mount), 1e-7, "motion " + std::to_string(k) + w);
      const Pose e = simu::inv(z) * zn; const V3 r = simu::log(e.R);
      for (int j = 0; j < 3; ++j) { nt.add(e.p(j), v.second(j) + 1e-18, "translation" + w); nr.add(r(j), v.second(3 + j) + 1e-18, "rotation" + w); }
    }
    nt.check("translation" + w); nr.check("rotation" + w);
  }
}
static void path(const Sim& m, const ac::SimulationData& d, vpt::Src& s) {
  const auto& T = *d.trajectory.translationSpline; const Ns dt = sm::timing::secToNsec(m.dt);
  VEQ(T.getMinTime(), (Ns)0, "start"); VEQ(T.getMaxTime(), (Ns)m.n * dt, "end"); VEQ(d.trajectory.rotationSpline->getMinTime(), (Ns)0, "start"); VEQ(d.trajectory.rotationSpline->getMaxTime(), (Ns)m.n * dt, "end");
  if (m.type == "random" || m.type == "combined") return;
  const std::vector<Pose> p = known(m); std::vector<Ns> t; std::vector<V3> r; std::vector<M3> R;
  for (size_t k = 0; k < p.size(); ++k) { t.push_back((Ns)k * dt); r.push_back(p[k].p); R.push_back(p[k].R); }
  cal::sameSplines(T, *d.trajectory.rotationSpline, cal::refit(t, r, R, m.knots, m.to, m.tl, m.ro, m.rl), s);
}
CLAUSE(simulate, 600, 12000, "at least two sensors besides the reference and 10 steps") {
  const Sim m = draw(s); ac::SimulationData d; ac::simulate(params(s, m), d); s.label(m.type);
  path(m, d, s); measurements(m, d);
  s.nontrivial(m.sensors.size() > 1 && m.n >= 10);
}
// with a spline through every pose: where chance has a part, its velocities are within bounds, and the path never jumps
CLAUSE(phases, 400, 8000, "chance has a part in the motion") {
  Sim m = draw(s); if (m.type == "straight" || m.type == "sinePlanar") m.type = "combined";
  m.knots = 1000; m.to = m.ro = 4; m.noOrder = false; m.tl = m.rl = 1e-12;
  ac::SimulationData d; ac::simulate(params(s, m), d); path(m, d, s);
  s.note([&](std::ostream& o) { o << m.type << " n " << m.n << " dt " << m.dt << " A " << m.A << " f " << m.f << "\n"; for (int k = 0; k <= m.n; ++k) o << at(d.trajectory, sm::timing::secToNsec(m.dt) * k).p.transpose() << "\n"; for (auto& q : known(m)) o << "known " << q.p.transpose() << "\n"; });
  const Ns dt = sm::timing::secToNsec(m.dt); std::vector<Pose> p; for (int k = 0; k <= m.n; ++k) p.push_back(at(d.trajectory, (Ns)k * dt));
  const std::vector<Pose> w = known(m);
  for (size_t k = 0; k < w.size(); ++k) simu::same(p[k], w[k], 1e-3, "pose " + std::to_string(k));
  // body velocities of the rest: those of the sine wave in every direction, and noise of variance 2
  simu::Sine c = {m.A, m.f}; simu::Noise nv, nw; const int from = (int)w.size(); double phi = c.phi((from > 1 ? from - 1 : 1) * m.dt); Eigen::Vector2d r = from > 1 ? c.r((from - 1) * m.dt) : Eigen::Vector2d(0, 0);
  for (int k = from; k <= m.n; ++k) {
    const double t = k * m.dt; const Eigen::Vector2d u = simu::between(c, phi, r, t, m.dt); phi = c.phi(t); r = c.r(t);
    const V3 v = p[k - 1].R.transpose() * (p[k].p - p[k - 1].p) / m.dt; V3 o = simu::log(p[k - 1].R.transpose() * p[k].R) / m.dt; const bool wraps = (std::fabs(u(1)) * std::sqrt(3.0) + 9 * std::sqrt(6.0)) * m.dt > 3;
    for (int j = 0; j < 3; ++j) { nv.add(v(j) - u(0), 2.1, "velocity at step " + std::to_string(k)); if (!wraps) nw.add(o(j) - u(1), 2.1, "turn rate at step " + std::to_string(k)); }
  }
  nv.check("velocity"); nw.check("turn rate");
  s.label(m.type);
  s.nontrivial(true);
}
CLAUSE(noise, 16, 300, "always") {
  Sim m = draw(s); m.dt = 0.1; m.type = s.flip() ? "random" : "sinePlanar"; m.n = 120; m.T = (m.n + 0.5) * m.dt; m.knots = 2; ac::SimulationData d; ac::simulate(params(s, m), d); path(m, d, s); measurements(m, d);
  s.nontrivial(true);
}
