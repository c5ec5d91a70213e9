// C34: the time-delay simulation: parameters, motion, measurements, noise, files; and calibrating from them
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#include "tdconf.hpp"
#include "simu.hpp"
namespace ac = aslam::calibration;
using cal::V3; using cal::M3; using cal::Ns; using simu::Pose;

struct Sim { double A, f, T, dt, b, kl, tl, kr, tr, sl, sr; V3 r, ypr, sp, sR; int n; };
static Sim draw(vpt::Src& s) {
  Sim m; m.dt = s.real(0.01, 0.3); m.n = 1 + (int)s.index(60); m.T = (m.n + 0.5) * m.dt;
  m.A = s.chance(1, 5) ? 0 : s.real(-30, 30); m.f = s.chance(1, 8) ? 0 : s.real(0.005, 0.6); m.b = s.real(0.1, 2);
  m.kl = s.logReal(0.1, 1000); m.kr = s.logReal(0.1, 1000); m.tl = s.real(-0.5, 0.5); m.tr = s.real(-0.5, 0.5); m.sl = s.logReal(1e-8, 1e2); m.sr = s.logReal(1e-8, 1e2);
  m.r = V3(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)); m.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1.3, 1.3), s.real(-3, 3));
  for (int i = 0; i < 3; ++i) { m.sp(i) = s.logReal(1e-8, 1); m.sR(i) = s.logReal(1e-8, 1); }
  return m;
}
static void write(const Sim& m, sm::PropertyTree& t) {
  auto v = [&](const std::string& k, const V3& x) { for (int i = 0; i < 3; ++i) t.setDouble(k + "/e" + std::to_string(i + 1), x(i)); };
  t.setDouble("trajectory/A", m.A); t.setDouble("trajectory/f", m.f); t.setDouble("T", m.T); t.setDouble("dt", m.dt);
  const std::string w = "calibration/odometry/wss/"; t.setDouble(w + "b", m.b); t.setDouble(w + "k_l", m.kl); t.setDouble(w + "t_l", m.tl); t.setDouble(w + "k_r", m.kr); t.setDouble(w + "t_r", m.tr);
  v("calibration/v_T_p/v_r_vp", m.r); v("calibration/v_T_p/v_R_p", m.ypr);
  t.setDouble("noise/odometry/wss/sigma2_l", m.sl); t.setDouble("noise/odometry/wss/sigma2_r", m.sr); v("noise/pose/sigma2_w_r_wp", m.sp); v("noise/pose/sigma2_w_R_p", m.sR);
}
static ac::SimulationParams params(const Sim& m) { sm::PropertyTree t; write(m, t); return ac::SimulationParams(t); }
static M3 diag(const V3& v) { M3 d = v.asDiagonal(); return d; }

CLAUSE(params, 1500, 20000, "the sensor is turned") {
  const Sim m = draw(s); const ac::SimulationParams p = params(m);
  VEQ(p.b, m.b, "b"); VEQ(p.k_l, m.kl, "k_l"); VEQ(p.t_l, m.tl, "t_l"); VEQ(p.k_r, m.kr, "k_r"); VEQ(p.t_r, m.tr, "t_r"); VEQ(p.dt, m.dt, "dt"); VEQ(p.T, m.T, "T");
  VEQ(p.sigma2_l, m.sl, "sigma2_l"); VEQ(p.sigma2_r, m.sr, "sigma2_r"); VEQ(p.trajectoryParams.A, m.A, "A"); VEQ(p.trajectoryParams.f, m.f, "f");
  VCHECK(p.sigma2_w_r_wp == diag(m.sp) && p.sigma2_w_R_p == diag(m.sR), "covariances of the pose");
  Pose w; w.R = cal::fromYpr(m.ypr); w.p = m.r; simu::same(simu::of(p.v_T_p), w, 1e-9, "mounting of the pose sensor");
  simu::same(simu::of(p.trajectoryParams.w_T_v_0), Pose(), 0, "start");
  s.nontrivial(!m.ypr.isZero());
}

CLAUSE(defaults, 200, 1000, "always") {
  const ac::SimulationParams p;
  for (double x : {p.b, p.k_l, p.k_r, p.dt, p.T, p.sigma2_l, p.sigma2_r}) VCHECK(x > 1e-9 && x < 1e9, "a default of " << x << " for a length, factor, duration or variance");
  for (double x : {p.t_l, p.t_r, p.trajectoryParams.A, p.trajectoryParams.f}) VCHECK(std::fabs(x) < 1e3, "a default of " << x << " for a delay or the path");
  for (const M3& Q : {M3(p.sigma2_w_r_wp), M3(p.sigma2_w_R_p)}) VCHECK(Q == M3(Q.transpose()) && Q.ldlt().isPositive() && Q.determinant() > 0, "default covariance\n" << Q);
  const M3 R = p.v_T_p.C(); VCHECK((R * R.transpose() - M3::Identity()).norm() < 1e-9 && p.v_T_p.t().norm() < 1e3, "default mounting");
  VCHECK(p.T > p.dt, "a default simulation of " << p.T << " s has no step of " << p.dt << " s");
  s.nontrivial();
}

CLAUSE(motion, 3000, 60000, "the vehicle turns") {
  const double dt = s.real(1e-3, 1);
  Pose a; a.R = cal::fromYpr(V3(s.real(-3, 3), s.real(-1.5, 1.5), s.real(-3, 3))); a.p = V3(s.any(1e3), s.any(1e3), s.any(1e3));
  const V3 v(s.any(30), s.any(5), s.any(5)); const V3 w = s.chance(1, 5) ? V3(0, 0, 0) : V3(s.any(3), s.any(3), s.any(3));
  simu::same(simu::of(ac::integrateMotionModel(simu::Tf(sm::kinematics::r2quat(a.R), a.p), v, w, dt)), simu::step(a, v, w, dt), 1e-9, "moving");
  const V3 c(s.any(3), s.any(3), s.any(3));
  VCHECK((ac::genWheelVelocity(v, w, c) - (v + w.cross(c))).norm() <= 1e-9, "wheel velocity");
  const simu::Sine p = {s.any(30), s.real(0, 1)}; double t = s.real(0, 100);
  double phi = s.real(-1.5, 1.5); Eigen::Vector2d r(s.any(100), s.any(100));
  for (int i = 0; i < 3; ++i) {
    const Eigen::Vector2d want = simu::between(p, phi, r, t, dt), got = ac::genSineBodyVel2d(phi, r, t, dt, p.A, p.f);
    VCHECK((got - want).norm() <= 1e-8 * (1 + want.norm()), "speed and turn rate " << got.transpose() << ", expected " << want.transpose());
    VCLOSE(phi, p.phi(t), 1e-9, 1e-9, "heading kept"); VCHECK((r - p.r(t)).norm() <= 1e-9 * (1 + r.norm()), "position kept");
    t += dt;
  }
  s.nontrivial(!w.isZero());
}

static void check(const Sim& m, const ac::SimulationData& d) {
  const size_t n = (size_t)m.n; const Ns dt = sm::timing::secToNsec(m.dt);
  VEQ(d.trajectory.w_T_v.size(), n + 1, "poses"); VEQ(d.trajectory.v_v_wv.size(), n + 1, "velocities"); VEQ(d.trajectory.v_om_wv.size(), n + 1, "turn rates");
  for (size_t x : {d.w_v_wwl.size(), d.w_v_wwr.size(), d.lwData.size(), d.lwData_n.size(), d.rwData.size(), d.rwData_n.size(), d.poseData.size(), d.poseData_n.size()}) VEQ(x, n, "measurements");
  simu::same(simu::of(d.trajectory.w_T_v[0]), Pose(), 0, "start"); VCHECK(d.trajectory.v_v_wv[0].isZero() && d.trajectory.v_om_wv[0].isZero(), "the vehicle starts at rest");
  const simu::Sine p = {m.A, m.f}; double phi = p.phi(m.dt); Eigen::Vector2d r(0, 0); Pose at, mount; mount.R = cal::fromYpr(m.ypr); mount.p = m.r;
  simu::Noise nl, nr, np, nR;
  for (size_t k = 0; k < n; ++k) {
    const double t = (double)(k + 1) * m.dt; const Eigen::Vector2d u = simu::between(p, phi, r, t, m.dt); phi = p.phi(t); r = p.r(t);
    const V3 v(u(0), 0, 0), w(0, 0, u(1));
    const std::string i = " of step " + std::to_string(k);
    VCHECK((d.trajectory.v_v_wv[k + 1] - v).norm() <= 1e-7 * (1 + v.norm()), "velocity" << i << " " << d.trajectory.v_v_wv[k + 1].transpose() << ", expected " << v.transpose());
    VCHECK((d.trajectory.v_om_wv[k + 1] - w).norm() <= 1e-7 * (1 + w.norm()), "turn rate" << i << " " << d.trajectory.v_om_wv[k + 1].transpose() << ", expected " << w.transpose());
    at = simu::step(at, v, w, m.dt); simu::same(simu::of(d.trajectory.w_T_v[k + 1]), at, 1e-7, "pose" + i);
    const V3 l = v + w.cross(V3(0, m.b, 0)), q = v + w.cross(V3(0, -m.b, 0));
    VCHECK((d.w_v_wwl[k] - l).norm() <= 1e-7 * (1 + l.norm()), "left wheel" << i); VCHECK((d.w_v_wwr[k] - q).norm() <= 1e-7 * (1 + q.norm()), "right wheel" << i);
    const Ns t0 = (Ns)k * dt;
    VEQ(d.lwData[k].first, t0 + sm::timing::secToNsec(m.tl), "left wheel time" << i); VEQ(d.lwData_n[k].first, d.lwData[k].first, "noisy left wheel time" << i);
    VEQ(d.rwData[k].first, t0 + sm::timing::secToNsec(m.tr), "right wheel time" << i); VEQ(d.rwData_n[k].first, d.rwData[k].first, "noisy right wheel time" << i);
    VEQ(d.poseData[k].first, t0 + sm::timing::secToNsec(m.dt * 0.5), "pose time" << i); VEQ(d.poseData_n[k].first, d.poseData[k].first, "noisy pose time" << i);
    VCLOSE(d.lwData[k].second.value, m.kl * l(0), 1e-7, 1e-7 * m.kl, "left wheel measurement" << i); VCLOSE(d.rwData[k].second.value, m.kr * q(0), 1e-7, 1e-7 * m.kr, "right wheel measurement" << i);
    Pose s = at * mount; const auto& z = d.poseData[k].second; const auto& zn = d.poseData_n[k].second;
    Pose got; got.p = z.w_r_wp; got.R = cal::fromYpr(z.w_R_p); simu::same(got, s, 1e-7, "pose measurement" + i);
    for (auto* x : {&z, &zn}) VCHECK(x->sigma2_w_r_wp == diag(m.sp) && x->sigma2_w_R_p == diag(m.sR), "covariance of pose measurement" << i);
    nl.add(d.lwData_n[k].second.value / m.kl - d.lwData[k].second.value / m.kl, m.sl + 1e-20, "left wheel"); nr.add(d.rwData_n[k].second.value / m.kr - d.rwData[k].second.value / m.kr, m.sr + 1e-20, "right wheel");
    for (int j = 0; j < 3; ++j) { np.add(zn.w_r_wp(j) - z.w_r_wp(j), m.sp(j), "position"); nR.add(zn.w_R_p(j) - z.w_R_p(j), m.sR(j), "angles"); }
  }
  nl.check("left wheel"); nr.check("right wheel"); np.check("position"); nR.check("angles");
}
CLAUSE(simulate, 600, 12000, "at least 10 steps of a turning vehicle") {
  const Sim m = draw(s); ac::SimulationData d; ac::simulate(params(m), d);
  check(m, d);
  s.nontrivial(m.n >= 10 && m.A * m.f != 0);
}
CLAUSE(noise, 24, 400, "always") {
  Sim m = draw(s); m.dt = 0.1; m.n = 800; m.T = (m.n + 0.5) * m.dt; ac::SimulationData d; ac::simulate(params(m), d); check(m, d);
  s.nontrivial(true);
}

// every file has a row for each of what it is named after
CLAUSE(files, 200, 4000, "at least 5 steps") {
  Sim m = draw(s); m.n = std::min(m.n, 20); m.T = (m.n + 0.5) * m.dt; ac::SimulationData d; ac::simulate(params(m), d);
  auto file = [&](std::function<void(std::ofstream&)> w, size_t n, std::function<std::vector<V3>(size_t)> want, bool scalar, const char* what) {
    cal::Scratch f; { std::ofstream o(f.name); o.precision(17); w(o); }
    const auto r = simu::rows(f.name); VEQ(r.size(), n, "rows of " << what);
    for (size_t i = 0; i < n; ++i) {
      const std::vector<V3> x = want(i); std::vector<double> y; for (const V3& v : x) for (int k = 0; k < (scalar ? 1 : 3); ++k) y.push_back(v(k));
      VEQ(r[i].size(), y.size(), "columns of " << what);
      for (size_t k = 0; k < y.size(); ++k) VCLOSE(r[i][k], y[k], 1e-9, 1e-9, what << ", row " << i << ", column " << k);
    }
  };
  typedef std::vector<V3> L; const auto& t = d.trajectory;
  file([&](std::ofstream& o) { t.w_T_vWrite(o); }, t.w_T_v.size(), [&](size_t i) { return L{t.w_T_v[i].t(), cal::toYpr(t.w_T_v[i].C())}; }, false, "poses");
  file([&](std::ofstream& o) { t.v_v_wvWrite(o); }, t.v_v_wv.size(), [&](size_t i) { return L{t.v_v_wv[i]}; }, false, "velocities");
  file([&](std::ofstream& o) { t.v_om_wvWrite(o); }, t.v_om_wv.size(), [&](size_t i) { return L{t.v_om_wv[i]}; }, false, "turn rates");
  file([&](std::ofstream& o) { d.w_v_wwlWrite(o); }, d.w_v_wwl.size(), [&](size_t i) { return L{d.w_v_wwl[i]}; }, false, "left wheel velocities");
  file([&](std::ofstream& o) { d.w_v_wwrWrite(o); }, d.w_v_wwr.size(), [&](size_t i) { return L{d.w_v_wwr[i]}; }, false, "right wheel velocities");
  auto one = [](double x) { return L{V3(x, 0, 0)}; };
  file([&](std::ofstream& o) { d.lwDataWrite(o); }, d.lwData.size(), [&](size_t i) { return one(d.lwData[i].second.value); }, true, "left wheel measurements");
  file([&](std::ofstream& o) { d.lwData_nWrite(o); }, d.lwData.size(), [&](size_t i) { return one(d.lwData_n[i].second.value); }, true, "noisy left wheel measurements");
  file([&](std::ofstream& o) { d.rwDataWrite(o); }, d.lwData.size(), [&](size_t i) { return one(d.rwData[i].second.value); }, true, "right wheel measurements");
  file([&](std::ofstream& o) { d.rwData_nWrite(o); }, d.lwData.size(), [&](size_t i) { return one(d.rwData_n[i].second.value); }, true, "noisy right wheel measurements");
  file([&](std::ofstream& o) { d.poseDataWrite(o); }, d.lwData.size(), [&](size_t i) { return L{d.poseData[i].second.w_r_wp, d.poseData[i].second.w_R_p}; }, false, "pose measurements");
  file([&](std::ofstream& o) { d.poseData_nWrite(o); }, d.lwData.size(), [&](size_t i) { return L{d.poseData_n[i].second.w_r_wp, d.poseData_n[i].second.w_R_p}; }, false, "noisy pose measurements");
  s.nontrivial(m.n >= 5);
}
