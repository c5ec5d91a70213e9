// C40: the program of the time-delay example, run whole on generated configurations
#include "prog.hpp"
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#include "tdconf.hpp"
#include "simu.hpp"
int td_main(int, char**);
namespace ac = aslam::calibration;
using namespace prog;
using cal::V3; using simu::Pose;

struct Sim { double A, f, T, dt, b, kl, tl, kr, tr, noise; V3 r, ypr; unsigned seed; };
static void write(const Sim& m, const tdconf::Conf& c, sm::PropertyTree& t) {
  { sm::PropertyTree q(t, "time-delay/calibrator"); tdconf::write(c, q); }
  const std::string p = "time-delay/simulation/params/", w = p + "calibration/odometry/wss/";
  auto v = [&](const std::string& k, const V3& x) { for (int i = 0; i < 3; ++i) t.setDouble(p + k + "/e" + std::to_string(i + 1), x(i)); };
  t.setDouble(p + "trajectory/A", m.A); t.setDouble(p + "trajectory/f", m.f); t.setDouble(p + "T", m.T); t.setDouble(p + "dt", m.dt);
  t.setDouble(w + "b", m.b); t.setDouble(w + "k_l", m.kl); t.setDouble(w + "t_l", m.tl); t.setDouble(w + "k_r", m.kr); t.setDouble(w + "t_r", m.tr);
  v("calibration/v_T_p/v_r_vp", m.r); v("calibration/v_T_p/v_R_p", m.ypr);
  t.setDouble(p + "noise/odometry/wss/sigma2_l", m.noise); t.setDouble(p + "noise/odometry/wss/sigma2_r", m.noise); v("noise/pose/sigma2_w_r_wp", V3::Constant(m.noise)); v("noise/pose/sigma2_w_R_p", V3::Constant(m.noise));
}


// the program does what its parts do: simulate, calibrate with every noisy measurement in turn, write
struct Told { std::string name; Rows want; double abs; };
static void same(const Told& f) {
  const Rows got = rows(f.name);
  VEQ(got.size(), f.want.size(), "rows of " << f.name);
  for (size_t i = 0; i < got.size(); ++i) {
    VEQ(got[i].size(), f.want[i].size(), "columns of " << f.name);
    for (size_t k = 0; k < got[i].size(); ++k) VCHECK(std::fabs(got[i][k] - f.want[i][k]) <= f.abs * (1 + std::fabs(f.want[i][k])), f.name << ", row " << i << ", column " << k << ": " << got[i][k] << ", expected " << f.want[i][k]);
  }
}
static std::vector<double> row(const Eigen::VectorXd& a) { return std::vector<double>(a.data(), a.data() + a.size()); }
static std::vector<double> row(const V3& a, const V3& b) { return {a(0), a(1), a(2), b(0), b(1), b(2)}; }
static void draw(vpt::Src& s, Sim& m, tdconf::Conf& c) {
  m.dt = s.real(0.02, 0.2); const int n = 8 + (int)s.index(40); m.T = (n + 0.5) * m.dt;
  m.f = s.real(0.05, 0.4); m.A = s.real(-2, 2) / std::pow(2 * M_PI * m.f, 2); m.b = s.real(0.2, 1); m.kl = s.real(1, 400); m.kr = s.real(1, 400); m.tl = s.real(-0.05, 0.05); m.tr = s.real(-0.05, 0.05);
  m.noise = s.logReal(1e-10, 1e-4); m.r = V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); m.ypr = V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3)); m.seed = (unsigned)s.index(1 << 16);
  c = tdconf::draw(s); c.window = s.chance(1, 3) ? 1e18 : s.real(0.2, 1) * m.T; c.iterations = (int)s.index(3); c.delta = s.flip() ? -1e18 : 0.5; c.verbose = s.flip(); c.delaysActive = false; c.columnScaling = true;
  c.b = m.b; c.kl = m.kl; c.kr = m.kr; c.tl = (int)(-m.tl * 1e9); c.tr = (int)(-m.tr * 1e9); c.r = m.r; c.ypr = m.ypr;
  s.note([&](std::ostream& o) { o << "A " << m.A << " f " << m.f << " T " << m.T << " dt " << m.dt << " b " << m.b << " k " << m.kl << " " << m.kr << " t " << m.tl << " " << m.tr << " noise " << m.noise << " r " << m.r.transpose() << " ypr " << m.ypr.transpose() << " window " << c.window << " gain " << c.delta << " iterations " << c.iterations << " seed " << m.seed << "\n"; });
}

CLAUSE(files, 120, 2500, "at least two windows were processed") {
  Sim m; tdconf::Conf c; draw(s, m, c);
  Scratch dir; sm::BoostPropertyTree t; write(m, c, t); t.saveXml("conf.xml");
  seed(m.seed); const Result r = run(td_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  for (const char* x : {"Simulating...", "Optimizing...", "Output results to file..."}) VCHECK(r.out.find(x) != std::string::npos, "not told: " << x);
  seed(m.seed); const ac::SimulationParams p(sm::PropertyTree(t, "time-delay/simulation/params")); ac::SimulationData d; ac::simulate(p, d);
  cal::Quiet q;
  std::vector<Told> f; const size_t n = d.rwData.size();
  auto add = [&](const std::string& name, double abs, size_t rowsOf, std::function<std::vector<double>(size_t)> w) { Told x = {name, {}, abs}; for (size_t i = 0; i < rowsOf; ++i) x.want.push_back(w(i)); f.push_back(x); };
  add("w_T_v.txt", 1e-9, n + 1, [&](size_t i) { const auto& x = d.trajectory.w_T_v[i]; return row(x.t(), cal::toYpr(x.C())); });
  add("w_v_wwl.txt", 1e-5, n, [&](size_t i) { return row(Eigen::VectorXd(d.w_v_wwl[i])); }); add("w_v_wwr.txt", 1e-5, n, [&](size_t i) { return row(Eigen::VectorXd(d.w_v_wwr[i])); });
  add("rwData.txt", 1e-5, n, [&](size_t i) { return std::vector<double>{d.rwData[i].second.value}; }); add("lwData.txt", 1e-5, n, [&](size_t i) { return std::vector<double>{d.lwData[i].second.value}; });
  add("rwData_n.txt", 1e-5, n, [&](size_t i) { return std::vector<double>{d.rwData_n[i].second.value}; }); add("lwData_n.txt", 1e-5, n, [&](size_t i) { return std::vector<double>{d.lwData_n[i].second.value}; });
  add("poseData.txt", 1e-5, n, [&](size_t i) { return row(d.poseData[i].second.w_r_wp, d.poseData[i].second.w_R_p); }); add("poseData_n.txt", 1e-5, n, [&](size_t i) { return row(d.poseData_n[i].second.w_r_wp, d.poseData_n[i].second.w_R_p); });
  ac::Calibrator k(sm::PropertyTree(t, "time-delay/calibrator"));
  for (size_t i = 0; i < n; ++i) {
    k.addRightWheelMeasurement(d.rwData_n[i].second, d.rwData_n[i].first); k.addLeftWheelMeasurement(d.lwData_n[i].second, d.lwData_n[i].first); k.addPoseMeasurement(d.poseData_n[i].second, d.poseData_n[i].first);
  }
  if (k.unprocessedMeasurements()) k.addMeasurements();
  const auto gain = k.getInformationGainHistory(); const auto hist = k.getOdometryVariablesHistory();
  VEQ(hist.size(), gain.size() + 1, "one calibration to start with, and one for each window");
  add("infoGainHist.txt", 1e-6, gain.size(), [&](size_t i) { return std::vector<double>{gain[i]}; }); add("calibHist.txt", 1e-6, hist.size(), [&](size_t i) { return row(Eigen::VectorXd(hist[i])); });
  { std::ofstream o("again.txt"); o.precision(17); ac::writeSplines(k.getEstimator(), m.dt, o); }
  const Rows path = rows("again.txt"); add("w_T_v_est.txt", 1e-6, path.size(), [&](size_t i) { return path[i]; });
  std::set<std::string> names = {"conf.xml", "again.txt"}; for (auto& x : f) { same(x); names.insert(x.name); }
  VCHECK(dir.files() == names, "other files were written");
  s.nontrivial(gain.size() >= 2);
}

CLAUSE(recover, 30, 600, "always") {
  Sim m; m.dt = 0.05; m.T = 8; m.f = s.real(0.25, 0.4); m.A = (s.flip() ? 1 : -1) * s.real(1, 2) / std::pow(2 * M_PI * m.f, 2); m.b = s.real(0.2, 0.8); m.kl = s.real(50, 400); m.kr = m.kl * s.real(0.9, 1.1);
  m.tl = s.real(-0.03, 0.03); m.tr = s.real(-0.03, 0.03); m.noise = s.logReal(3e-7, 1e-6); m.seed = (unsigned)s.index(1 << 16);
  m.r = V3(s.real(-0.5, 0.5), s.real(-0.5, 0.5), s.real(-0.5, 0.5)); m.ypr = V3(s.real(-0.3, 0.3), 0, 0);
  tdconf::Conf c = tdconf::draw(s); c.window = 1e3; c.tLambda = c.rLambda = 1e-6; c.knots = 4; c.tOrder = c.rOrder = 4; c.delta = -1e18; c.verbose = false; c.delaysActive = c.rActive = c.RActive = c.columnScaling = true; c.iterations = 30;
  c.delayBound = 200000000; c.b = m.b * s.real(0.95, 1.05); c.kl = m.kl * s.real(0.97, 1.03); c.kr = m.kr * s.real(0.97, 1.03); c.tl = (int)s.range(-10000000, 10000000); c.tr = (int)s.range(-10000000, 10000000);
  c.r = m.r + V3(s.real(-0.1, 0.1), s.real(-0.1, 0.1), 0); c.ypr = m.ypr + V3(s.real(-0.1, 0.1), 0, 0);
  c.ql = c.qr = 1; c.qVy = c.qVz = 1e-3;
  s.note([&](std::ostream& o) { o << "A " << m.A << " f " << m.f << " b " << m.b << " k " << m.kl << " " << m.kr << " t " << m.tl << " " << m.tr << " r " << m.r.transpose() << " ypr " << m.ypr.transpose() << " noise " << m.noise << "\nfrom b " << c.b << " k " << c.kl << " " << c.kr << " t " << c.tl << " " << c.tr << " r " << c.r.transpose() << " ypr " << c.ypr.transpose() << "\n"; });
  Scratch dir; { sm::BoostPropertyTree t; write(m, c, t); const std::string o = "time-delay/calibrator/estimator/optimizer/"; t.setDouble(o + "linearSolver/epsSVD", 1e-8); t.setDouble(o + "convergenceDeltaX", 1e-6); t.saveXml("conf.xml"); }
  seed(m.seed); const Result r = run(td_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  const Rows h = rows("calibHist.txt"); VEQ(h.size(), 2u, "calibrations"); const auto& e = h.back(); VEQ(e.size(), 11u, "columns of calibHist.txt");
  // the simulation moves the vehicle in straight steps, each along its heading at the beginning: seen as a point half a step (at 1 m/s, where it turns most) behind
  s.note([&](std::ostream& o) { o << "b " << e[0] << " k " << e[1] << " " << e[3] << " t " << e[2] << " " << e[4] << " r " << e[5] << " " << e[6] << " yaw " << e[8] << "\n"; });
  VCLOSE(e[0], m.b, 0.01, 0, "wheel base"); VCLOSE(e[1], m.kl, 0.003, 0, "left wheel coefficient"); VCLOSE(e[3], m.kr, 0.003, 0, "right wheel coefficient");
  VCLOSE(e[2], -m.tl, 0, 0.003, "left wheel delay"); VCLOSE(e[4], -m.tr, 0, 0.003, "right wheel delay");
  VCLOSE(e[5], m.r(0) - 0.027, 0, 0.03, "forward position of the pose sensor"); VCLOSE(e[6], m.r(1), 0, 0.05, "lateral position of the pose sensor"); VCLOSE(e[8], m.ypr(0), 0, 0.02, "yaw of the pose sensor");
  // the path estimated is the one simulated
  const Rows w = rows("w_T_v.txt"), p = rows("w_T_v_est.txt");
  VCHECK(p.size() + 3 >= w.size() && p.size() <= w.size(), "rows of w_T_v_est.txt: " << p.size() << " for " << w.size() << " poses");
  for (size_t i = 2; i + 2 < p.size(); ++i) { double best = 1e9; for (size_t j = 0; j < w.size(); ++j) best = std::min(best, std::hypot(p[i][0] - w[j][0], p[i][1] - w[j][1])); VCHECK(best <= 0.3, "the estimated path leaves the true one at " << p[i][0] << " " << p[i][1]); }
  s.nontrivial();
}

static std::string conf() { return shipped("incremental_calibration_examples/incremental_calibration_examples_time_delay/conf/simulation.xml"); }
CLAUSE(shipped, 1, 2, "the configuration that comes with the example, shortened") {
  sm::BoostPropertyTree t; t.loadXml(conf());
  t.setDouble("time-delay/simulation/params/T", 4); t.setInt("time-delay/calibrator/estimator/optimizer/maxIterations", 2);
  Scratch dir; t.saveXml("conf.xml");
  const Result r = run(td_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status"); VCHECK(rows("w_T_v.txt").size() >= 40 && rows("calibHist.txt").size() == 2 && !rows("w_T_v_est.txt").empty(), "the results are not written");
  s.nontrivial();
}
CLAUSE(usage, 20, 100, "a call without its arguments, or with a missing file") {
  Scratch dir; const size_t n = s.index(3); const std::vector<std::string> one(1, "none.xml");
  if (n == 1) VTHROWS(std::exception, run(td_main, one), "a configuration that is not there");
  else { const Result r = run(td_main, std::vector<std::string>(n, "conf.xml")); VCHECK(r.rc != 0 && r.out.find("Usage") != std::string::npos, "no usage: " << r.out); }
  s.nontrivial();
}
