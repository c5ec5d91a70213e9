// C41: the program of the egomotion example, run whole on generated configurations
#include "prog.hpp"
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#include "egoconf.hpp"
#include "simu.hpp"
int ego_main(int, char**);
namespace ac = aslam::calibration;
using namespace prog;
using cal::V3; using cal::Ns; using simu::Pose;
typedef Eigen::Matrix<double, 6, 1> V6;

struct Sim { std::string type; double A, f, T, dt; V3 r, ypr; int n, knots; bool noisy; unsigned seed; std::vector<egoconf::Sensor> sensors; std::map<int, V6> var; };
static void write(const Sim& m, const egoconf::Conf& c, sm::PropertyTree& all) {
  { sm::PropertyTree q(all, "egomotion/calibrator"); egoconf::write(c, q); q.setBool("useNoisyData", m.noisy); }
  sm::PropertyTree t(all, "egomotion/simulation/params");
  auto pose = [&](const std::string& a, const std::string& b, const V3& r, const V3& y) { const char* n[] = {"x", "y", "z"}; const char* e[] = {"yaw", "pitch", "roll"}; for (int i = 0; i < 3; ++i) { t.setDouble(a + n[i], r(i)); t.setDouble(b + e[i], y(i)); } };
  t.setString("trajectory/type", m.type); t.setDouble("trajectory/A", m.A); t.setDouble("trajectory/f", m.f); pose("trajectory/w_T_v_0/", "trajectory/w_T_v_0/", m.r, m.ypr);
  const std::string p = "trajectory/splines/"; t.setDouble(p + "transSplineLambda", 1e-6); t.setDouble(p + "rotSplineLambda", 1e-6); t.setInt(p + "splineKnotsPerSecond", m.knots); t.setInt(p + "transSplineOrder", 4); t.setInt(p + "rotSplineOrder", 4);
  t.setDouble("T", m.T); t.setDouble("dt", m.dt); t.setInt("calibration/num", (int)m.sensors.size());
  for (size_t i = 0; i < m.sensors.size(); ++i) { const std::string q = "calibration/sensor_" + std::to_string(i) + "/"; const auto& x = m.sensors[i]; t.setInt(q + "idx", (int)x.idx); t.setInt(q + "intrinsics/timeDelay", x.t); pose(q + "extrinsics/translation/", q + "extrinsics/rotation/", x.r, x.ypr); }
  size_t at = 0; for (auto& v : m.var) { const std::string q = "noise/sensor_" + std::to_string(at++) + "/"; t.setInt(q + "idx", v.first); for (int j = 0; j < 6; ++j) t.setDouble(q + "e" + std::to_string(j + 1), v.second(j)); }
}
struct Told { std::string name; Rows want; double abs; };
static void same(const Told& f) {
  const Rows got = rows(f.name);
  VEQ(got.size(), f.want.size(), "rows of " << f.name);
  for (size_t i = 0; i < got.size(); ++i) {
    VEQ(got[i].size(), f.want[i].size(), "columns of " << f.name);
    for (size_t k = 0; k < got[i].size(); ++k) VCHECK(std::fabs(got[i][k] - f.want[i][k]) <= f.abs * (1 + std::fabs(f.want[i][k])), f.name << ", row " << i << ", column " << k << ": " << got[i][k] << ", expected " << f.want[i][k]);
  }
}
static std::vector<double> row(const Eigen::VectorXd& a) { return std::vector<double>(a.data(), a.data() + a.size()); }
static void draw(vpt::Src& s, Sim& m, egoconf::Conf& c) {
  static const char* types[] = {"straight", "sinePlanar", "random", "combined"}; m.type = types[s.index(4)];
  m.n = 3 * (2 + (int)s.index(10)); m.dt = s.real(0.02, 0.2); m.T = (m.n + 0.5) * m.dt; m.knots = (int)s.range(1, 8);
  m.f = s.real(0.05, 0.4); m.A = s.real(-2, 2); m.noisy = s.flip(); m.r = V3(s.any(10), s.any(10), s.any(10)); m.ypr = s.flip() ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3)); m.seed = (unsigned)s.index(1 << 16);
  c = egoconf::draw(s); c.window = s.chance(1, 3) ? 1e18 : std::max(4.5 * m.dt, s.real(0.2, 1) * m.T); c.iterations = (int)s.index(3); c.delta = s.flip() ? -1e18 : 0.5; c.verbose = s.flip(); c.columnScaling = true;
  m.sensors = c.sensors; m.var.clear(); auto var = [&](size_t i) { for (int j = 0; j < 6; ++j) m.var[(int)i](j) = s.logReal(1e-10, 1e-4); }; var(c.reference);
  for (auto& x : m.sensors) { x.t = (int)s.range(-20000000, 20000000); var(x.idx); }
  for (size_t i = 0; i < c.sensors.size(); ++i) { c.sensors[i].t = m.sensors[i].t; c.sensors[i].tActive = false; }
  s.note([&](std::ostream& o) { o << m.type << " n " << m.n << " dt " << m.dt << " A " << m.A << " f " << m.f << " noisy " << m.noisy << " sensors " << m.sensors.size() << " reference " << c.reference << " window " << c.window << " gain " << c.delta << " iterations " << c.iterations << " seed " << m.seed << "\n"; });
}
static std::vector<double> row(const ac::MotionMeasurement& x) { const V3 t = x.motion.t(); const Eigen::Vector4d q = x.motion.q(); return {t(0), t(1), t(2), q(0), q(1), q(2), q(3)}; }

CLAUSE(files, 120, 2500, "at least two windows were processed") {
  Sim m; egoconf::Conf c; draw(s, m, c);
  Scratch dir; sm::BoostPropertyTree t; write(m, c, t); t.saveXml("conf.xml");
  seed(m.seed); const Result r = run(ego_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  for (const char* x : {"Simulating...", "Optimizing...", "Output results to file..."}) VCHECK(r.out.find(x) != std::string::npos, "not told: " << x);
  seed(m.seed); const ac::SimulationParams p(sm::PropertyTree(t, "egomotion/simulation/params"), t); ac::SimulationData d; ac::simulate(p, d);
  cal::Quiet q;
  std::vector<Told> f;
  auto add = [&](const std::string& name, double abs, size_t rowsOf, std::function<std::vector<double>(size_t)> w) { Told x = {name, {}, abs}; for (size_t i = 0; i < rowsOf; ++i) x.want.push_back(w(i)); f.push_back(x); };
  // the path, every dt along its splines
  { std::vector<std::vector<double> > w; const auto &T = *d.trajectory.translationSpline; const auto& R = *d.trajectory.rotationSpline;
    for (Ns at = T.getMinTime(); at < T.getMaxTime(); at += sm::timing::secToNsec(m.dt)) { const V3 a = T.getEvaluatorAt<0>(at).eval(), b = cal::toYpr(sm::kinematics::quat2r(R.getEvaluatorAt<0>(at).eval())); w.push_back({a(0), a(1), a(2), b(0), b(1), b(2)}); }
    add("w_T_v.txt", 1e-9, w.size(), [&](size_t i) { return w[i]; }); }
  std::set<size_t> ids; for (auto& v : m.var) ids.insert((size_t)v.first);
  for (size_t id : ids) {
    const auto &a = d.motionData.at(id), &b = d.motionDataNoisy.at(id);
    add("motionData_" + std::to_string(id) + ".txt", 1e-9, a.size(), [&](size_t i) { return row(a[i].second); });
    add("motionDataNoisy_" + std::to_string(id) + ".txt", 1e-9, b.size(), [&](size_t i) { return row(b[i].second); });
  }
  // what is calibrated with: the kind asked for, the measurements of a step together
  const auto& use = m.noisy ? d.motionDataNoisy : d.motionData;
  ac::Calibrator k(sm::PropertyTree(t, "egomotion/calibrator"));
  for (size_t i = 0; i < use.at(c.reference).size(); ++i) for (auto& x : use) k.addMotionMeasurement(x.second[i].second, x.second[i].first, x.first);
  if (k.unprocessedMeasurements()) k.addMeasurements();
  const auto gain = k.getInformationGainHistory(); const auto hist = k.getDesignVariablesHistory();
  VEQ(hist.size(), c.sensors.size(), "sensors calibrated");
  add("infoGainHist.txt", 1e-6, gain.size(), [&](size_t i) { return std::vector<double>{gain[i]}; });
  for (auto& h : hist) { VEQ(h.second.size(), gain.size() + 1, "one calibration to start with, and one for each window"); const auto& v = h.second; add("calibHist_" + std::to_string(h.first) + ".txt", 1e-6, v.size(), [&](size_t i) { return row(Eigen::VectorXd(v[i])); }); }
  { std::ofstream o("again.txt"); o.precision(17); ac::writeSplines(k.getEstimator(), m.dt, o); }
  const Rows path = rows("again.txt"); add("w_T_v_est.txt", 1e-6, path.size(), [&](size_t i) { return path[i]; });
  std::set<std::string> names = {"conf.xml", "again.txt"}; for (auto& x : f) { same(x); names.insert(x.name); }
  VCHECK(dir.files() == names, "other files were written");
  s.nontrivial(gain.size() >= 2);
}

// without noise, what is simulated comes back from wherever the calibration starts
CLAUSE(recover, 24, 500, "always") {
  Sim m; egoconf::Conf c; draw(s, m, c); m.type = "random"; m.n = 100; m.dt = 0.04; m.T = 4.02; m.knots = 5; m.noisy = s.flip(); m.r = m.ypr = V3(0, 0, 0);
  for (auto& v : m.var) v.second.setConstant(m.noisy ? 1e-10 : 1e-4);
  c.window = 1e3; c.delta = -1e18; c.iterations = 30; c.verbose = false; c.columnScaling = true; c.knots = m.knots; c.tOrder = c.rOrder = 4; c.tLambda = c.rLambda = 1e-6; c.delayBound = 100000000;
  for (size_t i = 0; i < c.sensors.size(); ++i) {
    auto &x = c.sensors[i]; auto& w = m.sensors[i];
    w.r = V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); w.ypr = V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3));
    x.tActive = x.rActive = x.RActive = true; x.t = w.t + (s.flip() ? 1 : -1) * (int)s.range(20000000, 50000000);
    x.r = w.r + V3(s.real(-0.5, 0.5), s.real(-0.5, 0.5), s.real(-0.5, 0.5)); x.ypr = w.ypr + V3(s.real(-0.2, 0.2), s.real(-0.2, 0.2), s.real(-0.2, 0.2));
  }
  Scratch dir; { sm::BoostPropertyTree t; write(m, c, t); const std::string o = "egomotion/calibrator/estimator/optimizer/"; t.setDouble(o + "linearSolver/epsSVD", 1e-8); t.setDouble(o + "linearSolver/qrTol", 1e-6); t.setDouble(o + "convergenceDeltaX", 1e-6); t.saveXml("conf.xml"); }
  seed(m.seed); const Result r = run(ego_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  for (auto& w : m.sensors) {
    const std::string n = " of sensor " + std::to_string(w.idx); const Rows h = rows("calibHist_" + std::to_string(w.idx) + ".txt"); VEQ(h.size(), 2u, "calibrations" << n); const auto& e = h.back(); VEQ(e.size(), 7u, "columns" << n);
    s.note([&](std::ostream& o) { o << "delay" << n << " " << w.t * 1e-9 << ": " << e[0] << ", position " << w.r.transpose() << ": " << e[1] << " " << e[2] << " " << e[3] << ", angles " << w.ypr.transpose() << ": " << e[4] << " " << e[5] << " " << e[6] << "\n"; });
    Pose a, b; a.p = w.r; a.R = cal::fromYpr(w.ypr); b.p = V3(e[1], e[2], e[3]); b.R = cal::fromYpr(V3(e[4], e[5], e[6]));
    // (the splines of the simulation and of the calibrator are not quite of the same family)
    VCLOSE(e[0], w.t * 1e-9, 0, 0.012, "time delay" << n); VCHECK((b.p - a.p).norm() <= 0.12, "position" << n << ": " << b.p.transpose() << ", expected " << a.p.transpose()); VCHECK((b.R - a.R).cwiseAbs().maxCoeff() <= 0.08, "attitude" << n << "\n" << b.R << "\nexpected\n" << a.R);
  }
  s.nontrivial();
}

static std::string conf() { return shipped("incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/conf/simulation.xml"); }
CLAUSE(shipped, 1, 2, "the configuration that comes with the example, shortened") {
  sm::BoostPropertyTree t; t.loadXml(conf());
  t.setDouble("egomotion/simulation/params/T", 4); t.setInt("egomotion/calibrator/estimator/optimizer/maxIterations", 2);
  Scratch dir; t.saveXml("conf.xml");
  const Result r = run(ego_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status"); VCHECK(rows("w_T_v.txt").size() >= 35 && rows("calibHist_1.txt").size() == 2 && !rows("w_T_v_est.txt").empty(), "the results are not written");
  s.nontrivial();
}
CLAUSE(usage, 20, 100, "a call without its arguments, or with a missing file") {
  Scratch dir; const size_t n = s.index(3); const std::vector<std::string> one(1, "none.xml");
  if (n == 1) VTHROWS(std::exception, run(ego_main, one), "a configuration that is not there");
  else { const Result r = run(ego_main, std::vector<std::string>(n, "conf.xml")); VCHECK(r.rc != 0 && r.out.find("Usage") != std::string::npos, "no usage: " << r.out); }
  s.nontrivial();
}
