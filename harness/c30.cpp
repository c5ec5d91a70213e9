// C30: configuration, calibration variables and spline batches of the egomotion calibrator
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <bsplines/BSplineFitter.hpp>
#include "sb.hpp"
#include "egoconf.hpp"

CLAUSE(variables, 3000, 60000, "several sensors") {
  egoconf::Conf c = egoconf::draw(s);
  sm::PropertyTree t; egoconf::write(c, t);
  ac::DesignVariables v(sm::PropertyTree(t, "sensors"));
  VEQ(v.calibrationVariables_.size(), c.sensors.size(), "sensors");
  std::map<size_t, Eigen::VectorXd> want; std::set<const ab::DesignVariable*> all; std::vector<ab::DesignVariable*> dvs;
  auto same = [&](const char* what) {
    for (auto& x : c.sensors) {
      const Eigen::VectorXd p = v.getParameters(x.idx); VEQ(p.size(), 7, what);
      for (int i = 0; i < 7; ++i) VCHECK(std::fabs(p(i) - want[x.idx](i)) <= 1e-9 * (1 + std::fabs(want[x.idx](i))), what << ": sensor " << x.idx << " parameter " << i << " is " << p(i) << ", expected " << want[x.idx](i));
    }
    for (size_t i = 0; i < 9; ++i) if (!want.count(i)) VTHROWS(ac::OutOfBoundException<size_t>, v.getParameters(i), "parameters of sensor " << i << " which is not calibrated");
  };
  for (auto& x : c.sensors) {
    want[x.idx] = egoconf::parameters(x); VCHECK(v.calibrationVariables_.count(x.idx), "sensor " << x.idx << " has no variables");
    ab::DesignVariable* a[3] = {egoconf::time(v, x.idx), egoconf::position(v, x.idx), egoconf::attitude(v, x.idx)};
    VEQ(a[0]->isActive(), x.tActive, "delay of sensor " << x.idx << " active"); VEQ(a[1]->isActive(), x.rActive, "translation of sensor " << x.idx << " active"); VEQ(a[2]->isActive(), x.RActive, "rotation of sensor " << x.idx << " active");
    for (auto* d : a) { all.insert(d); dvs.push_back(d); }
  }
  same("parameters as configured");
  auto b = boost::make_shared<ac::OptimizationProblem>(); const size_t g = s.index(4);
  v.addToBatch(b, g);
  VEQ(b->numDesignVariables(), all.size(), "variables in the batch");
  for (size_t i = 0; i < all.size(); ++i) { VCHECK(all.count(b->designVariable(i)), "variable " << i << " of the batch"); VEQ(b->getGroupId(b->designVariable(i)), g, "group"); }
  for (auto& x : c.sensors) {  // those of a sensor stand together
    size_t at = 0; while (at < all.size() && b->designVariable(at) != egoconf::time(v, x.idx)) ++at;
    VCHECK(at + 2 < all.size() && b->designVariable(at + 1) == egoconf::position(v, x.idx) && b->designVariable(at + 2) == egoconf::attitude(v, x.idx), "order of the variables of sensor " << x.idx);
  }
  // moving a variable moves its own entry and nothing else
  const size_t k = s.index(dvs.size()); Eigen::VectorXd& w = want[c.sensors[k / 3].idx];
  Eigen::MatrixXd x; dvs[k]->getParameters(x);
  if (k % 3 == 0) { x(0) += 0.25; w(0) += 0.25; } else if (k % 3 == 1) for (int i = 0; i < 3; ++i) { x(i) += 1.0 + i; w(1 + i) = x(i); }
  else { x = sm::kinematics::r2quat(cal::fromYpr(V3(0.3, -0.4, 0.5))); w.segment<3>(4) = V3(0.3, -0.4, 0.5); }
  dvs[k]->setParameters(x);
  same("parameters after moving one");
  std::ostringstream o; o << v;
  std::istringstream in(o.str()); std::string l; std::map<std::string, std::vector<double> > pr;
  while (std::getline(in, l)) { const size_t q = l.find(": "); if (q == std::string::npos) continue; std::istringstream li(l.substr(q + 2)); double d; while (li >> d) pr[l.substr(0, q)].push_back(d); }
  for (auto& y : c.sensors) for (int f = 0; f < 3; ++f) {
    const std::string name = std::string(f == 0 ? "t_" : f == 1 ? "r_" : "R_") + std::to_string(y.idx); const size_t n = f ? 3 : 1; const auto& q = pr[name]; const int at = f == 0 ? 0 : f == 1 ? 1 : 4;
    VEQ(q.size(), n, "values printed for " << name << " in\n" << o.str());
    for (size_t j = 0; j < n; ++j) VCHECK(std::fabs(q[j] - want[y.idx](at + j)) <= 1e-4 * (1 + std::fabs(want[y.idx](at + j))), name << " is printed as " << q[j] << ", is " << want[y.idx](at + j));
  }
  s.nontrivial(c.sensors.size() > 1);
}

CLAUSE(options, 3000, 40000, "the order of the translation spline is left out") {
  egoconf::Conf c = egoconf::draw(s);
  sm::PropertyTree t; c.noTransOrder = s.flip(); egoconf::write(c, t);
  const ac::CalibratorOptions o(t), d;
  auto same = [&](const ac::CalibratorOptions& o, const char* what) {
    VEQ(o.windowDuration, c.window, what << ": windowDuration"); VEQ(o.verbose, c.verbose, what << ": verbose"); VEQ(o.delayBound, (Ns)c.delayBound, what << ": delayBound"); VEQ((size_t)o.referenceSensor, c.reference, what << ": referenceSensor");
    VEQ(o.transSplineLambda, c.tLambda, what << ": transSplineLambda"); VEQ(o.rotSplineLambda, c.rLambda, what << ": rotSplineLambda"); VEQ(o.splineKnotsPerSecond, c.knots, what << ": splineKnotsPerSecond");
    VEQ(o.transSplineOrder, c.noTransOrder ? d.transSplineOrder : c.tOrder, what << ": transSplineOrder"); VEQ(o.rotSplineOrder, c.rOrder, what << ": rotSplineOrder");
  };
  same(o, "options");
  ac::Calibrator rw(t); const ac::Calibrator& k = rw;
  VCHECK(k.getDesignVariables() && k.getDesignVariables() == rw.getDesignVariables(), "the variables of the calibrator");
  VCHECK(k.getEstimator() && k.getEstimator() == rw.getEstimator(), "the estimator of the calibrator");
  same(k.getOptions(), "options of the calibrator");
  VEQ(k.getEstimator()->getMargGroupId(), (size_t)1, "group of the estimator"); VEQ(k.getEstimator()->getOptions().infoGainDelta, c.delta, "information gain threshold of the estimator");
  const auto h = k.getDesignVariablesHistory();
  VEQ(h.size(), c.sensors.size(), "sensors in the history");
  for (auto& x : c.sensors) {
    VCHECK(h.count(x.idx) && h.at(x.idx).size() == 1, "history of sensor " << x.idx << " before any batch"); const Eigen::VectorXd p = egoconf::parameters(x);
    VCHECK((h.at(x.idx)[0] - p).cwiseAbs().maxCoeff() < 1e-9 * (1 + p.cwiseAbs().maxCoeff()), "the history of sensor " << x.idx << " starts with " << h.at(x.idx)[0].transpose() << ", configured " << p.transpose());
  }
  VCHECK(k.getInformationGainHistory().empty() && !k.unprocessedMeasurements(), "a new calibrator has no history");
  ac::CalibratorOptions o2 = o; o2.windowDuration = s.real(0.1, 60); o2.verbose = !o.verbose; o2.referenceSensor = o.referenceSensor + 1;
  rw.getOptions() = o2;
  VEQ(k.getOptions().windowDuration, o2.windowDuration, "windowDuration after a change"); VEQ(k.getOptions().verbose, o2.verbose, "verbose after a change"); VEQ(k.getOptions().referenceSensor, o2.referenceSensor, "referenceSensor after a change"); VEQ(k.getOptions().splineKnotsPerSecond, c.knots, "splineKnotsPerSecond after a change of others");
  s.nontrivial(c.noTransOrder);
}

// the splines of a simulated trajectory, which are no design variables
CLAUSE(simpleFiles, 1500, 30000, "longer than a few timesteps, and turning about several axes") {
  typedef bsplines::EuclideanBSpline<Eigen::Dynamic, 3, bsplines::NsecTimePolicy>::CONF TC;
  typedef bsplines::UnitQuaternionBSpline<Eigen::Dynamic, bsplines::NsecTimePolicy>::CONF QC;
  const double dt = s.pick(std::vector<double>{0.1, 0.25, 0.5, 0.01, 3.0});
  const Ns t0 = s.flip() ? 0 : 1363945215000000000ll, len = 250000000 * s.range(1, 8);
  const size_t n = 2 + s.index(6);
  std::vector<Ns> t = cal::times(s, t0, (double)len * 1e-9, n); t.back() = t0 + len;
  std::vector<V3> p; std::vector<V4> q; V3 a(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3));
  for (size_t i = 0; i < n; ++i) { p.push_back(V3(s.real(-9, 9), s.real(-9, 9), s.real(-9, 9))); a += V3(s.real(-0.4, 0.4), s.real(-0.1, 0.1), s.real(-0.4, 0.4)); V4 x = sm::kinematics::r2quat(cal::fromYpr(a)); if (!q.empty() && x.dot(q.back()) < 0) x = -x; q.push_back(x); }
  auto T = boost::make_shared<ac::TranslationSplineS>(TC(TC::ManifoldConf(3), 3 + (int)s.index(3)));
  auto Q = boost::make_shared<ac::RotationSplineS>(QC(QC::ManifoldConf(), 3 + (int)s.index(3)));
  bsplines::BSplineFitter<ac::TranslationSplineS>::initUniformSpline(*T, t, p, 1 + (int)s.index(4), 1e-3);
  bsplines::BSplineFitter<ac::RotationSplineS>::initUniformSpline(*Q, t, q, 1 + (int)s.index(4), 1e-3);
  std::vector<std::vector<double> > want;
  for (Ns x = T->getMinTime(); x < T->getMaxTime(); x += sm::timing::secToNsec(dt)) {
    const V3 at = T->getEvaluatorAt<0>(x).eval(), an = cal::toYpr(sm::kinematics::quat2r(Q->getEvaluatorAt<0>(x).eval()));
    want.push_back({at(0), at(1), at(2), an(0), an(1), an(2)});
  }
  cal::Scratch f;
  { std::ofstream o(f.name); ac::writeSplines(T, Q, dt, o); }
  sameRows(slurp(f.name), want);
  s.nontrivial(want.size() > 5);
}
