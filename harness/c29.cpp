// C29: configuration, calibration variables and spline batches of the time-delay calibrator
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include "sb.hpp"
#include "tdconf.hpp"

CLAUSE(variables, 3000, 60000, "some are active and some are not") {
  tdconf::Conf c = tdconf::draw(s);
  sm::PropertyTree t; tdconf::write(c, t);
  ac::OdometryDesignVariables v(sm::PropertyTree(t, "odometry"));
  const auto dvs = tdconf::variables(v);
  for (size_t i = 0; i < dvs.size(); ++i) VEQ(dvs[i]->isActive(), tdconf::active(c, i), tdconf::names()[i] << " active");
  auto same = [&](const Eigen::VectorXd& want, const char* what) {
    const Eigen::VectorXd p = v.getParameters();
    VEQ(p.size(), 11, what);
    for (int i = 0; i < 11; ++i) VCHECK(std::fabs(p(i) - want(i)) <= 1e-9 * (1 + std::fabs(want(i))), what << ": parameter " << i << " is " << p(i) << ", expected " << want(i));
  };
  same(tdconf::parameters(c), "parameters as configured");
  auto b = boost::make_shared<ac::OptimizationProblem>(); const size_t g = s.index(4);
  v.addToBatch(b, g);
  VEQ(b->numDesignVariables(), dvs.size(), "variables in the batch");
  for (size_t i = 0; i < dvs.size(); ++i) { VCHECK(b->designVariable(i) == dvs[i], "variable " << i << " of the batch is not " << tdconf::names()[i]); VEQ(b->getGroupId(dvs[i]), g, tdconf::names()[i] << ": group"); }
  // moving a variable moves its own entry and nothing else
  Eigen::VectorXd want = v.getParameters();
  const size_t k = s.index(dvs.size());
  Eigen::MatrixXd x; dvs[k]->getParameters(x);
  if (k < 6) for (int i = 0; i < x.size(); ++i) x(i) += k == 2 || k == 4 ? 0.25 : 1.0 + i;
  else x = sm::kinematics::r2quat(cal::fromYpr(V3(0.3, -0.4, 0.5)));
  dvs[k]->setParameters(x);
  static const int at[] = {0, 1, 2, 3, 4, 5, 8};
  if (k == 6) want.segment<3>(8) = V3(0.3, -0.4, 0.5); else for (int i = 0; i < x.size(); ++i) want(at[k] + i) = x(i);
  same(want, "parameters after moving one");
  // printed under their names
  std::ostringstream o; o << v;
  std::istringstream in(o.str()); std::string l; std::map<std::string, std::vector<double> > pr;
  while (std::getline(in, l)) { const size_t q = l.find(": "); if (q == std::string::npos) continue; std::istringstream li(l.substr(q + 2)); double d; while (li >> d) pr[l.substr(0, q)].push_back(d); }
  for (size_t i = 0; i < dvs.size(); ++i) {
    const auto& q = pr[tdconf::names()[i]]; const size_t n = i >= 5 ? 3 : 1;
    VEQ(q.size(), n, "values printed for " << tdconf::names()[i] << " in\n" << o.str());
    for (size_t j = 0; j < n; ++j) VCHECK(std::fabs(q[j] - want(at[i] + j)) <= 1e-4 * (1 + std::fabs(want(at[i] + j))), tdconf::names()[i] << " is printed as " << q[j] << ", is " << want(at[i] + j));
  }
  s.nontrivial(c.rActive != c.RActive || c.delaysActive != c.rActive);
}

CLAUSE(options, 3000, 40000, "the order of the translation spline is left out") {
  tdconf::Conf c = tdconf::draw(s);
  sm::PropertyTree t; c.noTransOrder = s.flip(); tdconf::write(c, t);
  const ac::CalibratorOptions o(t), d;
  auto same = [&](const ac::CalibratorOptions& o, const char* what) {
    VEQ(o.windowDuration, c.window, what << ": windowDuration"); VEQ(o.verbose, c.verbose, what << ": verbose"); VEQ(o.delayBound, (Ns)c.delayBound, what << ": delayBound");
    VEQ(o.transSplineLambda, c.tLambda, what << ": transSplineLambda"); VEQ(o.rotSplineLambda, c.rLambda, what << ": rotSplineLambda"); VEQ(o.splineKnotsPerSecond, c.knots, what << ": splineKnotsPerSecond");
    VEQ(o.transSplineOrder, c.noTransOrder ? d.transSplineOrder : c.tOrder, what << ": transSplineOrder"); VEQ(o.rotSplineOrder, c.rOrder, what << ": rotSplineOrder");
    VEQ(o.lwVariance, c.ql, what << ": lwVariance"); VEQ(o.rwVariance, c.qr, what << ": rwVariance"); VEQ(o.vyVariance, c.qVy, what << ": vyVariance"); VEQ(o.vzVariance, c.qVz, what << ": vzVariance");
  };
  same(o, "options");
  ac::Calibrator rw(t); const ac::Calibrator& k = rw;
  VCHECK(k.getOdometryDesignVariables() && k.getOdometryDesignVariables() == rw.getOdometryDesignVariables(), "the variables of the calibrator");
  { const Eigen::VectorXd p = k.getOdometryDesignVariables()->getParameters(), want = tdconf::parameters(c); VCHECK((p - want).cwiseAbs().maxCoeff() < 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "variables of the calibrator " << p.transpose() << ", configured " << want.transpose()); }
  same(k.getOptions(), "options of the calibrator");
  VEQ(k.getEstimator()->getMargGroupId(), (size_t)1, "group of the estimator"); VEQ(k.getEstimator()->getOptions().infoGainDelta, c.delta, "information gain threshold of the estimator");
  VEQ(k.getOdometryVariablesHistory().size(), (size_t)1, "history before any batch");
  const Eigen::VectorXd h = k.getOdometryVariablesHistory()[0], p = tdconf::parameters(c);
  VCHECK((h - p).cwiseAbs().maxCoeff() < 1e-9 * (1 + p.cwiseAbs().maxCoeff()), "the history starts with " << h.transpose() << ", configured " << p.transpose());
  VCHECK(k.getInformationGainHistory().empty() && !k.unprocessedMeasurements(), "a new calibrator has no history");
  ac::CalibratorOptions o2 = o; o2.windowDuration = s.real(0.1, 60); o2.verbose = !o.verbose; o2.vyVariance = s.logReal(1e-6, 10);
  rw.getOptions() = o2;
  VEQ(k.getOptions().windowDuration, o2.windowDuration, "windowDuration after a change"); VEQ(k.getOptions().verbose, o2.verbose, "verbose after a change"); VEQ(k.getOptions().vyVariance, o2.vyVariance, "vyVariance after a change"); VEQ(k.getOptions().rwVariance, c.qr, "rwVariance after a change of others");
  s.nontrivial(c.noTransOrder);
}
