// C28: configuration, calibration variables and spline batches of the car calibrator
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/algo/splinesToFile.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include "sb.hpp"
#include "carconf.hpp"

CLAUSE(variables, 3000, 60000, "every parameter is different and some were moved") {
  carconf::Conf c = carconf::draw(s);
  sm::PropertyTree t; carconf::write(c, t);
  ac::OdometryDesignVariables v(sm::PropertyTree(t, "odometry"));
  const auto dvs = carconf::variables(v);
  for (size_t i = 0; i < dvs.size(); ++i) VEQ(dvs[i]->isActive(), i >= 11 ? c.delaysActive : i < 9, carconf::names()[i] << " active");
  auto same = [&](const Eigen::VectorXd& want, const char* what) {
    const Eigen::VectorXd p = v.getParameters();
    VEQ(p.size(), 22, what);
    for (int i = 0; i < 22; ++i) VCHECK(std::fabs(p(i) - want(i)) <= 1e-9 * (1 + std::fabs(want(i))), what << ": parameter " << i << " is " << p(i) << ", expected " << want(i));
  };
  same(carconf::parameters(c), "parameters as configured");
  for (int i = 0; i < 11; ++i) if (i != 10) {}  // order of the variables in a batch
  auto b = boost::make_shared<ac::OptimizationProblem>(); const size_t g = s.index(4);
  v.addToBatch(b, g);
  VEQ(b->numDesignVariables(), dvs.size(), "variables in the batch");
  for (size_t i = 0; i < dvs.size(); ++i) { VCHECK(b->designVariable(i) == dvs[i], "variable " << i << " of the batch is not " << carconf::names()[i]); VEQ(b->getGroupId(dvs[i]), g, carconf::names()[i] << ": group"); }
  // moving a variable moves its own entry and nothing else
  Eigen::VectorXd want = v.getParameters();
  const size_t k = s.index(dvs.size());
  Eigen::MatrixXd x; dvs[k]->getParameters(x);
  if (k != 10) for (int i = 0; i < x.size(); ++i) x(i) += k >= 11 ? 0.25 : 1.0 + i;
  else { M3 R = cal::fromYpr(V3(0.3, -0.4, 0.5)); x = sm::kinematics::r2quat(R); }
  dvs[k]->setParameters(x);
  static const int at[] = {0, 1, 2, 8, 3, 4, 5, 6, 7, 12, 15, 18, 19, 20, 21};
  if (k == 10) want.segment<3>(15) = V3(0.3, -0.4, 0.5); else for (int i = 0; i < x.size(); ++i) want(at[k] + i) = x(i);
  same(want, "parameters after moving one");
  // printed under their names
  std::ostringstream o; o << v;
  std::istringstream in(o.str()); std::string l; std::map<std::string, std::vector<double> > pr;
  while (std::getline(in, l)) { const size_t c = l.find(": "); if (c == std::string::npos) continue; std::istringstream li(l.substr(c + 2)); double d; while (li >> d) pr[l.substr(0, c)].push_back(d); }
  for (size_t i = 0; i < dvs.size(); ++i) {
    VCHECK(pr.count(carconf::names()[i]), carconf::names()[i] << " is not printed in\n" << o.str());
    if (i == 3) continue;  // the steering coefficients have their own format
    const auto& q = pr[carconf::names()[i]]; const size_t n = i == 9 || i == 10 ? 3 : 1;
    VEQ(q.size(), n, "values printed for " << carconf::names()[i]);
    for (size_t j = 0; j < n; ++j) VCHECK(std::fabs(q[j] - want(at[i] + j)) <= 1e-4 * (1 + std::fabs(want(at[i] + j))), carconf::names()[i] << " is printed as " << q[j] << ", is " << want(at[i] + j));
  }
  s.nontrivial();
}

CLAUSE(options, 3000, 40000, "the order of the translation spline is left out") {
  carconf::Conf c = carconf::draw(s);
  sm::PropertyTree t; c.noTransOrder = s.flip(); carconf::write(c, t);
  const ac::CarCalibratorOptions o(t), d;
  VEQ(o.windowDuration, c.window, "windowDuration"); VEQ(o.verbose, c.verbose, "verbose"); VEQ(o.usePose, c.usePose, "usePose"); VEQ(o.useVelocities, c.useVelocities, "useVelocities"); VEQ(o.delayBound, (Ns)c.delayBound, "delayBound");
  VEQ(o.transSplineLambda, c.tLambda, "transSplineLambda"); VEQ(o.rotSplineLambda, c.rLambda, "rotSplineLambda"); VEQ(o.splineKnotsPerSecond, c.knots, "splineKnotsPerSecond");
  VEQ(o.transSplineOrder, c.noTransOrder ? d.transSplineOrder : c.tOrder, "transSplineOrder"); VEQ(o.rotSplineOrder, c.rOrder, "rotSplineOrder");
  VEQ(o.linearVelocityTolerance, c.vTol, "linearVelocityTolerance"); VEQ(o.dmiVariance, c.qDmi, "dmiVariance"); VEQ(o.flwVariance, c.qFl, "flwVariance"); VEQ(o.frwVariance, c.qFr, "frwVariance"); VEQ(o.rlwVariance, c.qRl, "rlwVariance"); VEQ(o.rrwVariance, c.qRr, "rrwVariance");
  VEQ(o.dmiPercentError, c.pDmi, "dmiPercentError"); VEQ(o.flwPercentError, c.pFl, "flwPercentError"); VEQ(o.frwPercentError, c.pFr, "frwPercentError"); VEQ(o.rlwPercentError, c.pRl, "rlwPercentError"); VEQ(o.rrwPercentError, c.pRr, "rrwPercentError");
  VEQ(o.steeringVariance, c.qSt, "steeringVariance"); VEQ(o.vyVariance, c.qVy, "vyVariance"); VEQ(o.vzVariance, c.qVz, "vzVariance"); VEQ(o.wheelSpeedSensorCutoff, (decltype(o.wheelSpeedSensorCutoff))c.cutoff, "wheelSpeedSensorCutoff");
  // and the calibrator uses them
  ac::CarCalibrator rw(t); const ac::CarCalibrator& k = rw;
  VCHECK(k.getOdometryDesignVariables() && k.getOdometryDesignVariables() == rw.getOdometryDesignVariables(), "the variables of the calibrator");
  { const Eigen::VectorXd p = k.getOdometryDesignVariables()->getParameters(), want = carconf::parameters(c); VCHECK((p - want).cwiseAbs().maxCoeff() < 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "variables of the calibrator " << p.transpose() << ", configured " << want.transpose()); }
  VEQ(k.getOptions().windowDuration, c.window, "windowDuration of the calibrator"); VEQ(k.getOptions().rlwVariance, c.qRl, "rlwVariance of the calibrator"); VEQ(k.getOptions().delayBound, (Ns)c.delayBound, "delayBound of the calibrator");
  VEQ(k.getOptions().transSplineOrder, o.transSplineOrder, "transSplineOrder of the calibrator");
  VEQ(k.getEstimator()->getMargGroupId(), (size_t)1, "group of the estimator"); VEQ(k.getEstimator()->getOptions().infoGainDelta, c.delta, "information gain threshold of the estimator");
  VEQ(k.getOdometryVariablesHistory().size(), (size_t)1, "history before any batch");
  const Eigen::VectorXd h = k.getOdometryVariablesHistory()[0], p = carconf::parameters(c);
  VCHECK((h - p).cwiseAbs().maxCoeff() < 1e-9 * (1 + p.cwiseAbs().maxCoeff()), "the history starts with " << h.transpose() << ", configured " << p.transpose());
  VCHECK(k.getInformationGainHistory().empty() && !k.unprocessedMeasurements(), "a new calibrator has no history");
  // and can be given others
  ac::CarCalibratorOptions o2 = o; o2.windowDuration = s.real(0.1, 60); o2.verbose = !o.verbose; o2.vyVariance = s.logReal(1e-6, 10);
  rw.getOptions() = o2;
  VEQ(k.getOptions().windowDuration, o2.windowDuration, "windowDuration after a change"); VEQ(k.getOptions().verbose, o2.verbose, "verbose after a change"); VEQ(k.getOptions().vyVariance, o2.vyVariance, "vyVariance after a change"); VEQ(k.getOptions().rlwVariance, c.qRl, "rlwVariance after a change of others");
  // every value is needed but the defaulted one
  s.nontrivial(c.noTransOrder);
}
