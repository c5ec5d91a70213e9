// configurations of the car calibrator
#pragma once
#include "cal.hpp"
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/CarCalibratorOptions.h>
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
namespace carconf {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::V3;
struct Conf {
  double window, tLambda, rLambda, vTol, qDmi, qFl, qFr, qRl, qRr, qSt, qVy, qVz, pDmi, pFl, pFr, pRl, pRr, delta = -1e18;
  bool verbose = false, usePose = true, useVelocities = true, delaysActive = true, noTransOrder = false, columnScaling = true, validity = false; int knots, tOrder, rOrder, cutoff, delayBound, iterations = 0;
  double er, ef, L, a[4], krl, krr, kfl, kfr, kdmi; V3 r, ypr; int tr, tf, ts, td;
};
inline Conf draw(vpt::Src& s) {
  Conf c;
  c.window = s.real(0.1, 100); c.tLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1); c.rLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1); c.vTol = s.real(0.05, 2);
  for (double* q : {&c.qDmi, &c.qFl, &c.qFr, &c.qRl, &c.qRr, &c.qSt, &c.qVy, &c.qVz}) *q = s.logReal(1e-3, 10);
  for (double* q : {&c.pDmi, &c.pFl, &c.pFr, &c.pRl, &c.pRr}) *q = s.unit();
  c.usePose = s.flip(); c.useVelocities = s.flip(); c.delaysActive = s.flip(); c.columnScaling = s.flip(); c.delta = s.flip() ? -1e18 : s.real(0, 1);
  c.knots = (int)s.range(1, 8); c.tOrder = (int)s.range(3, 6); c.rOrder = (int)s.range(3, 6); c.cutoff = (int)s.range(0, 4); c.delayBound = (int)s.range(0, 60000000);
  c.er = s.real(0.5, 1.5); c.ef = s.real(0.5, 1.5); c.L = s.real(1.5, 4);
  c.a[0] = s.real(-0.1, 0.1); c.a[1] = s.real(0.3, 2); c.a[2] = s.real(-0.05, 0.05); c.a[3] = s.real(-0.02, 0.02);
  for (double* k : {&c.krl, &c.krr, &c.kfl, &c.kfr, &c.kdmi}) *k = s.real(0.5, 2);
  c.r = V3(s.real(-2, 2), s.real(-2, 2), s.real(-2, 2)); c.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3));
  for (int* t : {&c.tr, &c.tf, &c.ts, &c.td}) *t = (int)s.range(-80000000, 80000000);
  return c;
}
inline void write(const Conf& c, sm::PropertyTree& t) {
  cal::estimatorConfig(t, c.iterations, c.columnScaling, c.verbose, c.validity, c.delta);
  t.setDouble("windowDuration", c.window); t.setBool("verbose", c.verbose); t.setBool("usePose", c.usePose); t.setBool("useVelocities", c.useVelocities);
  t.setDouble("splines/transSplineLambda", c.tLambda); t.setDouble("splines/rotSplineLambda", c.rLambda); t.setInt("splines/splineKnotsPerSecond", c.knots);
  if (!c.noTransOrder) t.setInt("splines/transSplineOrder", c.tOrder);
  t.setInt("splines/rotSplineOrder", c.rOrder);
  const std::string se = "odometry/sensors/", in = "odometry/intrinsics/", ex = "odometry/extrinsics/", td = "odometry/timeDelays/";
  t.setInt(se + "wheelSpeedSensorCutoff", c.cutoff); t.setDouble(se + "linearVelocityTolerance", c.vTol);
  t.setDouble(se + "dmi/noise/dmiPercentError", c.pDmi); t.setDouble(se + "dmi/noise/dmiVariance", c.qDmi);
  t.setDouble(se + "fws/noise/flwPercentError", c.pFl); t.setDouble(se + "fws/noise/flwVariance", c.qFl); t.setDouble(se + "fws/noise/frwPercentError", c.pFr); t.setDouble(se + "fws/noise/frwVariance", c.qFr);
  t.setDouble(se + "rws/noise/rlwPercentError", c.pRl); t.setDouble(se + "rws/noise/rlwVariance", c.qRl); t.setDouble(se + "rws/noise/rrwPercentError", c.pRr); t.setDouble(se + "rws/noise/rrwVariance", c.qRr);
  t.setDouble(se + "st/noise/steeringVariance", c.qSt); t.setDouble("odometry/constraints/noise/vyVariance", c.qVy); t.setDouble("odometry/constraints/noise/vzVariance", c.qVz);
  t.setInt(td + "rearWheels", c.tr); t.setInt(td + "frontWheels", c.tf); t.setInt(td + "steering", c.ts); t.setInt(td + "dmi", c.td); t.setInt(td + "delayBound", c.delayBound); t.setBool(td + "active", c.delaysActive);
  t.setDouble(in + "wheelBase", c.L); t.setDouble(in + "halfRearTrack", c.er); t.setDouble(in + "halfFrontTrack", c.ef);
  for (int i = 0; i < 4; ++i) t.setDouble(in + "steeringCoefficient" + std::to_string(i), c.a[i]);
  t.setDouble(in + "rlwCoefficient", c.krl); t.setDouble(in + "rrwCoefficient", c.krr); t.setDouble(in + "flwCoefficient", c.kfl); t.setDouble(in + "frwCoefficient", c.kfr); t.setDouble(in + "dmiCoefficient", c.kdmi);
  t.setDouble(ex + "translation/x", c.r(0)); t.setDouble(ex + "translation/y", c.r(1)); t.setDouble(ex + "translation/z", c.r(2));
  t.setDouble(ex + "rotation/yaw", c.ypr(0)); t.setDouble(ex + "rotation/pitch", c.ypr(1)); t.setDouble(ex + "rotation/roll", c.ypr(2));
}
// the calibration variables in the order of a batch
inline std::vector<ab::DesignVariable*> variables(ac::OdometryDesignVariables& v) {
  return {v.e_r.get(), v.e_f.get(), v.L.get(), v.a.get(), v.k_rl.get(), v.k_rr.get(), v.k_fl.get(), v.k_fr.get(), v.k_dmi.get(), v.v_r_vr.get(), v.v_R_r.get(), v.t_r.get(), v.t_f.get(), v.t_s.get(), v.t_dmi.get()};
}
inline const std::vector<std::string>& names() { static const std::vector<std::string> n = {"e_r", "e_f", "L", "a", "k_rl", "k_rr", "k_fl", "k_fr", "k_dmi", "v_r_vr", "v_R_r", "t_r", "t_f", "t_s", "t_dmi"}; return n; }
// the coordinates that are estimated, as the calibrator calls them
inline std::vector<std::string> observed(bool delays) {
  std::vector<std::string> n = {"e_r", "e_f", "L", "a0", "a1", "a2", "a3", "k_rl", "k_rr", "k_fl", "k_fr", "k_dmi"};
  if (delays) for (const char* t : {"t_r", "t_f", "t_s", "t_dmi"}) n.push_back(t);
  return n;
}
// the parameter vector of a configuration
inline Eigen::VectorXd parameters(const Conf& c) {
  return cal::vec({c.er, c.ef, c.L, c.krl, c.krr, c.kfl, c.kfr, c.kdmi, c.a[0], c.a[1], c.a[2], c.a[3], c.r(0), c.r(1), c.r(2), c.ypr(0), c.ypr(1), c.ypr(2), c.tr * 1e-9, c.tf * 1e-9, c.ts * 1e-9, c.td * 1e-9});
}
}  // namespace carconf
