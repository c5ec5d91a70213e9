// configurations of the time-delay calibrator
#pragma once
#include "cal.hpp"
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/CalibratorOptions.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
namespace tdconf {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::V3;
struct Conf {
  double window, tLambda, rLambda, ql, qr, qVy, qVz, delta = -1e18;
  bool verbose = false, delaysActive = true, rActive = true, RActive = true, noTransOrder = false, columnScaling = true, validity = false; int knots, tOrder, rOrder, delayBound, iterations = 0;
  double b, kl, kr; V3 r, ypr; int tl, tr;
};
inline Conf draw(vpt::Src& s) {
  Conf c;
  c.window = s.real(0.1, 100); c.tLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1); c.rLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1);
  for (double* q : {&c.ql, &c.qr, &c.qVy, &c.qVz}) *q = s.logReal(1e-3, 10);
  c.delaysActive = s.flip(); c.rActive = s.flip(); c.RActive = s.flip(); c.columnScaling = s.flip(); c.delta = s.flip() ? -1e18 : s.real(0, 1);
  c.knots = (int)s.range(1, 8); c.tOrder = (int)s.range(3, 6); c.rOrder = (int)s.range(3, 6); c.delayBound = (int)s.range(0, 60000000);
  c.b = s.real(0.3, 1.5); c.kl = s.real(0.5, 2); c.kr = s.real(0.5, 2);
  c.r = V3(s.real(-2, 2), s.real(-2, 2), s.real(-2, 2)); c.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3));
  for (int* t : {&c.tl, &c.tr}) *t = (int)s.range(-80000000, 80000000);
  return c;
}
inline void write(const Conf& c, sm::PropertyTree& t) {
  cal::estimatorConfig(t, c.iterations, c.columnScaling, false, c.validity, c.delta);
  t.setDouble("windowDuration", c.window); t.setBool("verbose", c.verbose); t.setInt("delayBound", c.delayBound);
  t.setDouble("splines/transSplineLambda", c.tLambda); t.setDouble("splines/rotSplineLambda", c.rLambda); t.setInt("splines/splineKnotsPerSecond", c.knots);
  if (!c.noTransOrder) t.setInt("splines/transSplineOrder", c.tOrder);
  t.setInt("splines/rotSplineOrder", c.rOrder);
  const std::string in = "odometry/intrinsics/", ex = "odometry/extrinsics/", no = "odometry/sensors/wss/noise/";
  t.setDouble(no + "lwVariance", c.ql); t.setDouble(no + "rwVariance", c.qr); t.setDouble("odometry/constraints/noise/vyVariance", c.qVy); t.setDouble("odometry/constraints/noise/vzVariance", c.qVz);
  t.setDouble(in + "halfWheelBase", c.b); t.setDouble(in + "lwCoefficient", c.kl); t.setDouble(in + "rwCoefficient", c.kr); t.setInt(in + "lwTimeDelay", c.tl); t.setInt(in + "rwTimeDelay", c.tr); t.setBool(in + "timeDelaysActive", c.delaysActive);
  t.setDouble(ex + "translation/x", c.r(0)); t.setDouble(ex + "translation/y", c.r(1)); t.setDouble(ex + "translation/z", c.r(2)); t.setBool(ex + "translation/active", c.rActive);
  t.setDouble(ex + "rotation/yaw", c.ypr(0)); t.setDouble(ex + "rotation/pitch", c.ypr(1)); t.setDouble(ex + "rotation/roll", c.ypr(2)); t.setBool(ex + "rotation/active", c.RActive);
}
inline std::vector<ab::DesignVariable*> variables(ac::OdometryDesignVariables& v) { return {v.b.get(), v.k_l.get(), v.t_l.get(), v.k_r.get(), v.t_r.get(), v.v_r_vp.get(), v.v_R_p.get()}; }
inline const std::vector<std::string>& names() { static const std::vector<std::string> n = {"b", "k_l", "t_l", "k_r", "t_r", "v_r_vp", "v_R_p"}; return n; }
inline bool active(const Conf& c, size_t i) { return i == 2 || i == 4 ? c.delaysActive : i == 5 ? c.rActive : i == 6 ? c.RActive : true; }
inline std::vector<std::string> observed(const Conf& c) {
  std::vector<std::string> n;
  for (size_t i = 0; i < 7; ++i) if (active(c, i)) { if (i < 5) n.push_back(names()[i]); else for (const char* k : {"_1", "_2", "_3"}) n.push_back(names()[i] + k); }
  return n;
}
inline Eigen::VectorXd parameters(const Conf& c) { return cal::vec({c.b, c.kl, c.tl * 1e-9, c.kr, c.tr * 1e-9, c.r(0), c.r(1), c.r(2), c.ypr(0), c.ypr(1), c.ypr(2)}); }
}  // namespace tdconf
