// configurations of the egomotion calibrator
#pragma once
#include "cal.hpp"
#include <unordered_map>
#include <tuple>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/CalibratorOptions.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
namespace egoconf {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::V3;
struct Sensor { size_t idx; V3 r, ypr; int t; bool tActive, rActive, RActive; };
struct Conf {
  double window, tLambda, rLambda, delta = -1e18; size_t reference;
  bool verbose = false, noTransOrder = false, columnScaling = true, validity = false; int knots, tOrder, rOrder, delayBound, iterations = 0;
  std::vector<Sensor> sensors;
};
inline Conf draw(vpt::Src& s) {
  Conf c;
  c.window = s.real(0.1, 100); c.tLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1); c.rLambda = s.flip() ? 0 : s.logReal(1e-6, 1e-1);
  c.columnScaling = s.flip(); c.delta = s.flip() ? -1e18 : s.real(0, 1);
  c.knots = (int)s.range(1, 8); c.tOrder = (int)s.range(3, 6); c.rOrder = (int)s.range(3, 6); c.delayBound = (int)s.range(0, 60000000);
  c.reference = s.flip() ? 0 : s.index(6);
  const size_t n = 1 + s.index(3); std::set<size_t> used = {c.reference};
  for (size_t i = 0; i < n; ++i) {
    Sensor x; do x.idx = s.index(8); while (used.count(x.idx) && used.size() < 8); if (!used.insert(x.idx).second) throw vpt::Discard();
    x.r = V3(s.real(-2, 2), s.real(-2, 2), s.real(-2, 2)); x.ypr = s.chance(1, 4) ? V3(0, 0, 0) : V3(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3)); x.t = (int)s.range(-80000000, 80000000);
    x.tActive = s.flip(); x.rActive = s.flip(); x.RActive = s.flip();
    c.sensors.push_back(x);
  }
  return c;
}
inline void write(const Conf& c, sm::PropertyTree& t) {
  cal::estimatorConfig(t, c.iterations, c.columnScaling, false, c.validity, c.delta);
  t.setDouble("windowDuration", c.window); t.setBool("verbose", c.verbose); t.setInt("delayBound", c.delayBound); t.setInt("referenceSensor", (int)c.reference);
  t.setDouble("splines/transSplineLambda", c.tLambda); t.setDouble("splines/rotSplineLambda", c.rLambda); t.setInt("splines/splineKnotsPerSecond", c.knots);
  if (!c.noTransOrder) t.setInt("splines/transSplineOrder", c.tOrder);
  t.setInt("splines/rotSplineOrder", c.rOrder);
  t.setInt("sensors/num", (int)c.sensors.size());
  for (size_t i = 0; i < c.sensors.size(); ++i) {
    const Sensor& x = c.sensors[i]; const std::string p = "sensors/sensor_" + std::to_string(i) + "/", tr = p + "extrinsics/translation/", ro = p + "extrinsics/rotation/";
    t.setInt(p + "idx", (int)x.idx); t.setInt(p + "intrinsics/timeDelay", x.t); t.setBool(p + "intrinsics/timeDelayActive", x.tActive);
    t.setDouble(tr + "x", x.r(0)); t.setDouble(tr + "y", x.r(1)); t.setDouble(tr + "z", x.r(2)); t.setBool(tr + "active", x.rActive);
    t.setDouble(ro + "yaw", x.ypr(0)); t.setDouble(ro + "pitch", x.ypr(1)); t.setDouble(ro + "roll", x.ypr(2)); t.setBool(ro + "active", x.RActive);
  }
}
inline Eigen::VectorXd parameters(const Sensor& x) { return cal::vec({x.t * 1e-9, x.r(0), x.r(1), x.r(2), x.ypr(0), x.ypr(1), x.ypr(2)}); }
inline ab::DesignVariable* time(ac::DesignVariables& v, size_t idx) { return std::get<0>(v.calibrationVariables_.at(idx)).get(); }
inline ab::DesignVariable* position(ac::DesignVariables& v, size_t idx) { return std::get<1>(v.calibrationVariables_.at(idx)).get(); }
inline ab::DesignVariable* attitude(ac::DesignVariables& v, size_t idx) { return std::get<2>(v.calibrationVariables_.at(idx)).get(); }
}  // namespace egoconf
