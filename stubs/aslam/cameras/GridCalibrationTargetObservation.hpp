#pragma once
#include <map>
#include <Eigen/Core>
#include <opencv2/core/core.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/Time.hpp>
namespace aslam { namespace cameras {
class GridCalibrationTargetObservation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  bool imagePoint(size_t i, Eigen::Vector2d& out) const { auto it = corners.find(i); if (it == corners.end()) { out.setZero(); return false; } out = it->second; return true; }
  const sm::kinematics::Transformation& T_t_c() const { return pose; }
  const cv::Mat& image() const { return img; }
  aslam::Time time() const { return stamp; }
  std::map<size_t, Eigen::Vector2d> corners;
  sm::kinematics::Transformation pose;
  cv::Mat img;
  aslam::Time stamp;
};
} }
