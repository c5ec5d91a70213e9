// "finds" in an image what the image says is there
#pragma once
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam/cameras/GridCalibrationTargetObservation.hpp>
namespace aslam { namespace cameras {
struct SeenTarget : public cv::Seen {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  bool found = true, initializes = true;
  Eigen::VectorXd p, d;  // what the geometry is initialized with
  int ru = 0, rv = 0;
  sm::kinematics::Transformation pose;
  std::map<size_t, Eigen::Vector2d> corners;
};
class GridDetector {
 public:
  struct GridDetectorOptions { bool plotCornerReprojection = false, imageStepping = false, filterCornerOutliers = false; double filterCornerSigmaThreshold = 2.0, filterCornerMinReprojError = 0.2; };
  GridDetector(boost::shared_ptr<CameraGeometryBase> g, boost::shared_ptr<GridCalibrationTargetCheckerboard> t, const GridDetectorOptions& o) : geometry(g), target(t), options(o) {}
  bool initCameraGeometryFromObservation(const cv::Mat& image) {
    auto s = dynamic_cast<SeenTarget*>(image.seen.get());
    if (!s || !s->initializes) return false;
    geometry->p = s->p; geometry->d = s->d; geometry->ru_ = s->ru; geometry->rv_ = s->rv;
    return true;
  }
  bool findTarget(const cv::Mat& image, const aslam::Time& stamp, GridCalibrationTargetObservation& o) const {
    auto s = dynamic_cast<SeenTarget*>(image.seen.get());
    if (!s || !s->found) return false;
    o.corners = s->corners; o.pose = s->pose; o.img = image; o.stamp = stamp;
    return true;
  }
  boost::shared_ptr<CameraGeometryBase> geometry; boost::shared_ptr<GridCalibrationTargetCheckerboard> target; const GridDetectorOptions options;
};
} }
