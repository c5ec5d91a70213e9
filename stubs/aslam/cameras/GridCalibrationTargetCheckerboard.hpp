#pragma once
#include <Eigen/Core>
namespace aslam { namespace cameras {
class GridCalibrationTargetCheckerboard {
 public:
  struct CheckerboardOptions { bool useAdaptiveThreshold = true, normalizeImage = true, performFastCheck = true, filterQuads = false, doSubpixelRefinement = true, showExtractionVideo = false; };
  GridCalibrationTargetCheckerboard(size_t r, size_t c, double rs, double cs, const CheckerboardOptions& o) : rows(r), cols(c), rowSpacing(rs), colSpacing(cs), options(o) {}
  size_t size() const { return rows * cols; }
  Eigen::Vector3d point(size_t i) const { return Eigen::Vector3d(rowSpacing * (double)(i / cols), colSpacing * (double)(i % cols), 0.0); }
  const size_t rows, cols; const double rowSpacing, colSpacing; const CheckerboardOptions options;
};
} }
