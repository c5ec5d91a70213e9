#pragma once
#include <limits>
namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  bool columnScaling = false;
  double epsNorm = std::numeric_limits<double>::epsilon();
  double epsSVD = std::numeric_limits<double>::epsilon();
  double epsQR = std::numeric_limits<double>::epsilon();
  double svdTol = -1.0;
  double qrTol = -1.0;
  bool verbose = false;
};
}
