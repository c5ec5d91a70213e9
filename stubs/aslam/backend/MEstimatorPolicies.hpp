#pragma once
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
class BlakeZissermanMEstimator : public MEstimator {
 public:
  explicit BlakeZissermanMEstimator(size_t df) : df(df) {}
  double getWeight(double e2) const override { return 1.0 / (1.0 + std::exp(std::min(50.0, e2 / 2 - 6))); }
  std::string name() const override { return "Blake-Zisserman"; }
  const size_t df;
};
} }
