#pragma once
#include <boost/shared_ptr.hpp>
#include <aslam/backend/LinearSystemSolver.hpp>
namespace aslam { namespace backend {
class TrustRegionPolicy {
 public:
  virtual ~TrustRegionPolicy() {}
  void setSolver(boost::shared_ptr<LinearSystemSolver> s) { _solver = s; }
  virtual bool solveSystem(double J, bool previousFailed, int nThreads, Eigen::VectorXd& dx) = 0;
  virtual bool revertOnFailure() = 0;
  virtual bool requiresAugmentedDiagonal() const = 0;
  virtual void optimizationStarting(double) {}
 protected:
  boost::shared_ptr<LinearSystemSolver> _solver;
};
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy {
 public:
  bool solveSystem(double, bool, int nThreads, Eigen::VectorXd& dx) override { _solver->buildSystem(nThreads, true); return _solver->solveSystem(dx); }
  bool revertOnFailure() override { return false; }
  bool requiresAugmentedDiagonal() const override { return false; }
};
} }
