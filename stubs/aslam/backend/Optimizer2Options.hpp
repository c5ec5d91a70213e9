#pragma once
#include <aslam/backend/TrustRegionPolicy.hpp>
namespace aslam { namespace backend {
struct Optimizer2Options {
  Optimizer2Options() : convergenceDeltaJ(1e-3), convergenceDeltaX(1e-3), maxIterations(20), doSchurComplement(false), verbose(false), linearSolverMaximumFails(0), numThreadsError(4), numThreadsJacobian(4), nThreads(4) {}
  double convergenceDeltaJ, convergenceDeltaX;
  int maxIterations;
  bool doSchurComplement, verbose;
  int linearSolverMaximumFails;
  size_t numThreadsError, numThreadsJacobian;
  int nThreads;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
