#pragma once
namespace aslam { namespace backend {
struct SolutionReturnValue {
  SolutionReturnValue() : iterations(0), failedIterations(0), JStart(0), JFinal(0), lambda(0), dXFinal(0), dJFinal(0), linearSolverFailure(false) {}
  int iterations, failedIterations;
  double JStart, JFinal, lambda, dXFinal, dJFinal;
  bool linearSolverFailure;
};
} }
