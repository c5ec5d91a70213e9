// dense linear-algebra oracle (implemented in oracle.cc, compiled apart to keep the build short)
#pragma once
#include <cstddef>
#include <Eigen/Core>
namespace est {
struct Info {
  Eigen::MatrixXd Omega, V;  // Omega: information of theta once psi is eliminated
  Eigen::VectorXd sv;
  std::ptrdiff_t rank = 0, psiRank = 0, psiCols = 0;
  double log2 = 0;
  bool ambiguous = false;    // a rank decision is within reach of rounding
};
Info analyse(const Eigen::MatrixXd& J, std::ptrdiff_t m);
Eigen::MatrixXd pinvSym(const Info& i);
Eigen::VectorXd leastSquares(const Eigen::MatrixXd& A, const Eigen::VectorXd& b);  // minimum norm
}
