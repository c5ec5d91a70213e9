#include "oracle.hpp"
#include <cmath>
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#include <Eigen/QR>
namespace est {
Info analyse(const Eigen::MatrixXd& J, std::ptrdiff_t m) {
  Info r;
  Eigen::MatrixXd P = J.leftCols(m), T = J.rightCols(J.cols() - m), R = T;
  r.psiCols = m;
  auto classify = [&](const Eigen::VectorXd& s, double scale) {
    std::ptrdiff_t k = 0;
    for (int i = 0; i < s.size(); ++i) {
      if (s[i] > 1e-8 * scale) k++;
      else if (s[i] > 1e-13 * scale) r.ambiguous = true;
    }
    return k;
  };
  if (m > 0) {
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(P, Eigen::ComputeThinU | Eigen::ComputeThinV);
    Eigen::VectorXd s = svd.singularValues();
    r.psiRank = s.size() && s[0] > 0 ? classify(s, s[0]) : 0;
    Eigen::MatrixXd U = svd.matrixU().leftCols(r.psiRank);
    R = T - U * (U.transpose() * T);
  }
  r.Omega = R.transpose() * R;
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(r.Omega);
  r.sv = es.eigenvalues().reverse().cwiseMax(0.0);
  r.V = es.eigenvectors().rowwise().reverse();
  double top = r.sv.size() ? r.sv[0] : 0;
  double tn = T.squaredNorm();
  if (top <= 1e-9 * tn && tn > 0) r.ambiguous = true;  // theta is entirely explained by psi: only rounding is left
  r.rank = top > 0 ? classify(r.sv, top) : 0;
  for (std::ptrdiff_t i = 0; i < r.rank; ++i) r.log2 += std::log2(r.sv[i]);
  return r;
}
Eigen::MatrixXd pinvSym(const Info& i) {
  Eigen::MatrixXd r = Eigen::MatrixXd::Zero(i.Omega.rows(), i.Omega.rows());
  for (std::ptrdiff_t k = 0; k < i.rank; ++k) r += i.V.col(k) * i.V.col(k).transpose() / i.sv[k];
  return r;
}
Eigen::VectorXd leastSquares(const Eigen::MatrixXd& A, const Eigen::VectorXd& b) {
  Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> q; q.setThreshold(1e-10); q.compute(A);
  return q.solve(b);
}
}
