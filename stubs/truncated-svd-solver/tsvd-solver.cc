#include <Eigen/Core>
#include <Eigen/QR>
#include <Eigen/SVD>
#include <truncated-svd-solver/tsvd-solver.h>
#include <truncated-svd-solver/linear-algebra-helpers.h>
namespace truncated_svd_solver {
void TruncatedSvdSolver::solve(cholmod_sparse* A, cholmod_dense* b, size_t j, Eigen::VectorXd& x) {
    Eigen::MatrixXd M = denseOf(A);
    Eigen::VectorXd rhs = Eigen::Map<const Eigen::VectorXd>((const double*)b->x, b->nrow);
    Eigen::VectorXd G = Eigen::VectorXd::Ones(M.cols());
    if (tsvd_options_.columnScaling)
      for (int c = 0; c < M.cols(); ++c) { double n = M.col(c).norm(); G[c] = n > tsvd_options_.epsNorm * M.rows() ? 1.0 / n : 0.0; }
    M = (M * G.asDiagonal()).eval();
    analyze(M, (std::ptrdiff_t)j);
    Eigen::MatrixXd P = M.leftCols(j), T = M.rightCols(M.cols() - j);
    Eigen::VectorXd th = Eigen::VectorXd::Zero(T.cols());
    Eigen::VectorXd rr = proj(rhs);
    if (svdRank_ > 0) {
      Eigen::VectorXd t = V_.leftCols(svdRank_).transpose() * (T.transpose() * rr);
      th = V_.leftCols(svdRank_) * (sv_.head(svdRank_).cwiseInverse().asDiagonal() * t);
    }
    Eigen::VectorXd ps = Eigen::VectorXd::Zero(j);
    if (j > 0) {
      if (qrRank_ > 0) {
        Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> qr; qr.setThreshold(qrThreshold(P)); qr.compute(P);
        ps = qr.solve(rhs - T * th);
      }
    }
    x.resize(M.cols());
    x.head(j) = ps; x.tail(M.cols() - j) = th;
    x = (G.asDiagonal() * x).eval();
  }
void TruncatedSvdSolver::analyzeMarginal(cholmod_sparse* A, size_t j) { analyze(denseOf(A), (std::ptrdiff_t)j); }
void TruncatedSvdSolver::analyze(const Eigen::MatrixXd& M, std::ptrdiff_t j) {
    if (j < 0 || j > M.cols()) throw std::runtime_error("marginalization index out of range");
    Eigen::MatrixXd P = M.leftCols(j), T = M.rightCols(M.cols() - j);
    Q_.resize(M.rows(), 0);
    qrRank_ = 0; qrTol_ = 0;
    if (j > 0) {
      Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr; qr.setThreshold(qrThreshold(P)); qr.compute(P);
      qrRank_ = qr.rank(); qrTol_ = qrThreshold(P);
      Eigen::MatrixXd Qf = qr.householderQ() * Eigen::MatrixXd::Identity(M.rows(), std::min<Eigen::Index>(M.rows(), P.cols()));
      Q_ = Qf.leftCols(qrRank_);
    }
    qrDef_ = j - qrRank_;
    Eigen::MatrixXd Rt = T;
    if (Q_.cols()) Rt = T - Q_ * (Q_.transpose() * T);
    Eigen::MatrixXd Om = Rt.transpose() * Rt;
    if (Om.cols() == 0) { sv_.resize(0); U_.resize(0, 0); V_.resize(0, 0); svdRank_ = 0; svdDef_ = 0; svdTol_ = 0; return; }
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(Om, Eigen::ComputeFullU | Eigen::ComputeFullV);
    sv_ = svd.singularValues(); U_ = svd.matrixU(); V_ = svd.matrixV();
    svdTol_ = tsvd_options_.svdTol >= 0 ? tsvd_options_.svdTol : 20.0 * Om.rows() * tsvd_options_.epsSVD * (sv_.size() ? sv_[0] : 0.0);
    svdRank_ = 0;
    for (int i = 0; i < sv_.size(); ++i) if (sv_[i] > svdTol_) svdRank_++;
    svdDef_ = sv_.size() - svdRank_;
    mem_ = sizeof(double) * (size_t)(M.size() + Om.size()); peak_ = std::max(peak_, mem_); flops_ = 2.0 * M.rows() * M.cols() * M.cols();
  }
Eigen::MatrixXd TruncatedSvdSolver::getCovariance() const {
    if (svdRank_ <= 0) return Eigen::MatrixXd::Zero(V_.rows(), V_.rows());
    Eigen::MatrixXd R = getRowSpace();
    return R * sv_.head(svdRank_).cwiseInverse().asDiagonal() * R.transpose();
  }
Eigen::VectorXd TruncatedSvdSolver::proj(const Eigen::VectorXd& b) const { return Q_.cols() ? Eigen::VectorXd(b - Q_ * (Q_.transpose() * b)) : b; }
}
