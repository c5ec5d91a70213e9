#pragma once
// Dense reference implementation of the marginal truncated-SVD least-squares solver: the columns from the
// marginalization index on ("theta") are solved by truncated SVD of the Schur complement of the columns before it
// ("psi"), which are handled by a rank-revealing QR.
#include <cmath>
#include <cstddef>
#include <iostream>
#include <stdexcept>
#include <Eigen/Core>
#include <cholmod.h>
#include <truncated-svd-solver/tsvd-solver-options.h>
namespace truncated_svd_solver {
class TruncatedSvdSolver {
 public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& o = Options()) : tsvd_options_(o) { cholmod_l_start(&cholmod_); reset(); }
  virtual ~TruncatedSvdSolver() { cholmod_l_finish(&cholmod_); }
  TruncatedSvdSolver(const TruncatedSvdSolver&) = delete;
  TruncatedSvdSolver& operator=(const TruncatedSvdSolver&) = delete;
  const Options& getOptions() const { return tsvd_options_; }
  Options& getOptions() { return tsvd_options_; }
  std::ptrdiff_t getMargStartIndex() const { return margStartIndex_; }
  void setMargStartIndex(std::ptrdiff_t j) { margStartIndex_ = j; }
  std::ptrdiff_t getSVDRank() const { return svdRank_; }
  std::ptrdiff_t getSVDRankDeficiency() const { return svdDef_; }
  std::ptrdiff_t getQRRank() const { return qrRank_; }
  std::ptrdiff_t getQRRankDeficiency() const { return qrDef_; }
  double getSVDTolerance() const { return svdTol_; }
  double getQRTolerance() const { return qrTol_; }
  double getSvGap() const { return 0; }
  const Eigen::VectorXd& getSingularValues() const { return sv_; }
  const Eigen::MatrixXd& getMatrixU() const { return U_; }
  const Eigen::MatrixXd& getMatrixV() const { return V_; }
  Eigen::MatrixXd getNullSpace() const { return V_.rightCols(svdDef_ > 0 ? svdDef_ : 0); }
  Eigen::MatrixXd getRowSpace() const { return V_.leftCols(svdRank_ > 0 ? svdRank_ : 0); }
  Eigen::MatrixXd getCovariance() const;
  Eigen::MatrixXd getRowSpaceCovariance() const {
    if (svdRank_ <= 0) return Eigen::MatrixXd();
    return sv_.head(svdRank_).cwiseInverse().asDiagonal();
  }
  double getSingularValuesLog2Sum() const {
    double s = 0;
    for (std::ptrdiff_t i = 0; i < svdRank_; ++i) s += std::log2(sv_[i]);
    return s;
  }
  size_t getPeakMemoryUsage() const { return peak_; }
  size_t getMemoryUsage() const { return mem_; }
  double getNumFlops() const { return flops_; }
  double getLinearSolverTime() const { return 0; }
  double getMarginalAnalysisTime() const { return 0; }
  double getSymbolicFactorizationTime() const { return 0; }
  double getNumericFactorizationTime() const { return 0; }
  void clear() { reset(); }
  void solve(cholmod_sparse* A, cholmod_dense* b, size_t j, Eigen::VectorXd& x);
  void analyzeMarginal(cholmod_sparse* A, size_t j);
 protected:
  Options tsvd_options_;
  cholmod_common cholmod_;
  std::ptrdiff_t margStartIndex_ = 0;
 private:
  void reset() { svdRank_ = svdDef_ = qrRank_ = qrDef_ = -1; svdTol_ = 0; qrTol_ = -1; sv_.resize(0); U_.resize(0, 0); V_.resize(0, 0); Q_.resize(0, 0); peak_ = mem_ = 0; flops_ = 0; }
  double qrThreshold(const Eigen::MatrixXd& P) const { return tsvd_options_.qrTol >= 0 ? tsvd_options_.qrTol : 20.0 * (P.rows() + P.cols()) * tsvd_options_.epsQR; }
  Eigen::VectorXd proj(const Eigen::VectorXd& b) const;
  void analyze(const Eigen::MatrixXd& M, std::ptrdiff_t j);
  std::ptrdiff_t svdRank_, svdDef_, qrRank_, qrDef_;
  double svdTol_, qrTol_, flops_;
  size_t peak_, mem_;
  Eigen::VectorXd sv_;
  Eigen::MatrixXd U_, V_, Q_;
};
}
