#pragma once
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/ErrorTerm.hpp>
namespace aslam { namespace backend {
template <typename I = std::ptrdiff_t> class CompressedColumnJacobianTransposeBuilder {
 public:
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets) {
    _dvs = dvs; _ets = ets; _rows = 0; _cols = 0;
    for (auto d : dvs) _cols += d->minimalDimensions();
    for (auto e : ets) _rows += e->dimension();
    _Jt.fromDense(Eigen::MatrixXd::Zero(_cols, _rows));
  }
  void buildSystem(size_t, bool useM) {
    Eigen::MatrixXd Jt = Eigen::MatrixXd::Zero(_cols, _rows);
    std::vector<std::vector<bool> > pat(_rows, std::vector<bool>(_cols, false));
    for (auto e : _ets) {
      JacobianContainer J((int)e->dimension());
      e->getWeightedJacobians(J, useM);
      for (auto& kv : J) {
        Jt.block(kv.first->columnBase(), e->rowBase(), kv.second.cols(), kv.second.rows()) += kv.second.transpose();
        for (int r = 0; r < kv.second.rows(); ++r) for (int c = 0; c < kv.second.cols(); ++c) pat[e->rowBase() + r][kv.first->columnBase() + c] = true;
      }
    }
    _Jt.fromDense(Jt, &pat);
  }
  CompressedColumnMatrix<I>& J_transpose() { return _Jt; }
  const CompressedColumnMatrix<I>& J_transpose() const { return _Jt; }
 private:
  std::vector<DesignVariable*> _dvs;
  std::vector<ErrorTerm*> _ets;
  size_t _rows = 0, _cols = 0;
  CompressedColumnMatrix<I> _Jt;
};
} }
