#pragma once
#include <cstddef>
#include <ostream>
#include <vector>
#include <cholmod.h>
#include <Eigen/Core>
namespace aslam { namespace backend {
template <typename I = std::ptrdiff_t> class CompressedColumnMatrix {
 public:
  typedef I index_t;
  CompressedColumnMatrix() : _rows(0), _cols(0), _p(1, 0) {}
  size_t rows() const { return _rows; }
  size_t cols() const { return _cols; }
  size_t nnz() const { return _x.size(); }
  const std::vector<double>& values() const { return _x; }
  const std::vector<I>& row_ind() const { return _i; }
  const std::vector<I>& col_ptr() const { return _p; }
  void fromDense(const Eigen::MatrixXd& M, const std::vector<std::vector<bool> >* pattern = nullptr) {
    _rows = M.rows(); _cols = M.cols(); _i.clear(); _x.clear(); _p.assign(1, 0);
    for (int c = 0; c < M.cols(); ++c) {
      for (int r = 0; r < M.rows(); ++r)
        if (pattern ? (*pattern)[c][r] : M(r, c) != 0) { _i.push_back(r); _x.push_back(M(r, c)); }
      _p.push_back((I)_i.size());
    }
  }
  void toDenseInto(Eigen::MatrixXd& M) const {
    M = Eigen::MatrixXd::Zero(_rows, _cols);
    for (size_t c = 0; c < _cols; ++c) for (I k = _p[c]; k < _p[c + 1]; ++k) M(_i[k], c) = _x[k];
  }
  Eigen::MatrixXd toDense() const { Eigen::MatrixXd M; toDenseInto(M); return M; }
  void getView(cholmod_sparse* S) {
    _x.reserve(1); _i.reserve(1);  // CHOLMOD wants arrays even when there is nothing in them
    S->nrow = _rows; S->ncol = _cols; S->nzmax = _x.size();
    S->p = _p.data(); S->i = _i.data(); S->nz = nullptr; S->x = _x.data(); S->z = nullptr;
    S->stype = 0; S->itype = sizeof(I) == 8 ? CHOLMOD_LONG : CHOLMOD_INT; S->xtype = CHOLMOD_REAL; S->dtype = CHOLMOD_DOUBLE;
    S->sorted = 1; S->packed = 1;
  }
  // row, column (from one) and value of every entry
  void writeMATLAB(std::ostream& o) const {
    o.precision(20);
    for (size_t c = 0; c < _cols; ++c) for (I k = _p[c]; k < _p[c + 1]; ++k) o << _i[k] + 1 << " " << c + 1 << " " << _x[k] << std::endl;
  }
  void clear() { _rows = _cols = 0; _i.clear(); _x.clear(); _p.assign(1, 0); }
 private:
  size_t _rows, _cols;
  std::vector<I> _i, _p;
  std::vector<double> _x;
};
} }
