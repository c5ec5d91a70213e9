#pragma once
#include <cholmod.h>
#include <Eigen/Core>
namespace truncated_svd_solver {
inline void eigenDenseToCholmodDenseView(const Eigen::VectorXd& v, cholmod_dense* d) {
  d->nrow = v.size(); d->ncol = 1; d->nzmax = v.size(); d->d = v.size();
  d->x = const_cast<double*>(v.data()); d->z = nullptr; d->xtype = CHOLMOD_REAL; d->dtype = CHOLMOD_DOUBLE;
}
inline Eigen::MatrixXd denseOf(const cholmod_sparse* S) {
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(S->nrow, S->ncol);
  const SuiteSparse_long* p = (const SuiteSparse_long*)S->p; const SuiteSparse_long* i = (const SuiteSparse_long*)S->i; const double* x = (const double*)S->x;
  for (size_t c = 0; c < S->ncol; ++c) for (SuiteSparse_long k = p[c]; k < p[c + 1]; ++k) M(i[k], c) = x[k];
  return M;
}
}
