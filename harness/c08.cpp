// C08: the linear solver solves the system the error terms define
#include "est.hpp"
using namespace est;
typedef ab::AslamTruncatedSvdSolver Solver;

// residual of several rows with a full information matrix
template <int N> class Multi : public ab::ErrorTermFs<N> {
 public:
  std::vector<Var*> v; std::vector<Eigen::MatrixXd> A; Eigen::Matrix<double, N, 1> b; Eigen::Matrix<double, N, N> W;
  Multi(const std::vector<Var*>& vars, const std::vector<Eigen::MatrixXd>& A_, const Eigen::Matrix<double, N, 1>& b_, const Eigen::Matrix<double, N, N>& W_) : v(vars), A(A_), b(b_), W(W_) {
    this->setDesignVariables(std::vector<ab::DesignVariable*>(v.begin(), v.end()));
    this->setInvR(W);
  }
  Eigen::Matrix<double, N, 1> value() const { Eigen::Matrix<double, N, 1> e = -b; for (size_t k = 0; k < v.size(); ++k) e += A[k] * v[k]->x; return e; }
 protected:
  double evaluateErrorImplementation() override { this->setError(value()); return this->evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(ab::JacobianContainer& J) override { for (size_t k = 0; k < v.size(); ++k) J.add(v[k], A[k]); }
};

struct System {
  std::vector<VarSP> vars;
  std::vector<boost::shared_ptr<ab::ErrorTerm> > terms;
  std::vector<ab::DesignVariable*> dvs;
  std::vector<ab::ErrorTerm*> ets;
  int cols = 0, rows = 0;
};

static System makeSystem(vpt::Src& s, bool full, size_t maxVars = 5, size_t maxTerms = 6) {
  System y;
  size_t nv = 1 + s.index(maxVars);
  for (size_t i = 0; i < nv; ++i) {
    y.vars.push_back(boost::make_shared<Var>(1 + (int)s.index(3), (int)i));
    auto& v = y.vars.back();
    for (int k = 0; k < v->x.size(); ++k) v->x[k] = (double)s.range(0, 8) - 4;
    v->setActive(i == 0 || !s.chance(1, 6));
    if (!v->isActive()) continue;
    v->setBlockIndex((int)y.dvs.size());
    v->setColumnBase(y.cols);
    y.cols += (int)v->x.size();
    y.dvs.push_back(v.get());
  }
  auto robust = boost::make_shared<Cauchyish>();
  auto mat = [&](int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = (double)s.range(0, 8) - 4; return m; };
  size_t ne = 1 + s.index(maxTerms) + (full ? nv : 0);
  for (size_t k = 0; k < ne; ++k) {
    std::vector<Var*> vs;
    bool own = full && k < nv;
    if (own) vs.push_back(y.vars[k].get());
    else { auto p = s.permutation(nv); for (size_t j = 0, n = 1 + s.index(std::min<size_t>(3, nv)); j < n; ++j) vs.push_back(y.vars[p[j]].get()); }
    int d = own ? (int)vs[0]->x.size() : 1 + (int)s.index(3);
    std::vector<Eigen::MatrixXd> A;
    for (auto v : vs) A.push_back(own ? Eigen::MatrixXd(Eigen::MatrixXd::Identity(d, d)) : mat(d, (int)v->x.size()));
    Eigen::MatrixXd L = Eigen::MatrixXd::Identity(d, d);
    for (int i = 0; i < d; ++i) { L(i, i) = 1 + (double)s.index(3); for (int j = 0; j < i; ++j) L(i, j) = (double)s.range(0, 2) - 1; }
    Eigen::MatrixXd W = L * L.transpose(), b = mat(d, 1);
    boost::shared_ptr<ab::ErrorTerm> t;
    if (d == 1) t.reset(new Multi<1>(vs, A, b, W)); else if (d == 2) t.reset(new Multi<2>(vs, A, b, W)); else t.reset(new Multi<3>(vs, A, b, W));
    if (s.chance(1, 3)) t->setMEstimatorPolicy(robust);
    t->setRowBase(y.rows);
    y.rows += d;
    y.terms.push_back(t);
    y.ets.push_back(t.get());
  }
  return y;
}

// weighted Jacobian and right-hand side, from the error terms
static void expected(System& y, bool useM, Eigen::MatrixXd& J, Eigen::VectorXd& rhs, double& cost) {
  J = Eigen::MatrixXd::Zero(y.rows, y.cols); rhs = Eigen::VectorXd::Zero(y.rows); cost = 0;
  int row = 0;
  for (auto t : y.ets) {
    auto fill = [&](const std::vector<Var*>& v, const std::vector<Eigen::MatrixXd>& A, const Eigen::VectorXd& e, const Eigen::MatrixXd& W) {
      double sq = e.dot(W * e), w = useM ? t->weight(sq) : 1;
      cost += w * sq;
      Eigen::MatrixXd R = std::sqrt(w) * Eigen::MatrixXd(Eigen::LLT<Eigen::MatrixXd>(W).matrixL().transpose());
      rhs.segment(row, e.size()) = -R * e;
      for (size_t k = 0; k < v.size(); ++k) if (v[k]->isActive()) J.block(row, v[k]->columnBase(), e.size(), v[k]->x.size()) += R * A[k];
      row += (int)e.size();
    };
    if (auto m = dynamic_cast<Multi<1>*>(t)) fill(m->v, m->A, m->value(), m->W);
    else if (auto m = dynamic_cast<Multi<2>*>(t)) fill(m->v, m->A, m->value(), m->W);
    else if (auto m = dynamic_cast<Multi<3>*>(t)) fill(m->v, m->A, m->value(), m->W);
  }
}

static void solved(System& y, Solver& sol, std::ptrdiff_t m, bool scaling, bool useM, vpt::Src& s, const std::string& at) {
  sol.initMatrixStructure(y.dvs, y.ets, false);
  VCHECK(sol.getSVDRank() == -1 && sol.getQRRank() == -1 && sol.getSingularValues().size() == 0, "results of an earlier system survive a new structure " << at);
  sol.setMargStartIndex(m);
  VEQ(sol.getMargStartIndex(), m, at);
  size_t rounds = 1 + s.index(2);
  for (size_t r = 0; r < rounds; ++r) {
    Eigen::MatrixXd J; Eigen::VectorXd rhs; double cost;
    if (r) for (auto& v : y.vars) for (int k = 0; k < v->x.size(); ++k) v->x[k] += (double)s.range(0, 4) - 2;
    expected(y, useM, J, rhs, cost);
    VCLOSE(sol.evaluateError(1 + s.index(3), useM), cost, 1e-9, 1e-12, "cost " << at);
    VMAT(sol.e(), rhs, 1e-9, "right-hand side " << at);
    sol.buildSystem(1 + s.index(3), useM);
    const Eigen::MatrixXd Jt = sol.getJacobianTranspose().toDense();
    VMATF(Jt, J.transpose(), 1e-9, 1, "exposed Jacobian transpose " << at);
    Eigen::VectorXd dx = Eigen::VectorXd::Constant(2, 77);
    VCHECK(sol.solveSystem(dx), "solver reports failure " << at);
    VEQ(dx.size(), y.cols, "size of the update " << at);
    VEQ(sol.rhsJtJrhs(), 0.0, at);
    Eigen::VectorXd g = Eigen::VectorXd::Ones(y.cols);
    if (scaling) for (int c = 0; c < y.cols; ++c) { double n = J.col(c).norm(); g[c] = n > 1e-12 ? 1 / n : 0; }
    Eigen::MatrixXd Js = J * g.asDiagonal();
    Info is = analyse(Js, m), iu = analyse(J, m);
    if (is.ambiguous || iu.ambiguous) throw vpt::Discard();
    VEQ(sol.getSVDRank(), is.rank, "rank " << at);
    VEQ(sol.getQRRank(), is.psiRank, "rank of the columns before the marginalization index " << at);
    VMAT(sol.getSingularValues(), is.sv, 1e-7, "singular values of the solved system " << at);
    // a least-squares solution ...
    VCHECK((J.transpose() * (J * dx - rhs)).cwiseAbs().maxCoeff() <= 1e-7 * (1 + J.squaredNorm() * (1 + rhs.norm())), "the update does not satisfy the normal equations: dx " << dx.transpose() << " " << at);
    // ... that leaves the unobservable directions of the trailing columns alone
    if (is.rank < is.sv.size()) {
      Eigen::VectorXd th = dx.tail(y.cols - m);
      for (int k = 0; k < th.size(); ++k) th[k] = g[m + k] > 0 ? th[k] / g[m + k] : 0;
      Eigen::VectorXd c = is.V.rightCols(is.sv.size() - is.rank).transpose() * th;
      VCHECK(c.cwiseAbs().maxCoeff() <= 1e-6 * (1 + th.norm()), "the update moves along unobservable directions by " << c.transpose() << " " << at);
    } else if (is.psiRank == m) VMATF(dx, leastSquares(J, rhs), 1e-6, 1, "update " << at);
    // the marginal analysis is that of the unscaled system
    if (s.chance(2, 3)) {
      VCHECK(sol.analyzeMarginal(), "marginal analysis " << at);
      VMAT(sol.getSingularValues(), iu.sv, 1e-7, "singular values of the unscaled system " << at);
      VEQ(sol.getSVDRank(), iu.rank, "rank of the unscaled system " << at);
      VEQ(sol.getSVDRankDeficiency(), y.cols - m - iu.rank, at);
      VEQ(sol.getQRRank(), iu.psiRank, at);
      VMATF(sol.getJacobianTranspose().toDense(), J.transpose(), 1e-9, 1, "exposed Jacobian transpose after the marginal analysis " << at);
    }
  }
}

CLAUSE(solve, 8000, 160000, "the marginalization index is inside the matrix and a robust weight, inactive variable or rank deficiency occurs") {
  bool scaling = s.flip();
  ac::LinearSolverOptions o = solverOptions(scaling);
  Solver sol(o);
  VEQ(sol.getOptions().columnScaling, scaling, "options");
  VCHECK(static_cast<ab::LinearSystemSolver&>(sol).name() == "marginal_spqr_svd", "name");
  size_t n = 1 + s.index(2);
  for (size_t k = 0; k < n; ++k) {
    System y = makeSystem(s, s.flip());
    bool useM = s.flip();
    std::ptrdiff_t m = s.range(0, y.cols - 1);
    s.desc() << "system " << k << ": " << y.rows << "x" << y.cols << " marg " << m << " scaling " << scaling << " robust weights " << useM << "\n";
    solved(y, sol, m, scaling, useM, s, "system " + std::to_string(k));
    s.nontrivial(m > 0);
    s.label(k ? "reused solver" : "fresh solver");
  }
}

CLAUSE(large, 160, 4000, "more than 40 columns and 64 rows") {
  bool scaling = s.flip();
  ac::LinearSolverOptions o = solverOptions(scaling);
  Solver sol(o);
  size_t n = 1 + s.index(2);
  for (size_t k = 0; k < n; ++k) {
    System y = makeSystem(s, s.chance(3, 4), s.flip() ? 70 : 25, 120);
    bool useM = s.flip();
    std::ptrdiff_t m = s.flip() ? std::max<std::ptrdiff_t>(0, y.cols - 1 - (std::ptrdiff_t)s.index(9)) : s.range(0, y.cols - 1);
    s.desc() << "system " << k << ": " << y.rows << "x" << y.cols << " marg " << m << " scaling " << scaling << " robust weights " << useM << "\n";
    s.nontrivial(y.cols > 40 && y.rows > 64);
    solved(y, sol, m, scaling, useM, s, "system " + std::to_string(k));
  }
}
