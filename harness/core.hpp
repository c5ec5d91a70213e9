// shared pieces of the core checks: plain design variables, linear error terms, helpers
#pragma once
#include "vpt.hpp"
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/QR>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>

namespace core {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
typedef ac::OutOfBoundException<size_t> OOB;
typedef ac::InvalidOperationException InvalidOp;
typedef ac::NullPointerException NullPtr;

// a design variable of dimension n; rows x cols parameter matrix to exercise shapes
class Var : public ab::DesignVariable {
 public:
  Var(int n, int id) : x(Eigen::VectorXd::Zero(n)), old(x), id(id), reads(0), writes(0) { setActive(true); }
  Eigen::VectorXd x, old;
  int id;
  mutable int reads;
  int writes;
 protected:
  int minimalDimensionsImplementation() const override { return (int)x.size(); }
  void updateImplementation(const double* dp, int n) override { old = x; for (int i = 0; i < n; ++i) x[i] += dp[i]; }
  void revertUpdateImplementation() override { x = old; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { reads++; v = x; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { writes++; old = x; x = v.col(0); }
};
typedef boost::shared_ptr<Var> VarSP;

// e = sum_k A_k x_k - b with invR = w I
class Lin : public ab::ErrorTermFs<1> {
 public:
  std::vector<Var*> v;
  std::vector<Eigen::RowVectorXd> A;
  double b, w, curvature;
  bool explode;
  Lin(const std::vector<Var*>& vars, const std::vector<Eigen::RowVectorXd>& A_, double b_, double w_, double curv = 0)
      : v(vars), A(A_), b(b_), w(w_), curvature(curv), explode(false) {
    setDesignVariables(std::vector<ab::DesignVariable*>(v.begin(), v.end()));
    setInvR(Eigen::Matrix<double, 1, 1>::Constant(w));
  }
  double lin() const { double e = -b; for (size_t k = 0; k < v.size(); ++k) e += A[k].dot(v[k]->x); return e; }
  double value() const { double l = lin(); return l + curvature * l * l * l; }
 protected:
  double evaluateErrorImplementation() override {
    if (explode) throw std::runtime_error("injected failure while evaluating an error term");
    setError(Eigen::Matrix<double, 1, 1>::Constant(value()));
    return evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(ab::JacobianContainer& J) override {
    double l = lin(), d = 1 + 3 * curvature * l * l;
    for (size_t k = 0; k < v.size(); ++k) J.add(v[k], d * A[k]);
  }
};
typedef boost::shared_ptr<Lin> LinSP;

// an error term whose only content is the set of variables it touches
class Touch : public ab::ErrorTermFs<1> {
 public:
  explicit Touch(const std::vector<ab::DesignVariable*>& vs) { setDesignVariables(vs); }
 protected:
  double evaluateErrorImplementation() override { setError(Eigen::Matrix<double, 1, 1>::Zero()); return 0; }
  void evaluateJacobiansImplementation(ab::JacobianContainer&) override {}
};
typedef boost::shared_ptr<Touch> TouchSP;

template <typename T> std::string seq(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
inline bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }

// invalid permutation/ordering vectors of (or not of) size n
inline std::vector<size_t> badPermutation(vpt::Src& s, size_t n, std::string& kind) {
  std::vector<size_t> p = s.permutation(n);
  switch (s.choice(n >= 2 ? 3 : 2)) {
    case 0: kind = "size"; if (n && s.flip()) p.pop_back(); else p.push_back(s.flip() ? n : 0); break;
    case 1: kind = "range"; if (n == 0) { p.push_back(0); kind = "size"; } else p[s.index(n)] = n + (s.flip() ? 0 : s.index(1000)); break;
    default: { kind = "duplicate"; size_t a = s.index(n), b = (a + 1 + s.index(n - 1)) % n; p[a] = p[b]; }
  }
  return p;
}
template <typename T> std::vector<T> permuted(const std::vector<T>& v, const std::vector<size_t>& p) { std::vector<T> o; for (size_t i : p) o.push_back(v[i]); return o; }
}  // namespace core
