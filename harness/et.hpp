// Checks every error term has to pass, whatever it models: the squared error is the residual weighted with the inverse
// covariance, the Jacobians are the derivatives of the residual (central differences over the design variables' own
// updates), fixed design variables contribute none, nothing is changed by evaluating, and a copy evaluates the same.
#pragma once
#include "vpt.hpp"
#include <Eigen/Core>
#include <Eigen/LU>
#include <aslam/backend/ErrorTerm.hpp>
namespace et {
using aslam::backend::DesignVariable;
using aslam::backend::JacobianContainer;

inline Eigen::MatrixXd spd(vpt::Src& s, int n, double lo = 1e-3, double hi = 10) {
  Eigen::MatrixXd a(n, n);
  const int kind = (int)s.index(3);
  if (kind == 0) { a.setZero(); for (int i = 0; i < n; ++i) a(i, i) = s.logReal(lo, hi); return a; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.real(-1, 1);
  const double sc = kind == 1 ? 1 : s.logReal(lo, hi);
  Eigen::MatrixXd m = sc * (a * a.transpose() + 0.2 * Eigen::MatrixXd::Identity(n, n));
  return (m + m.transpose()) / 2;
}
template <typename M, typename N> void close(const M& got, const N& want, double rel, double abs, const std::string& what) {
  VEQ(got.rows(), want.rows(), what << ": rows"); VEQ(got.cols(), want.cols(), what << ": columns");
  const double scale = want.size() ? want.cwiseAbs().maxCoeff() : 0;
  for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j)
    if (!(std::fabs(got(i, j) - want(i, j)) <= abs + rel * std::max(scale, std::fabs(want(i, j)))))
      VFAIL(what << ": entry (" << i << ", " << j << ") is " << got(i, j) << ", expected " << want(i, j));
}
// 2 pi apart is the same error for the rows named as angles
template <typename T> Eigen::VectorXd residual(T& t) { t.evaluateError(); return t.error(); }
inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }

template <typename T> Eigen::MatrixXd numeric(T& t, DesignVariable* dv, double h, const std::vector<int>& angles) {
  const int n = dv->minimalDimensions();
  const Eigen::VectorXd e0 = residual(t);
  Eigen::MatrixXd J(e0.size(), n);
  auto at = [&](int i, double d) {
    Eigen::VectorXd dx = Eigen::VectorXd::Zero(n);
    dx(i) = d;
    dv->update(dx.data(), n);
    Eigen::VectorXd e = residual(t) - e0;
    dv->revertUpdate();
    for (int a : angles) e(a) = wrap(e(a));
    return e;
  };
  for (int i = 0; i < n; ++i) J.col(i) = (at(i, -2 * h) - 8 * at(i, -h) + 8 * at(i, h) - at(i, 2 * h)) / (12 * h);
  return J;
}

struct Opt { double h = 1e-4, rel = 1e-6, abs = 1e-6; std::vector<int> angles; };

// the squared error is e' W e, with W the inverse of cov
template <typename T, typename C> void weighted(T& t, const C& cov, const std::string& what) {
  const double sq = t.evaluateError();
  const Eigen::VectorXd e = t.error();
  VCHECK(e.allFinite(), what << ": the error is not finite: " << e.transpose());
  const double want = e.dot(Eigen::MatrixXd(cov).fullPivLu().solve(e));
  VCLOSE(sq, want, 1e-6, 1e-9, what << ": squared error weighted with the inverse covariance");
  VCLOSE(t.getSquaredError(), want, 1e-6, 1e-9, what << ": stored squared error");
}

template <typename T> void jacobians(vpt::Src& s, T& t, const std::vector<DesignVariable*>& dvs, const Opt& o, const std::string& what) {
  VEQ(t.numDesignVariables(), dvs.size(), what << ": number of design variables");
  std::set<DesignVariable*> have, want(dvs.begin(), dvs.end());
  for (size_t i = 0; i < t.numDesignVariables(); ++i) have.insert(t.designVariable(i));
  VCHECK(have == want, what << ": the error term does not have the design variables it depends on");
  for (size_t i = 0; i < dvs.size(); ++i) { dvs[i]->setActive(true); dvs[i]->setBlockIndex((int)i); dvs[i]->setColumnBase((int)i); }
  std::vector<Eigen::MatrixXd> before;
  for (auto d : dvs) before.push_back(d->getParameters());
  const Eigen::VectorXd e0 = residual(t);
  std::vector<Eigen::MatrixXd> J;
  {
    JacobianContainer jc((int)e0.size());
    t.evaluateJacobians(jc);
    for (size_t i = 0; i < dvs.size(); ++i) {
      VCHECK(jc.has(dvs[i]), what << ": no Jacobian for design variable " << i);
      J.push_back(jc.Jacobian(dvs[i]));
      VCHECK(J[i].allFinite(), what << ": the Jacobian of design variable " << i << " is not finite:\n" << J[i]);
    }
  }
  for (size_t i = 0; i < dvs.size(); ++i)
    close(J[i], numeric(t, dvs[i], o.h, o.angles), o.rel, o.abs, what + ": Jacobian of design variable " + std::to_string(i) + " against finite differences");
  // fixed design variables have no part in it
  std::vector<bool> on;
  for (auto d : dvs) { on.push_back(s.flip()); d->setActive(on.back()); }
  t.evaluateError();
  JacobianContainer jc((int)e0.size());
  t.evaluateJacobians(jc);
  for (size_t i = 0; i < dvs.size(); ++i) {
    VCHECK(jc.has(dvs[i]) == on[i], what << ": Jacobian of " << (on[i] ? "an active" : "a fixed") << " design variable " << i);
    if (on[i]) close(jc.Jacobian(dvs[i]), J[i], 1e-12, 1e-12, what + ": Jacobian while others are fixed");
    dvs[i]->setActive(true);
  }
  close(residual(t), e0, 0, 0, what + ": evaluating again");
  for (size_t i = 0; i < dvs.size(); ++i) VCHECK(dvs[i]->getParameters() == before[i], what << ": evaluating changed design variable " << i);
}
// two error terms evaluate to exactly the same
template <typename T> void same(T& a, T& b, const std::string& what) {
  const double x = a.evaluateError(), y = b.evaluateError();
  VEQ(y, x, what << ": squared error");
  VCHECK(Eigen::VectorXd(a.error()) == Eigen::VectorXd(b.error()), what << ": error");
  VEQ(b.numDesignVariables(), a.numDesignVariables(), what << ": design variables");
  for (size_t i = 0; i < a.numDesignVariables(); ++i) VCHECK(a.designVariable(i) == b.designVariable(i), what << ": design variable " << i);
  JacobianContainer ja((int)a.dimension()), jb((int)b.dimension());
  a.evaluateJacobians(ja); b.evaluateJacobians(jb);
  VEQ(jb.numDesignVariables(), ja.numDesignVariables(), what << ": Jacobians");
  for (size_t i = 0; i < ja.numDesignVariables(); ++i) VCHECK(ja.Jacobian(ja.designVariable(i)) == jb.Jacobian(ja.designVariable(i)), what << ": Jacobian " << i);
}
}  // namespace et
