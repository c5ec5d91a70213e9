#pragma once
#include <algorithm>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class MEstimator {
 public:
  virtual ~MEstimator() {}
  virtual double getWeight(double squaredError) const = 0;
  virtual std::string name() const { return "m-estimator"; }
};
class ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef boost::shared_ptr<ErrorTerm> Ptr;
  ErrorTerm() : _rowBase(-1), _sq(-1.0), _time(0) {}
  virtual ~ErrorTerm() {}
  double evaluateError() { _sq = evaluateErrorImplementation(); return _sq; }
  double getSquaredError() const { return _sq; }
  double getWeightedSquaredError() const { return weight(_sq) * _sq; }
  double weight(double sq) const { return _me ? _me->getWeight(sq) : 1.0; }
  double getCurrentMEstimatorWeight() const { return weight(_sq); }
  void evaluateJacobians(JacobianContainer& J) { evaluateJacobiansImplementation(J); }
  void evaluateJacobians(JacobianContainer& J) const { const_cast<ErrorTerm*>(this)->evaluateJacobiansImplementation(J); }
  size_t numDesignVariables() const { return _dvs.size(); }
  DesignVariable* designVariable(size_t i) { return _dvs.at(i); }
  const DesignVariable* designVariable(size_t i) const { return _dvs.at(i); }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  size_t dimension() const { return (size_t)getDimensionImplementation(); }
  size_t rowBase() const { return _rowBase; }
  void setRowBase(size_t b) { _rowBase = b; }
  void setTime(long long t) { _time = t; }
  template <typename P> void setMEstimatorPolicy(const boost::shared_ptr<P>& p) { _me = p; }
  // weighted residual L^T e and weighted Jacobian L^T J with invR = L L^T
  virtual Eigen::VectorXd getWeightedError(bool useM) const = 0;
  virtual Eigen::MatrixXd sqrtInvR() const = 0;
  void getWeightedJacobians(JacobianContainer& J, bool useM) {
    evaluateJacobians(J);
    double w = useM ? std::sqrt(weight(_sq)) : 1.0;
    J.applyChainRule(w * sqrtInvR().transpose());
  }
  void setDesignVariables(const std::vector<DesignVariable*>& dvs) { _dvs = dvs; }
  void setDesignVariables(DesignVariable* a) { _dvs = {a}; }
  template <typename... R> void setDesignVariables(DesignVariable* a, R*... r) { _dvs = {a, static_cast<DesignVariable*>(r)...}; }
  template <typename It> void setDesignVariablesIterator(It b, It e) { _dvs.assign(b, e); }
  void clearDesignVariables() { _dvs.clear(); }
 protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer& J) = 0;
  virtual int getDimensionImplementation() const = 0;
 private:
  std::vector<DesignVariable*> _dvs;
  size_t _rowBase;
  double _sq;
  long long _time;
  boost::shared_ptr<MEstimator> _me;
};
template <int C> class ErrorTermFs : public ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<double, C, 1> error_t;
  typedef Eigen::Matrix<double, C, C> inverse_covariance_t;
  enum { Dimension = C };
  ErrorTermFs() : _error(error_t::Zero()), _invR(inverse_covariance_t::Identity()) {}
  virtual ~ErrorTermFs() {}
  const error_t& error() const { return _error; }
  error_t vsError() const { return _error; }
  inverse_covariance_t invR() const { return _invR; }
  inverse_covariance_t vsInvR() const { return _invR; }
  Eigen::VectorXd getWeightedError(bool useM) const override {
    double w = useM ? std::sqrt(weight(getSquaredError())) : 1.0;
    return w * (sqrtInvR().transpose() * _error);
  }
  Eigen::MatrixXd sqrtInvR() const override { return Eigen::LLT<Eigen::MatrixXd>(_invR).matrixL(); }
  double evaluateChiSquaredError() const { return _error.dot(_invR * _error); }
 protected:
  template <typename D> void setInvR(const Eigen::MatrixBase<D>& invR) {
    Eigen::LLT<Eigen::MatrixXd> llt(invR);
    if (llt.info() != Eigen::Success) throw std::runtime_error("The covariance matrix is not positive definite");
    _invR = invR;
  }
  template <typename D> void setSqrtInvR(const Eigen::MatrixBase<D>& s) { _invR = s * s.transpose(); }
  template <typename D> void setError(const Eigen::MatrixBase<D>& e) { _error = e; }
  int getDimensionImplementation() const override { return C; }
 private:
  error_t _error;
  inverse_covariance_t _invR;
};
} }
