#pragma once
#include <set>
#include <vector>
#include <stdexcept>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/ScalarNonSquaredErrorTerm.hpp>
namespace aslam { namespace backend {
class OptimizationProblemBase {
 public:
  OptimizationProblemBase() {}
  virtual ~OptimizationProblemBase() {}
  size_t numDesignVariables() const { return numDesignVariablesImplementation(); }
  DesignVariable* designVariable(size_t i) { return designVariableImplementation(i); }
  const DesignVariable* designVariable(size_t i) const { return designVariableImplementation(i); }
  size_t numErrorTerms() const { return numErrorTermsImplementation(); }
  ErrorTerm* errorTerm(size_t i) { return errorTermImplementation(i); }
  const ErrorTerm* errorTerm(size_t i) const { return errorTermImplementation(i); }
  size_t numNonSquaredErrorTerms() const { return numNonSquaredErrorTermsImplementation(); }
  void getErrors(const DesignVariable* dv, std::set<ErrorTerm*>& out) { getErrorsImplementation(dv, out); }
 protected:
  virtual size_t numDesignVariablesImplementation() const = 0;
  virtual DesignVariable* designVariableImplementation(size_t) = 0;
  virtual const DesignVariable* designVariableImplementation(size_t) const = 0;
  virtual size_t numErrorTermsImplementation() const = 0;
  virtual ErrorTerm* errorTermImplementation(size_t) = 0;
  virtual const ErrorTerm* errorTermImplementation(size_t) const = 0;
  virtual void getErrorsImplementation(const DesignVariable*, std::set<ErrorTerm*>&) = 0;
  virtual size_t numNonSquaredErrorTermsImplementation() const { return 0; }
  virtual ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) { throw std::runtime_error("none"); }
  virtual const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) const { throw std::runtime_error("none"); }
  virtual void getNonSquaredErrorsImplementation(const DesignVariable*, std::set<ScalarNonSquaredErrorTerm*>&) {}
};
} }
