#pragma once
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
namespace aslam { namespace backend {
class DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef boost::shared_ptr<DesignVariable> Ptr;
  struct BlockIndexOrdering { bool operator()(const DesignVariable* a, const DesignVariable* b) const { return a->_block != b->_block ? a->_block < b->_block : a < b; } };
  typedef std::set<DesignVariable*> set_t;
  DesignVariable() : _block(-1), _col(-1), _marg(false), _active(false), _scaling(1.0) {}
  DesignVariable(const DesignVariable&) = default;
  DesignVariable& operator=(const DesignVariable&) = default;
  virtual ~DesignVariable() {}
  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  void update(const double* dp, int size) { updateImplementation(dp, size); }
  void revertUpdate() { revertUpdateImplementation(); }
  int blockIndex() const { return _block; }
  void setBlockIndex(int b) { _block = b; }
  int columnBase() const { return _col; }
  void setColumnBase(int c) { _col = c; }
  bool isMarginalized() const { return _marg; }
  void setMarginalized(bool m) { _marg = m; }
  bool isActive() const { return _active; }
  void setActive(bool a) { _active = a; }
  double scaling() const { return _scaling; }
  void setScaling(double s) { _scaling = s; }
  void getParameters(Eigen::MatrixXd& v) const { getParametersImplementation(v); }
  Eigen::MatrixXd getParameters() const { Eigen::MatrixXd v; getParametersImplementation(v); return v; }
  void setParameters(const Eigen::MatrixXd& v) { setParametersImplementation(v); }
 protected:
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual void revertUpdateImplementation() = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
 private:
  int _block, _col;
  bool _marg, _active;
  double _scaling;
};
} }
