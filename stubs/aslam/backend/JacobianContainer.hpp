#pragma once
#include <map>
#include <set>
#include <stdexcept>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
namespace aslam { namespace backend {
class JacobianContainer {
 public:
  typedef std::map<DesignVariable*, Eigen::MatrixXd, DesignVariable::BlockIndexOrdering> map_t;
  explicit JacobianContainer(int rows) : _rows(rows) {}
  // inactive design variables are ignored, repeated additions accumulate
  void add(DesignVariable* dv, const Eigen::Ref<const Eigen::MatrixXd>& J) {
    if (J.rows() != _rows) throw std::runtime_error("JacobianContainer::add: row mismatch");
    if (!dv->isActive()) return;
    if (J.cols() != dv->minimalDimensions()) throw std::runtime_error("JacobianContainer::add: column mismatch");
    auto it = _map.find(dv);
    if (it == _map.end()) _map.insert(std::make_pair(dv, Eigen::MatrixXd(J)));
    else it->second += J;
  }
  void add(DesignVariable* dv) { add(dv, Eigen::MatrixXd::Identity(_rows, _rows)); }
  void add(const JacobianContainer& o) { for (auto& kv : o._map) add(kv.first, kv.second); }
  void applyChainRule(const Eigen::Ref<const Eigen::MatrixXd>& F) { for (auto& kv : _map) kv.second = (F * kv.second).eval(); _rows = F.rows(); }
  int rows() const { return _rows; }
  int cols() const { int c = 0; for (auto& kv : _map) c += kv.first->minimalDimensions(); return c; }
  size_t numDesignVariables() const { return _map.size(); }
  DesignVariable* designVariable(size_t i) { auto it = _map.begin(); std::advance(it, i); return it->first; }
  bool isFinite() const { for (auto& kv : _map) if (!kv.second.allFinite()) return false; return true; }
  const Eigen::MatrixXd& Jacobian(const DesignVariable* dv) const {
    auto it = _map.find(const_cast<DesignVariable*>(dv));
    if (it == _map.end()) throw std::runtime_error("JacobianContainer::Jacobian: unknown design variable");
    return it->second;
  }
  const Eigen::MatrixXd& Jacobian(size_t i) const { auto it = _map.begin(); std::advance(it, i); return it->second; }
  bool has(const DesignVariable* dv) const { return _map.count(const_cast<DesignVariable*>(dv)) != 0; }
  Eigen::MatrixXd asDenseMatrix() const {
    Eigen::MatrixXd J(_rows, cols()); int c = 0;
    for (auto& kv : _map) { J.middleCols(c, kv.second.cols()) = kv.second; c += kv.second.cols(); }
    return J;
  }
  void clear() { _map.clear(); }
  map_t::const_iterator begin() const { return _map.begin(); }
  map_t::const_iterator end() const { return _map.end(); }
 private:
  int _rows;
  map_t _map;
};
} }
