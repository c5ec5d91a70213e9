#pragma once
#include <aslam/backend/Expressions.hpp>
namespace aslam { namespace backend {
namespace expr { typedef std::shared_ptr<Node<Eigen::Vector4d> > PH; }
class HomogeneousExpression {
 public:
  HomogeneousExpression(expr::PH n) : _n(n) {}
  Eigen::Vector4d toHomogeneous() const { return _n->value(); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }  // c: N x 4
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  expr::PH root() const { return _n; }
 private:
  expr::PH _n;
};
// a point that moves in its first three coordinates
class HomogeneousPoint : public DesignVariable, public expr::Node<Eigen::Vector4d> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit HomogeneousPoint(const Eigen::Vector4d& v) : _v(v), _b(v) {}
  const Eigen::Vector4d& toHomogeneous() const { return _v; }
  HomogeneousExpression toExpression() { return HomogeneousExpression(std::shared_ptr<expr::Node<Eigen::Vector4d> >(static_cast<expr::Node<Eigen::Vector4d>*>(this), [](expr::Node<Eigen::Vector4d>*) {})); }
  Eigen::Vector4d value() const override { return _v; }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { J.add(const_cast<HomogeneousPoint*>(this), c.leftCols(3)); }
  void dvs(DesignVariable::set_t& s) const override { s.insert(const_cast<HomogeneousPoint*>(this)); }
 protected:
  int minimalDimensionsImplementation() const override { return 3; }
  void updateImplementation(const double* d, int) override { _b = _v; _v.head<3>() += Eigen::Vector3d(d[0], d[1], d[2]); }
  void revertUpdateImplementation() override { _v = _b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m = _v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { _b = _v; _v = m; }
 private:
  Eigen::Vector4d _v, _b;
};
namespace expr {
struct MovePoint : Node<Eigen::Vector4d> { TransformationExpression T; PH p; MovePoint(const TransformationExpression& t, PH x) : T(t), p(x) {}
  Eigen::Vector4d value() const override { return T.toTransformationMatrix() * p->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override {
    const Eigen::Vector4d q = value(); Eigen::MatrixXd D = Eigen::MatrixXd::Zero(4, 6);
    D.topLeftCorner(3, 3) = q[3] * Eigen::Matrix3d::Identity(); D.topRightCorner(3, 3) = sm::kinematics::crossMx(q.head<3>());
    T.evaluateJacobians(J, c * D); p->jac(J, c * T.toTransformationMatrix()); }
  void dvs(DesignVariable::set_t& s) const override { T.getDesignVariables(s); p->dvs(s); } };
}
inline HomogeneousExpression operator*(const TransformationExpression& T, const HomogeneousExpression& p) { return HomogeneousExpression(expr::PH(new expr::MovePoint(T, p.root()))); }
} }
