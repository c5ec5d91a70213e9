#pragma once
// expression trees over design variables: value, design variables and Jacobian of a vector, rotation, scalar, time or
// transformation.  Rotations are perturbed as C <- (I - [phi]x) C, transformations as T <- [rho; phi] from the left.
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
namespace aslam { namespace backend {
namespace expr {
template <typename V> struct Node {
  virtual ~Node() {}
  virtual V value() const = 0;
  virtual void jac(JacobianContainer& J, const Eigen::MatrixXd& chain) const = 0;
  virtual void dvs(DesignVariable::set_t& s) const = 0;
};
template <typename V> struct Const : Node<V> {
  V v;
  Const(const V& x) : v(x) {}
  V value() const override { return v; }
  void jac(JacobianContainer&, const Eigen::MatrixXd&) const override {}
  void dvs(DesignVariable::set_t&) const override {}
};
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
template <int N> using VN = std::shared_ptr<Node<Eigen::Matrix<double, N, 1> > >;
typedef VN<3> PV; typedef std::shared_ptr<Node<M3> > PR; typedef std::shared_ptr<Node<double> > PS;
template <typename V> std::shared_ptr<Node<V> > hold(Node<V>* p) { return std::shared_ptr<Node<V> >(p, [](Node<V>*) {}); }
// keeps the boost pointer alive
template <typename V, typename T> std::shared_ptr<Node<V> > share(const boost::shared_ptr<T>& p) { return std::shared_ptr<Node<V> >(static_cast<Node<V>*>(p.get()), [p](Node<V>*) {}); }

struct RotVec : Node<V3> { PR r; PV v; RotVec(PR a, PV b) : r(a), v(b) {}
  V3 value() const override { return r->value() * v->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { const M3 C = r->value(); v->jac(J, c * C); r->jac(J, c * sm::kinematics::crossMx(C * v->value())); }
  void dvs(DesignVariable::set_t& s) const override { r->dvs(s); v->dvs(s); } };
struct AddVec : Node<V3> { PV a, b; double sg; AddVec(PV x, PV y, double g) : a(x), b(y), sg(g) {}
  V3 value() const override { return a->value() + sg * b->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, c); b->jac(J, sg * c); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); b->dvs(s); } };
struct NegVec : Node<V3> { PV a; NegVec(PV x) : a(x) {}
  V3 value() const override { return -a->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, -c); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); } };
struct CrossVec : Node<V3> { PV a, b; CrossVec(PV x, PV y) : a(x), b(y) {}
  V3 value() const override { return a->value().cross(b->value()); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, -c * sm::kinematics::crossMx(b->value())); b->jac(J, c * sm::kinematics::crossMx(a->value())); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); b->dvs(s); } };
struct ScaleVec : Node<V3> { PV a; PS k; ScaleVec(PV x, PS y) : a(x), k(y) {}
  V3 value() const override { return k->value() * a->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, c * k->value()); k->jac(J, c * a->value()); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); k->dvs(s); } };
struct MulRot : Node<M3> { PR a, b; MulRot(PR x, PR y) : a(x), b(y) {}
  M3 value() const override { return a->value() * b->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, c); b->jac(J, c * a->value()); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); b->dvs(s); } };
struct InvRot : Node<M3> { PR a; InvRot(PR x) : a(x) {}
  M3 value() const override { return a->value().transpose(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, -c * a->value().transpose()); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); } };
struct QuatRot : Node<M3> { VN<4> q; QuatRot(VN<4> x) : q(x) {}
  M3 value() const override { return sm::kinematics::quat2r(q->value().normalized()); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override {
    const Eigen::Vector4d v = q->value(); const Eigen::Vector4d i = sm::kinematics::quatInv(v) / v.squaredNorm(); Eigen::Matrix<double, 3, 4> D;
    for (int k = 0; k < 4; ++k) D.col(k) = 2 * sm::kinematics::qplus(Eigen::Vector4d::Unit(k), i).head<3>();
    q->jac(J, c * D); }
  void dvs(DesignVariable::set_t& s) const override { q->dvs(s); } };
}  // namespace expr

template <int N> class VectorExpression {
 public:
  typedef Eigen::Matrix<double, N, 1> value_t;
  VectorExpression(expr::VN<N> n) : _n(n) {}
  value_t toValue() const { return _n->value(); }
  value_t evaluate() const { return _n->value(); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  expr::VN<N> root() const { return _n; }
 private:
  expr::VN<N> _n;
};

class Scalar : public DesignVariable, public expr::Node<double> {
 public:
  explicit Scalar(double v) : _v(v), _b(v) {}
  double toScalar() const { return _v; }
  double value() const override { return _v; }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { J.add(const_cast<Scalar*>(this), c); }
  void dvs(DesignVariable::set_t& s) const override { s.insert(const_cast<Scalar*>(this)); }
 protected:
  int minimalDimensionsImplementation() const override { return 1; }
  void updateImplementation(const double* d, int) override { _b = _v; _v += d[0]; }
  void revertUpdateImplementation() override { _v = _b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m.resize(1, 1); m(0, 0) = _v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { _b = _v; _v = m(0, 0); }
 private:
  double _v, _b;
};
class ScalarExpression {
 public:
  ScalarExpression(double v = 0) : _n(new expr::Const<double>(v)) {}
  ScalarExpression(Scalar* p) : _n(expr::hold<double>(p)) {}
  ScalarExpression(const boost::shared_ptr<Scalar>& p) : _n(expr::share<double>(p)) {}
  double toScalar() const { return _n->value(); }
  double toValue() const { return _n->value(); }
  void evaluateJacobians(JacobianContainer& J) const { _n->jac(J, Eigen::MatrixXd::Identity(1, 1)); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  expr::PS root() const { return _n; }
 private:
  expr::PS _n;
};

class EuclideanPoint : public DesignVariable, public expr::Node<Eigen::Vector3d> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit EuclideanPoint(const Eigen::Vector3d& v) : _v(v), _b(v) {}
  const Eigen::Vector3d& toEuclidean() const { return _v; }
  Eigen::Vector3d value() const override { return _v; }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { J.add(const_cast<EuclideanPoint*>(this), c); }
  void dvs(DesignVariable::set_t& s) const override { s.insert(const_cast<EuclideanPoint*>(this)); }
 protected:
  int minimalDimensionsImplementation() const override { return 3; }
  void updateImplementation(const double* d, int) override { _b = _v; _v += Eigen::Vector3d(d[0], d[1], d[2]); }
  void revertUpdateImplementation() override { _v = _b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m = _v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { _b = _v; _v = m; }
 private:
  Eigen::Vector3d _v, _b;
};

class RotationQuaternion : public DesignVariable, public expr::Node<Eigen::Matrix3d> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit RotationQuaternion(const Eigen::Vector4d& q) : _q(q), _b(q) {}
  explicit RotationQuaternion(const Eigen::Matrix3d& C) : _q(sm::kinematics::r2quat(C)), _b(_q) {}
  const Eigen::Vector4d& getQuaternion() const { return _q; }
  Eigen::Matrix3d toRotationMatrix() const { return sm::kinematics::quat2r(_q); }
  Eigen::Matrix3d value() const override { return toRotationMatrix(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { J.add(const_cast<RotationQuaternion*>(this), c); }
  void dvs(DesignVariable::set_t& s) const override { s.insert(const_cast<RotationQuaternion*>(this)); }
 protected:
  int minimalDimensionsImplementation() const override { return 3; }
  void updateImplementation(const double* d, int) override { _b = _q; _q = sm::kinematics::qplus(sm::kinematics::axisAngle2quat(Eigen::Vector3d(d[0], d[1], d[2])), _q).normalized(); }
  void revertUpdateImplementation() override { _q = _b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m = _q; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { _b = _q; _q = m; }
 private:
  Eigen::Vector4d _q, _b;
};

class EuclideanExpression {
 public:
  EuclideanExpression(const Eigen::Vector3d& v = Eigen::Vector3d::Zero()) : _n(new expr::Const<Eigen::Vector3d>(v)) {}
  EuclideanExpression(EuclideanPoint* p) : _n(expr::hold<Eigen::Vector3d>(p)) {}
  EuclideanExpression(const boost::shared_ptr<EuclideanPoint>& p) : _n(expr::share<Eigen::Vector3d>(p)) {}
  EuclideanExpression(const VectorExpression<3>& v) : _n(v.root()) {}
  EuclideanExpression(expr::PV n) : _n(n) {}
  Eigen::Vector3d toValue() const { return _n->value(); }
  Eigen::Vector3d toEuclidean() const { return _n->value(); }
  EuclideanExpression operator+(const EuclideanExpression& o) const { return expr::PV(new expr::AddVec(_n, o._n, 1)); }
  EuclideanExpression operator-(const EuclideanExpression& o) const { return expr::PV(new expr::AddVec(_n, o._n, -1)); }
  EuclideanExpression operator-() const { return expr::PV(new expr::NegVec(_n)); }
  EuclideanExpression operator*(const ScalarExpression& k) const { return expr::PV(new expr::ScaleVec(_n, k.root())); }
  EuclideanExpression cross(const EuclideanExpression& o) const { return expr::PV(new expr::CrossVec(_n, o._n)); }
  void evaluateJacobians(JacobianContainer& J) const { _n->jac(J, Eigen::Matrix3d::Identity()); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  expr::PV root() const { return _n; }
 private:
  expr::PV _n;
};

class RotationExpression {
 public:
  RotationExpression(const Eigen::Matrix3d& C = Eigen::Matrix3d::Identity()) : _n(new expr::Const<Eigen::Matrix3d>(C)) {}
  RotationExpression(RotationQuaternion* p) : _n(expr::hold<Eigen::Matrix3d>(p)) {}
  RotationExpression(const boost::shared_ptr<RotationQuaternion>& p) : _n(expr::share<Eigen::Matrix3d>(p)) {}
  RotationExpression(expr::PR n) : _n(n) {}
  Eigen::Matrix3d toRotationMatrix() const { return _n->value(); }
  RotationExpression inverse() const { return expr::PR(new expr::InvRot(_n)); }
  RotationExpression operator*(const RotationExpression& o) const { return expr::PR(new expr::MulRot(_n, o._n)); }
  EuclideanExpression operator*(const EuclideanExpression& v) const { return expr::PV(new expr::RotVec(_n, v.root())); }
  void evaluateJacobians(JacobianContainer& J) const { _n->jac(J, Eigen::Matrix3d::Identity()); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  expr::PR root() const { return _n; }
 private:
  expr::PR _n;
};

class TransformationExpression {
 public:
  TransformationExpression() : _set(false) {}
  TransformationExpression(const RotationExpression& R, const EuclideanExpression& t) : _R(R), _t(t), _set(true) {}
  bool root() const { return _set; }
  Eigen::Matrix4d toTransformationMatrix() const { return sm::kinematics::rt2Transform(_R.toRotationMatrix(), _t.toValue()); }
  TransformationExpression inverse() const { const RotationExpression Ri = _R.inverse(); return TransformationExpression(Ri, -(Ri * _t)); }
  TransformationExpression operator*(const TransformationExpression& o) const { return TransformationExpression(_R * o._R, _R * o._t + _t); }
  RotationExpression toRotationExpression() const { return _R; }
  EuclideanExpression toEuclideanExpression() const { return _t; }
  // chain is with respect to [rho; phi] with T <- [I - phi x, rho; 0 1] T
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const {
    _t.evaluateJacobians(J, c.leftCols(3));
    _R.evaluateJacobians(J, c.rightCols(3) - c.leftCols(3) * sm::kinematics::crossMx(_t.toValue()));
  }
  void getDesignVariables(DesignVariable::set_t& s) const { _R.getDesignVariables(s); _t.getDesignVariables(s); }
 private:
  RotationExpression _R;
  EuclideanExpression _t;
  bool _set;
};

template <typename S> class GenericScalarExpression;
template <typename S> class GenericScalar : public DesignVariable, public expr::Node<S> {
 public:
  GenericScalar(const S& v) : _v(v), _b(v) {}
  const S& toScalar() const { return _v; }
  S value() const override { return _v; }
  GenericScalarExpression<S> toExpression() { return GenericScalarExpression<S>(this); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { J.add(const_cast<GenericScalar*>(this), c); }
  void dvs(DesignVariable::set_t& s) const override { s.insert(const_cast<GenericScalar*>(this)); }
 protected:
  int minimalDimensionsImplementation() const override { return 1; }
  void updateImplementation(const double* d, int) override { _b = _v; _v = _v + S(d[0]); }
  void revertUpdateImplementation() override { _v = _b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m.resize(1, 1); m(0, 0) = (double)_v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { _b = _v; _v = S((double)m(0, 0)); }
 private:
  S _v, _b;
};
namespace expr {
template <typename S> struct AddGen : Node<S> { std::shared_ptr<Node<S> > a, b; int sg; AddGen(std::shared_ptr<Node<S> > x, std::shared_ptr<Node<S> > y, int g) : a(x), b(y), sg(g) {}
  S value() const override { return sg > 0 ? a->value() + b->value() : a->value() - b->value(); }
  void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override { a->jac(J, c); b->jac(J, sg * c); }
  void dvs(DesignVariable::set_t& s) const override { a->dvs(s); b->dvs(s); } };
}
template <typename S> class GenericScalarExpression {
 public:
  typedef std::shared_ptr<expr::Node<S> > P;
  explicit GenericScalarExpression(GenericScalar<S>* p) : _n(expr::hold<S>(p)) {}
  template <typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value>::type> explicit GenericScalarExpression(T v) : _n(new expr::Const<S>(S(v))) {}
  explicit GenericScalarExpression(P n) : _n(n) {}
  S toScalar() const { return _n->value(); }
  S toValue() const { return _n->value(); }
  GenericScalarExpression operator+(const GenericScalarExpression& o) const { return GenericScalarExpression(P(new expr::AddGen<S>(_n, o._n, 1))); }
  GenericScalarExpression operator-(const GenericScalarExpression& o) const { return GenericScalarExpression(P(new expr::AddGen<S>(_n, o._n, -1))); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& c) const { _n->jac(J, c); }
  void getDesignVariables(DesignVariable::set_t& s) const { _n->dvs(s); }
  P root() const { return _n; }
 private:
  P _n;
};

struct Vector2RotationQuaternionExpressionAdapter {
  static RotationExpression adapt(const VectorExpression<4>& q) { return RotationExpression(expr::PR(new expr::QuatRot(q.root()))); }
};
} }
