#pragma once
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
namespace sm { namespace kinematics {
class Transformation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : _q(quatIdentity()), _t(Eigen::Vector3d::Zero()) {}
  Transformation(const Eigen::Matrix4d& T) : _q(r2quat(T.topLeftCorner<3, 3>())), _t(T.topRightCorner<3, 1>()) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : _q(q / q.norm()), _t(t) {}
  Eigen::Matrix4d T() const { return rt2Transform(C(), _t); }
  Eigen::Matrix3d C() const { return quat2r(_q); }
  const Eigen::Vector3d& t() const { return _t; }
  const Eigen::Vector4d& q() const { return _q; }
  Transformation inverse() const { return Transformation(quatInv(_q), -(C().transpose() * _t)); }
  Transformation operator*(const Transformation& o) const { return Transformation(qplus(_q, o._q), C() * o._t + _t); }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return C() * p + _t; }
  Eigen::Vector4d operator*(const Eigen::Vector4d& p) const { return T() * p; }
 private:
  Eigen::Vector4d _q;
  Eigen::Vector3d _t;
};
} }
