#pragma once
#include <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics {
// C = Rz(yaw) Ry(pitch) Rx(roll)
class EulerAnglesYawPitchRoll {
 public:
  EulerAnglesYawPitchRoll() {}
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p) const { return Rz(p(0)) * Ry(p(1)) * Rx(p(2)); }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    const double s = std::max(-1.0, std::min(1.0, -C(2, 0)));
    return Eigen::Vector3d(std::atan2(C(1, 0), C(0, 0)), std::asin(s), std::atan2(C(2, 1), C(2, 2)));
  }
  // S with phi = S dp for C(p + dp) = (I - [phi]x) C(p)
  Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const {
    Eigen::Matrix3d S;
    S.col(0) = -Eigen::Vector3d::UnitZ(); S.col(1) = -(Rz(p(0)) * Eigen::Vector3d::UnitY()); S.col(2) = -(Rz(p(0)) * Ry(p(1)) * Eigen::Vector3d::UnitX());
    return S;
  }
};
} }
