#pragma once
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/SVD>
namespace sm { namespace kinematics {
// the rigid transformation T_0_1 that brings the points p1 closest to the points p0 (one per column)
inline Eigen::Matrix4d threePointSvd(const Eigen::MatrixXd& p0, const Eigen::MatrixXd& p1) {
  if (p0.rows() != 3 || p1.rows() != 3 || p0.cols() != p1.cols()) throw std::runtime_error("threePointSvd: sizes");
  const Eigen::Vector3d m0 = p0.rowwise().mean(), m1 = p1.rowwise().mean();
  const Eigen::Matrix3d H = (p0.colwise() - m0) * (p1.colwise() - m1).transpose();
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
  Eigen::Matrix3d D = Eigen::Matrix3d::Identity();
  D(2, 2) = (svd.matrixU() * svd.matrixV().transpose()).determinant() < 0 ? -1 : 1;
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = svd.matrixU() * D * svd.matrixV().transpose();
  T.topRightCorner<3, 1>() = m0 - T.topLeftCorner<3, 3>() * m1;
  return T;
}
} }
