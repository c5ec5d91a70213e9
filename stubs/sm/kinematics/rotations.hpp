#pragma once
#include <cmath>
#include <Eigen/Core>
namespace sm { namespace kinematics {
inline Eigen::Matrix3d Rx(double a) { const double c = std::cos(a), s = std::sin(a); Eigen::Matrix3d C; C << 1, 0, 0, 0, c, -s, 0, s, c; return C; }
inline Eigen::Matrix3d Ry(double a) { const double c = std::cos(a), s = std::sin(a); Eigen::Matrix3d C; C << c, 0, s, 0, 1, 0, -s, 0, c; return C; }
inline Eigen::Matrix3d Rz(double a) { const double c = std::cos(a), s = std::sin(a); Eigen::Matrix3d C; C << c, -s, 0, s, c, 0, 0, 0, 1; return C; }
inline Eigen::Matrix3d crossMx(double x, double y, double z) { Eigen::Matrix3d C; C << 0, -z, y, z, 0, -x, -y, x, 0; return C; }
inline Eigen::Matrix3d crossMx(const Eigen::Vector3d& v) { return crossMx(v(0), v(1), v(2)); }
// to [-pi, pi]
inline double angleMod(double a) { return a - 2 * M_PI * std::round(a / (2 * M_PI)); }
inline double deg2rad(double a) { return a * M_PI / 180; }
inline double rad2deg(double a) { return a * 180 / M_PI; }
} }
