#pragma once
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/Expressions.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <Eigen/LU>
namespace aslam { namespace backend {
// error: translation difference and rotation vector between an expression and a measured transformation
class ErrorTermTransformation : public ErrorTermFs<6> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ErrorTermTransformation(const TransformationExpression& T, const sm::kinematics::Transformation& prior, const Eigen::Matrix<double, 6, 6>& N) : _T(T), _prior(prior) {
    setInvR(N.inverse());
    DesignVariable::set_t s; _T.getDesignVariables(s); setDesignVariablesIterator(s.begin(), s.end());
  }
 protected:
  double evaluateErrorImplementation() override { setError(residual()); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& J) override {
    const Eigen::Matrix4d T = _T.toTransformationMatrix(); const Eigen::Vector3d t = T.topRightCorner<3, 1>();
    Eigen::Matrix<double, 6, 6> D = Eigen::Matrix<double, 6, 6>::Identity();
    D.topRightCorner<3, 3>() = sm::kinematics::crossMx(t);
    const double h = 1e-6;
    for (int k = 0; k < 3; ++k) {
      const Eigen::Vector3d e = h * Eigen::Vector3d::Unit(k);
      D.block<3, 1>(3, 3 + k) = (rot(e) - rot(-e)) / (2 * h);
    }
    _T.evaluateJacobians(J, D);
  }
 private:
  Eigen::Vector3d rot(const Eigen::Vector3d& phi) const {
    using namespace sm::kinematics;
    return quat2AxisAngle(r2quat(quat2r(axisAngle2quat(phi)) * _T.toTransformationMatrix().topLeftCorner<3, 3>() * _prior.C().transpose()));
  }
  Eigen::Matrix<double, 6, 1> residual() const {
    Eigen::Matrix<double, 6, 1> e; e << Eigen::Vector3d(_T.toTransformationMatrix().topRightCorner<3, 1>()) - _prior.t(), rot(Eigen::Vector3d::Zero()); return e;
  }
  TransformationExpression _T;
  sm::kinematics::Transformation _prior;
};
} }
