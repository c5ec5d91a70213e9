#pragma once
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/HomogeneousPoint.hpp>
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
namespace aslam {
// measured minus predicted image point, weighted with the inverse of the covariance given
class ReprojectionError : public backend::ErrorTermFs<2> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ReprojectionError(const Eigen::Vector2d& y_, const Eigen::Matrix2d& R, const backend::HomogeneousExpression& p, CameraGeometryDesignVariableContainer* c) : y(y_), point(p), camera(c) {
    setInvR(R.inverse());
    backend::DesignVariable::set_t s; p.getDesignVariables(s); c->getDesignVariables(s);
    setDesignVariablesIterator(s.begin(), s.end());
  }
  Eigen::Vector2d y; backend::HomogeneousExpression point; CameraGeometryDesignVariableContainer* camera;
 protected:
  Eigen::Vector2d project(const Eigen::Vector4d& p) const { Eigen::Vector2d k; camera->geometry->homogeneousToKeypoint(p, k); return k; }
  double evaluateErrorImplementation() override { setError(y - project(point.toHomogeneous())); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(backend::JacobianContainer& J) override {
    const Eigen::Vector4d p = point.toHomogeneous(); const double h = 1e-6;
    Eigen::MatrixXd D(2, 4);
    for (int i = 0; i < 4; ++i) D.col(i) = -(project(p + h * Eigen::Vector4d::Unit(i)) - project(p - h * Eigen::Vector4d::Unit(i))) / (2 * h);
    point.evaluateJacobians(J, D);
    for (int k = 0; k < 2; ++k) if (camera->use[k]) {
      Eigen::VectorXd& v = *camera->part[k].v; Eigen::MatrixXd E(2, v.size());
      for (int i = 0; i < v.size(); ++i) { const double x = v[i], e = 1e-6 * (1 + std::fabs(x)); v[i] = x + e; const Eigen::Vector2d a = project(p); v[i] = x - e; const Eigen::Vector2d b = project(p); v[i] = x; E.col(i) = -(a - b) / (2 * e); }
      J.add(&camera->part[k], E);
    }
  }
};
}
