#pragma once
#include <aslam/cameras.hpp>
#include <aslam/backend/DesignVariable.hpp>
namespace aslam {
// the parameters of a camera as design variables: projection and distortion, in this order
class CameraGeometryDesignVariableContainer {
 public:
  class Part : public backend::DesignVariable {
   public:
    Eigen::VectorXd* v; Eigen::VectorXd b;
   protected:
    int minimalDimensionsImplementation() const override { return (int)v->size(); }
    void updateImplementation(const double* d, int n) override { b = *v; for (int i = 0; i < n; ++i) (*v)[i] += d[i]; }
    void revertUpdateImplementation() override { *v = b; }
    void getParametersImplementation(Eigen::MatrixXd& m) const override { m = *v; }
    void setParametersImplementation(const Eigen::MatrixXd& m) override { b = *v; *v = m.col(0); }
  };
  CameraGeometryDesignVariableContainer(boost::shared_ptr<cameras::CameraGeometryBase> g, bool projection, bool distortion, bool) : geometry(g), use{projection, distortion} {
    part[0].v = &g->p; part[1].v = &g->d;
    for (int i = 0; i < 2; ++i) part[i].setActive(use[i]);
  }
  void getDesignVariables(backend::DesignVariable::set_t& s) { for (int i = 0; i < 2; ++i) if (use[i]) s.insert(&part[i]); }
  boost::shared_ptr<cameras::CameraGeometryBase> geometry;
  bool use[2];
  Part part[2];
};
}
