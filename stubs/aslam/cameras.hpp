// stand-in for aslam_cameras: pinhole and omnidirectional projection with radial-tangential distortion
#pragma once
#include <cmath>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam { namespace cameras {
class CameraGeometryBase {
 public:
  virtual ~CameraGeometryBase() {}
  // the parameters: projection, then distortion (the shutter has none)
  Eigen::VectorXd p, d;
  int ru_, rv_;
  void getParameters(Eigen::MatrixXd& out, bool projection, bool distortion, bool) const {
    Eigen::VectorXd v((projection ? p.size() : 0) + (distortion ? d.size() : 0));
    if (projection) v.head(p.size()) = p;
    if (distortion) v.tail(d.size()) = d;
    out = v;
  }
  int minimalDimensionsProjection() const { return (int)p.size(); }
  int minimalDimensionsDistortion() const { return (int)d.size(); }
  int minimalDimensionsShutter() const { return 0; }
  virtual double xi() const = 0;
  // false behind the camera or outside the image
  bool homogeneousToKeypoint(const Eigen::Vector4d& ph, Eigen::Vector2d& out) const {
    const Eigen::Vector3d v = ph.head<3>() * (ph[3] < 0 ? -1 : 1);
    const double z = v[2] + xi() * v.norm();
    if (z < 1e-9 || v[2] < 1e-9) { out.setZero(); return false; }
    const double x = v[0] / z, y = v[1] / z, r2 = x * x + y * y, k = d[0] * r2 + d[1] * r2 * r2;
    const double xd = x + x * k + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x), yd = y + y * k + 2 * d[3] * x * y + d[2] * (r2 + 2 * y * y);
    const int o = (int)p.size() - 4;
    out = Eigen::Vector2d(p[o] * xd + p[o + 2], p[o + 1] * yd + p[o + 3]);
    return out[0] >= 0 && out[1] >= 0 && out[0] < ru_ && out[1] < rv_;
  }
  bool vsHomogeneousToKeypoint(const Eigen::Vector4d& ph, Eigen::VectorXd& out) const { Eigen::Vector2d k; const bool ok = homogeneousToKeypoint(ph, k); out = k; return ok; }
 protected:
  CameraGeometryBase(int n) : p(Eigen::VectorXd::Zero(n)), d(Eigen::VectorXd::Zero(4)), ru_(0), rv_(0) {}
};
struct ProjectionView { const CameraGeometryBase* g; int ru() const { return g->ru_; } int rv() const { return g->rv_; } };
template <bool Omni> class Distorted : public CameraGeometryBase {
 public:
  Distorted() : CameraGeometryBase(Omni ? 5 : 4) {}
  explicit Distorted(const sm::PropertyTree& c) : CameraGeometryBase(Omni ? 5 : 4) {
    const char* names[] = {"projection/fu", "projection/fv", "projection/cu", "projection/cv"};
    if (Omni) p[0] = c.getDouble("projection/xi");
    for (int i = 0; i < 4; ++i) p[p.size() - 4 + i] = c.getDouble(names[i]);
    ru_ = c.getInt("projection/ru"); rv_ = c.getInt("projection/rv");
    const char* dn[] = {"projection/distortion/k1", "projection/distortion/k2", "projection/distortion/p1", "projection/distortion/p2"};
    for (int i = 0; i < 4; ++i) d[i] = c.getDouble(dn[i]);
    c.getDouble("shutter/line-delay"); c.getString("mask/mask-file");
  }
  double xi() const override { return Omni ? p[0] : 0.0; }
  ProjectionView projection() const { return ProjectionView{this}; }
};
class DistortedPinholeCameraGeometry : public Distorted<false> { public: DistortedPinholeCameraGeometry() {} explicit DistortedPinholeCameraGeometry(const sm::PropertyTree& c) : Distorted<false>(c) {} };
class DistortedOmniCameraGeometry : public Distorted<true> { public: DistortedOmniCameraGeometry() {} explicit DistortedOmniCameraGeometry(const sm::PropertyTree& c) : Distorted<true>(c) {} };
} }
