// shared pieces of the camera checks: cameras, targets, images of them, configurations
#pragma once
#include "est.hpp"
#include <iostream>
#include <opencv2/core/core.hpp>
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridDetector.hpp>
#include <aslam/ReprojectionError.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
namespace cam {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
namespace acam = aslam::cameras;
typedef sm::kinematics::Transformation Tf;
struct Setup { size_t rows, cols; double rs, cs; bool omni; Eigen::VectorXd p, d; int ru, rv; };
inline boost::shared_ptr<acam::CameraGeometryBase> camera(const Setup& u) {
  boost::shared_ptr<acam::CameraGeometryBase> g;
  if (u.omni) g = boost::make_shared<acam::DistortedOmniCameraGeometry>(); else g = boost::make_shared<acam::DistortedPinholeCameraGeometry>();
  g->p = u.p; g->d = u.d; g->ru_ = u.ru; g->rv_ = u.rv;
  return g;
}
inline Setup makeSetup(vpt::Src& s) {
  Setup u;
  u.rows = 2 + s.index(4); u.cols = 2 + s.index(4); u.rs = 0.04 + 0.01 * (double)s.range(0, 4); u.cs = 0.05 + 0.01 * (double)s.range(0, 4);
  u.omni = s.flip();
  u.ru = 640 + (int)s.index(3) * 100; u.rv = 480 + (int)s.index(3) * 70;
  u.p.resize(u.omni ? 5 : 4);
  const double f = s.real(300, 500), k = u.omni ? 1 + (u.p[0] = s.real(0.5, 1.2)) : 1;
  u.p.tail(4) << f * k, f * k * s.real(0.95, 1.05), u.ru / 2.0 + s.real(-20, 20), u.rv / 2.0 + s.real(-20, 20);
  u.d.resize(4);
  u.d << s.real(-0.1, 0.1), s.real(-0.02, 0.02), s.real(-0.002, 0.002), s.real(-0.002, 0.002);
  s.note([&](std::ostream& o) { o << (u.omni ? "omni" : "pinhole") << " target " << u.rows << "x" << u.cols << " p=" << u.p.transpose() << " d=" << u.d.transpose() << " image " << u.ru << "x" << u.rv << "\n"; });
  return u;
}
inline Tf randomPose(vpt::Src& s, const Setup& u) {  // camera in target coordinates, looking at the target
  Eigen::Vector3d a(s.real(-0.5, 0.5), s.real(-0.5, 0.5), s.real(-1.5, 1.5));
  const Eigen::Matrix3d C = (Eigen::AngleAxisd(a[0], Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(a[1], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(a[2], Eigen::Vector3d::UnitZ())).toRotationMatrix();
  const Eigen::Vector3d mid(u.rs * (u.rows - 1) / 2, u.cs * (u.cols - 1) / 2, 0);
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = C;
  T.topRightCorner<3, 1>() = Eigen::Vector3d(s.real(-0.08, 0.08), s.real(-0.08, 0.08), s.real(0.4, 1.0)) - C * mid;
  return Tf(Eigen::Matrix4d(T.inverse()));
}
inline Eigen::Vector4d corner(const Setup& u, size_t i) { return Eigen::Vector4d(u.rs * (double)(i / u.cols), u.cs * (double)(i % u.cols), 0, 1); }
inline std::shared_ptr<acam::SeenTarget> see(vpt::Src& s, const Setup& u, const Tf& pose, double noise, int drop) {
  auto t = std::make_shared<acam::SeenTarget>();
  t->p = u.p; t->d = u.d; t->ru = u.ru; t->rv = u.rv; t->pose = pose;
  auto g = camera(u);
  for (size_t i = 0; i < u.rows * u.cols; ++i) {
    Eigen::Vector2d k;
    if (!g->homogeneousToKeypoint(pose.inverse().T() * corner(u, i), k)) continue;
    if (drop && s.chance(1, drop)) continue;
    if (noise > 0) k += Eigen::Vector2d(s.real(-noise, noise), s.real(-noise, noise));
    t->corners[i] = k;
  }
  return t;
}
inline cv::Mat imageOf(std::shared_ptr<acam::SeenTarget> t) { cv::Mat m(t->rv, t->ru, CV_8UC1); m.seen = t; return m; }

struct Quiet {  // swallows what is printed
  std::ostringstream o; std::streambuf *a, *b;
  Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
// random values for the options shared by calibrator and validator; what has a default can be left out
template <typename O> void commonOptions(vpt::Src& s, sm::PropertyTree& t, O& o, bool& left) {
  auto skip = [&] { const bool k = s.chance(1, 4); left = left || k; return k; };
  auto I = [&](const char* k, size_t& v) { if (skip()) return; v = 2 + s.index(5); t.setInt(k, (int)v); };
  auto D = [&](const char* k, double& v) { if (skip()) return; v = s.logReal(1e-2, 1e1); t.setDouble(k, v); };
  auto B = [&](const char* k, bool& v) { if (skip()) return; v = s.flip(); t.setBool(k, v); };
  I("rows", o.rows); I("cols", o.cols); D("rowSpacingMeters", o.rowSpacingMeters); D("colSpacingMeters", o.colSpacingMeters);
  B("useAdaptiveThreshold", o.useAdaptiveThreshold); B("normalizeImage", o.normalizeImage); B("filterQuads", o.filterQuads); B("doSubpixelRefinement", o.doSubpixelRefinement); B("showExtractionVideo", o.showExtractionVideo);
  // these have to be given
  t.setBool("plotCornerReprojection", o.plotCornerReprojection = s.flip()); t.setBool("imageStepping", o.imageStepping = s.flip()); t.setBool("filterCornerOutliers", o.filterCornerOutliers = s.flip());
  double a = s.logReal(0.1, 9), b = s.logReal(0.1, 9); t.setDouble("filterCornerSigmaThreshold", a); t.setDouble("filterCornerMinReprojError", b);
  o.filterCornerSigmaThreshold = (float)a; o.filterCornerMinReprojError = (float)b;
  if (!skip()) { o.cameraProjectionType = s.flip() ? "omni" : "pinhole"; t.setString("cameraProjectionType", o.cameraProjectionType); }
  D("sigma2", o.sigma2); if (s.chance(1, 6)) B("verbose", o.verbose);
}
template <typename O> void compareCommon(const O& a, const O& b, const std::string& at) {
  VEQ(a.rows, b.rows, at); VEQ(a.cols, b.cols, at); VEQ(a.rowSpacingMeters, b.rowSpacingMeters, at); VEQ(a.colSpacingMeters, b.colSpacingMeters, at);
  VEQ(a.useAdaptiveThreshold, b.useAdaptiveThreshold, at); VEQ(a.normalizeImage, b.normalizeImage, at); VEQ(a.filterQuads, b.filterQuads, at); VEQ(a.doSubpixelRefinement, b.doSubpixelRefinement, at);
  VEQ(a.showExtractionVideo, b.showExtractionVideo, at); VEQ(a.plotCornerReprojection, b.plotCornerReprojection, at); VEQ(a.imageStepping, b.imageStepping, at); VEQ(a.filterCornerOutliers, b.filterCornerOutliers, at);
  VEQ(a.filterCornerSigmaThreshold, b.filterCornerSigmaThreshold, at); VEQ(a.filterCornerMinReprojError, b.filterCornerMinReprojError, at); VEQ(a.cameraProjectionType, b.cameraProjectionType, at);
  VEQ(a.sigma2, b.sigma2, at); VEQ(a.verbose, b.verbose, at);
}
template <typename O> void compareVision(const acam::GridCalibrationTargetCheckerboard& t, const acam::GridDetector& d, const acam::CameraGeometryBase* g, const O& o, const std::string& at) {
  VEQ(t.rows, o.rows, at); VEQ(t.cols, o.cols, at); VEQ(t.rowSpacing, o.rowSpacingMeters, at); VEQ(t.colSpacing, o.colSpacingMeters, at);
  VEQ(t.options.useAdaptiveThreshold, o.useAdaptiveThreshold, at); VEQ(t.options.normalizeImage, o.normalizeImage, at); VEQ(t.options.filterQuads, o.filterQuads, at);
  VEQ(t.options.doSubpixelRefinement, o.doSubpixelRefinement, at); VEQ(t.options.showExtractionVideo, o.showExtractionVideo, at);
  VCHECK(d.target.get() == &t && d.geometry.get() == g, "the detector looks for another target or camera " << at);
  VEQ(d.options.plotCornerReprojection, o.plotCornerReprojection, at); VEQ(d.options.imageStepping, o.imageStepping, at); VEQ(d.options.filterCornerOutliers, o.filterCornerOutliers, at);
  VEQ(d.options.filterCornerSigmaThreshold, (double)o.filterCornerSigmaThreshold, at); VEQ(d.options.filterCornerMinReprojError, (double)o.filterCornerMinReprojError, at);
}
// mean, population covariance and validity of 2-D errors
struct Stat2 { Eigen::Vector2d mean, var, maxAbs; bool valid, clear; };
inline Stat2 stat2(const std::vector<Eigen::Vector2d>& e) {
  Stat2 r; r.mean.setZero(); r.maxAbs.setZero();
  for (auto& x : e) { r.mean += x; r.maxAbs = r.maxAbs.cwiseMax(x.cwiseAbs()); }
  if (!e.empty()) r.mean /= (double)e.size();
  Eigen::Matrix2d C = Eigen::Matrix2d::Zero();
  for (auto& x : e) C += (x - r.mean) * (x - r.mean).transpose();
  if (!e.empty()) C /= (double)e.size();
  r.var = C.diagonal();
  const double det = C.determinant(), tr = C.trace();
  r.valid = e.size() > 2 && det > 1e-8 * tr * tr && tr > 1e-18 && det > 1e-10 * tr * r.mean.squaredNorm();
  r.clear = r.valid || e.size() < 2;   // in between, rounding decides
  return r;
}
static const double kQ975 = 7.377758908227872;  // of chi-square with two degrees of freedom
}
