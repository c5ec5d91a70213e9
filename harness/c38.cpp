// C38: the camera validator: configuration, errors and statistics over images, what is drawn
#include "cam.hpp"
#include <boost/make_shared.hpp>
#include <aslam/calibration/camera/CameraValidator.h>
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
using namespace cam;
struct Val : public ac::CameraValidator {
  Val(const sm::PropertyTree& i, const Options& o) : ac::CameraValidator(i, o) {}
  Val(const sm::PropertyTree& i, const sm::PropertyTree& t) : ac::CameraValidator(i, t) {}
  using ac::CameraValidator::_calibrationTarget; using ac::CameraValidator::_detector; using ac::CameraValidator::_geometry;
};
typedef ac::CameraValidator::Options Opt;

static void writeIntrinsics(const Setup& u, sm::PropertyTree& t) {
  const char* n[] = {"fu", "fv", "cu", "cv"}; const char* d[] = {"k1", "k2", "p1", "p2"};
  if (u.omni) t.setDouble("projection/xi", u.p[0]);
  for (int i = 0; i < 4; ++i) { t.setDouble(std::string("projection/") + n[i], u.p[u.p.size() - 4 + i]); t.setDouble(std::string("projection/distortion/") + d[i], u.d[i]); }
  t.setInt("projection/ru", u.ru); t.setInt("projection/rv", u.rv); t.setString("projection/type", u.omni ? "omni" : "pinhole");
  t.setDouble("shutter/line-delay", 0); t.setString("mask/mask-file", "");
}
static void checkCamera(const Val& v, const Setup& u, const std::string& at) {
  VEQ(dynamic_cast<acam::DistortedOmniCameraGeometry*>(v._geometry.get()) != nullptr, u.omni, "projection model " << at);
  VCHECK(v._geometry->p == u.p && v._geometry->d == u.d && v._geometry->ru_ == u.ru && v._geometry->rv_ == u.rv, "intrinsics " << v._geometry->p.transpose() << " " << at);
}
CLAUSE(configuration, 3000, 40000, "some but not all options were configured") {
  Setup u = makeSetup(s);
  sm::PropertyTree root, t(root, "camera/calibrator"), in(root, "intrinsics");
  Opt o; bool left = false;
  writeIntrinsics(u, in);
  commonOptions(s, t, o, left);
  if (s.chance(1, 10)) {
    in.setString("projection/type", s.flip() ? "Pinhole" : "");
    VTHROWS(ac::BadArgumentException<std::string>, (Val{in, t}), "unknown projection"); VTHROWS(ac::BadArgumentException<std::string>, (Val{in, o}), "unknown projection");
    s.nontrivial(); return;
  }
  Val c(in, t), d(in, o);
  int k = 0;
  for (const Val* v : {&c, &d}) {
    const std::string at = k++ ? "from options" : "configured";
    compareCommon(v->getOptions(), o, at); compareCommon(const_cast<Val*>(v)->getOptions(), o, at);
    compareVision(*v->_calibrationTarget, *v->_detector, v->_geometry.get(), o, at); checkCamera(*v, u, at);
    VCHECK(v->getObservations().empty() && v->getErrors().empty() && v->getMahalanobisDistances().empty(), "fresh " << at);
    VCHECK(v->getReprojectionErrorMean().size() == 0 && v->getReprojectionErrorVariance().size() == 0 && v->getReprojectionErrorStandardDeviation().size() == 0, "fresh " << at);
    VCHECK(v->getReprojectionErrorMaxXError() == 0 && v->getReprojectionErrorMaxYError() == 0 && v->getNumOutliers() == 0, "fresh " << at);
    cv::Mat m; v->getLastImage(m); VCHECK(m.empty(), "an image from nowhere " << at);
  }
  s.nontrivial(left);
}

static std::vector<double> numbers(const std::string& t) {
  std::vector<double> r;
  for (size_t i = 0; i < t.size();) {
    const char* b = t.c_str() + i; char* e;
    const bool start = i == 0 || t[i - 1] == ' ' || t[i - 1] == '[' || t[i - 1] == '=';
    const double v = start ? std::strtod(b, &e) : (e = const_cast<char*>(b), 0.0);
    if (e != b && *b != ' ') { r.push_back(v); i += e - b; } else ++i;
  }
  return r;
}
static bool colored(const cv::Draw& d, double r, double g, double b) { return d.color.v[0] == r && d.color.v[1] == g && d.color.v[2] == b; }
static void near5(double a, double b, double scale, const std::string& what) { VCHECK(std::abs(a - b) <= 1.1e-5 * std::abs(b) + 1e-9 * scale, what << ": printed " << a << " expected " << b); }

CLAUSE(images, 2500, 40000, "corners were missing, and images without a target occurred") {
  Setup u = makeSetup(s), world = u;
  // the camera assumed differs from the one that took the images
  for (int i = 0; i < world.d.size(); ++i) world.d[i] += s.real(-0.005, 0.005);
  world.p.tail(2) += Eigen::Vector2d(s.real(-2, 2), s.real(-2, 2));
  sm::PropertyTree root, in(root, "intrinsics");
  writeIntrinsics(u, in);
  Opt o; o.rows = u.rows; o.cols = u.cols; o.rowSpacingMeters = u.rs; o.colSpacingMeters = u.cs; o.verbose = s.chance(1, 4); o.sigma2 = s.flip() ? 1.0 : s.logReal(0.05, 5);
  o.cameraProjectionType = s.flip() ? "omni" : "pinhole";  // what counts is the type of the intrinsics
  Val v(in, o);
  std::vector<Eigen::Vector2d> errors; std::vector<std::shared_ptr<acam::SeenTarget> > held; std::vector<sm::timing::NsecTime> times;
  const bool nothing = s.chance(1, 8);
  bool gaps = false, missed = false;
  Quiet q;
  for (size_t step = 0, n = 1 + s.index(6); step < n; ++step) {
    const std::string at = "at image " + std::to_string(step);
    auto seen = see(s, world, randomPose(s, u), 2, s.chance(1, 8) ? 1 : 6);
    if (nothing) seen->corners.clear();
    // a corner the validator can not predict, the target lies partly behind the camera or outside the image
    if (s.chance(1, 5)) { Tf other = randomPose(s, u); Eigen::Matrix4d T = other.T(); T.topRightCorner<3, 1>() += T.topLeftCorner<3, 3>() * Eigen::Vector3d(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); seen->pose = Tf(T); }
    seen->found = !s.chance(1, 5);
    cv::Mat img = imageOf(seen);
    const auto t = 1000000000LL * (long)s.range(1, 1000) + (long)s.range(0, 999999999);
    std::vector<Eigen::Vector2d> now; std::vector<std::pair<Eigen::Vector2d, Eigen::Vector2d> > pairs;
    auto g = camera(u);
    for (auto& c : seen->corners) {
      Eigen::Vector2d k;
      if (!g->homogeneousToKeypoint(seen->pose.inverse().T() * corner(u, c.first), k)) continue;
      now.push_back(k - c.second); pairs.emplace_back(c.second, k);
    }
    s.desc() << (seen->found ? "image(" : "none(") << seen->corners.size() << "," << now.size() << ") ";
    VEQ(v.addImage(img, t), seen->found, at);
    if (seen->found) { held.push_back(seen); times.push_back(t); errors.insert(errors.end(), now.begin(), now.end()); gaps = gaps || now.size() < u.rows * u.cols; } else missed = true;
    VEQ(v.getObservations().size(), held.size(), at);
    for (size_t i = 0; i < held.size(); ++i) { auto& ob = *v.getObservations()[i]; VCHECK(ob.img.seen == held[i] && ob.time().toSec() == sm::timing::nsecToSec(times[i]), "observation " << i << " " << at); }
    VEQ(v.getErrors().size(), errors.size(), at); VEQ(v.getMahalanobisDistances().size(), errors.size(), at);
    double qs[] = {0.975, 0.5, s.real(0.01, 0.999)}; size_t out[3] = {0, 0, 0}; bool edge[3] = {false, false, false};
    for (size_t i = 0; i < errors.size(); ++i) {
      VCHECK((v.getErrors()[i] - errors[i]).norm() < 1e-9, "error " << i << ": " << v.getErrors()[i].transpose() << " expected " << errors[i].transpose() << " " << at);
      const double md = errors[i].squaredNorm() / o.sigma2;
      VCLOSE(v.getMahalanobisDistances()[i], md, 1e-9, 1e-12, "distance " << i << " " << at);
      for (int j = 0; j < 3; ++j) { const double lim = -2 * std::log1p(-qs[j]); out[j] += md > lim; edge[j] = edge[j] || std::abs(md - lim) < 1e-9 * lim; }
    }
    for (int j = 0; j < 3; ++j) if (!edge[j]) VEQ(v.getNumOutliers(qs[j]), out[j], "outliers at " << qs[j] << " " << at);
    VEQ(v.getNumOutliers(), v.getNumOutliers(0.975), at);
    const Stat2 st = stat2(errors);
    const Eigen::VectorXd m = v.getReprojectionErrorMean(), var = v.getReprojectionErrorVariance(), sd = v.getReprojectionErrorStandardDeviation();
    VCLOSE(v.getReprojectionErrorMaxXError(), st.maxAbs[0], 1e-9, 1e-12, at); VCLOSE(v.getReprojectionErrorMaxYError(), st.maxAbs[1], 1e-9, 1e-12, at);
    if (st.valid) {
      VCHECK(m.size() == 2 && var.size() == 2 && sd.size() == 2, "no statistics " << at);
      VCHECK((m - st.mean).norm() < 1e-8 * (1 + st.mean.norm()) && (var - st.var).norm() < 1e-6 * st.var.norm() + 1e-11 * st.mean.squaredNorm() && (sd.cwiseAbs2() - var).norm() < 1e-9 * (1 + var.norm()), "statistics " << m.transpose() << " | " << var.transpose() << " expected " << st.mean.transpose() << " | " << st.var.transpose() << " " << at);
    } else if (st.clear) VCHECK(m.size() == 0 && var.size() == 0 && sd.size() == 0, "statistics of too little " << at);

    // what is drawn: on a copy of the last image with a target
    cv::Mat shown; v.getLastImage(shown);
    if (held.empty()) { VCHECK(shown.empty(), "an image from nowhere " << at); continue; }
    VCHECK(shown.seen == held.back() && shown.rows == u.rv && shown.cols == u.ru, "image shown " << at);
    VCHECK(v.getObservations().back()->img.drawn->empty(), "the image taken was drawn on " << at);
    if (!seen->found) continue;
    for (int side = 0; side < 2; ++side) {  // observed green, predicted red
      size_t circles = 0, lines = 0;
      std::vector<const cv::Draw*> cs;
      for (auto& d : *shown.drawn) { const bool c = side ? colored(d, 0, 0, 255) : colored(d, 0, 255, 0); if (c && d.kind == "circle") { circles++; cs.push_back(&d); } else if (c && d.kind == "line") lines++; }
      VEQ(circles, pairs.size(), (side ? "predicted" : "observed") << " corners drawn " << at);
      VEQ(lines, 2 * pairs.size(), (side ? "predicted" : "observed") << " crosses drawn " << at);
      for (size_t i = 0; i < pairs.size(); ++i) {
        const Eigen::Vector2d p = side ? pairs[i].second : pairs[i].first;
        bool has = false;
        for (auto c : cs) has = has || (std::abs(c->a.x - p[0]) <= 0.5 + 1e-6 && std::abs(c->a.y - p[1]) <= 0.5 + 1e-6);
        VCHECK(has, (side ? "predicted" : "observed") << " corner " << i << " is not drawn where it is " << at);
      }
    }
    std::vector<std::string> text; for (auto& d : *shown.drawn) if (d.kind == "text") text.push_back(d.text);
    VEQ(text.size(), 2u, at);
    auto a = numbers(text[0]), b = numbers(text[1]);
    VCHECK(a.size() == 2 && b.size() == 7, "numbers in \"" << text[0] << "\" and \"" << text[1] << "\" " << at);
    double sum = 0, mx = 0; size_t no = 0; bool e = false;
    for (auto& x : now) { sum += x.norm(); mx = std::max(mx, x.norm()); no += x.squaredNorm() / o.sigma2 > kQ975; e = e || std::abs(x.squaredNorm() / o.sigma2 - kQ975) < 1e-8; }
    const Stat2 sn = stat2(now);
    near5(a[0], now.empty() ? 0.0 : sum / (double)now.size(), 1, "average " + at); near5(a[1], mx, 1, "maximum " + at);
    if (sn.valid) { for (int i = 0; i < 2; ++i) { near5(b[i], sn.mean[i], 1, "mean " + at); near5(b[2 + i], std::sqrt(sn.var[i]), 100, "deviation " + at); } }
    for (int i = 0; i < 2; ++i) near5(b[4 + i], sn.maxAbs[i], 1, "largest error " + at);
    if (!e) VEQ(b[6], (double)no, "outliers shown " << at);
  }
  s.nontrivial(gaps && missed);
}

CLAUSE(agreement, 200, 3000, "the calibration was written after an accepted batch") {
  // the calibration written by the calibrator, read by the validator: errors are those of the calibrator, with the other sign
  Setup u = makeSetup(s);
  ac::CameraCalibrator::Options co; co.rows = u.rows; co.cols = u.cols; co.rowSpacingMeters = u.rs; co.colSpacingMeters = u.cs; co.cameraProjectionType = u.omni ? "omni" : "pinhole"; co.sigma2 = s.logReal(0.05, 5);
  co.batchNumImages = 2 + s.index(2);
  est::Est::Options eo; eo.infoGainDelta = -1e18;
  ac::CameraCalibrator c(boost::make_shared<est::Est>(co.calibrationGroupId, eo, est::solverOptions(true), est::optimizerOptions(0)), co);
  std::vector<cv::Mat> imgs;
  for (size_t k = 0; k < co.batchNumImages; ++k) imgs.push_back(imageOf(see(s, u, randomPose(s, u), 1, 6)));
  const bool batch = s.chance(4, 5);
  VCHECK(c.initGeometry(imgs[0]), "initialization");
  if (batch) for (size_t k = 0; k < imgs.size(); ++k) { bool ok = false; try { ok = c.addImage(imgs[k], (long)k); } catch (const std::exception&) { throw vpt::Discard(); } VCHECK(ok, "image " << k); }
  if (batch && c.getEstimator()->getNumBatches() == 0) throw vpt::Discard();
  sm::PropertyTree root, in(root, "intrinsics"); c.write(in);
  Opt o; o.rows = u.rows; o.cols = u.cols; o.rowSpacingMeters = u.rs; o.colSpacingMeters = u.cs; o.sigma2 = co.sigma2;
  Val v(in, o);
  checkCamera(v, u, "as calibrated");
  for (auto& i : imgs) VCHECK(v.addImage(i, 0), "an image");
  if (batch) {
    std::vector<Eigen::Vector2d> e(1); std::vector<double> md; c.getErrors(e, md);
    size_t k = 0;
    // a corner moved out of the image by noise has a prediction inside; the other way round the validator leaves it out
    for (size_t i = 0; i < e.size() && e.size() == v.getErrors().size(); ++i, ++k) {
      VCHECK((e[i] + v.getErrors()[i]).norm() < 1e-7, "error " << i << " calibrator " << e[i].transpose() << " validator " << v.getErrors()[i].transpose());
      VCLOSE(md[i], v.getMahalanobisDistances()[i], 1e-6, 1e-9, "distance " << i);
    }
    VEQ(v.getErrors().size(), e.size(), "errors");
  }
  s.nontrivial(batch);
}
