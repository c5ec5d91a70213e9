// C37: the camera calibrator: configuration, batches of images, results
#include "cam.hpp"
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
using namespace cam;
using est::Est;
struct Cal : public ac::CameraCalibrator {
  Cal(const IncrementalEstimatorPtr& e, const Options& o) : ac::CameraCalibrator(e, o) {}
  explicit Cal(const sm::PropertyTree& t) : ac::CameraCalibrator(t) {}
  using ac::CameraCalibrator::_batch; using ac::CameraCalibrator::_calibrationTarget; using ac::CameraCalibrator::_detector; using ac::CameraCalibrator::_geometry;
  using ac::CameraCalibrator::_landmarkDesignVariables; using ac::CameraCalibrator::_cameraDesignVariableContainer;
};
typedef ac::CameraCalibrator::Options Opt;

static void checkVision(const Cal& c, const Opt& o, const std::string& at) {
  compareVision(*c._calibrationTarget, *c._detector, c._geometry.get(), o, at);
  VEQ(dynamic_cast<acam::DistortedOmniCameraGeometry*>(c._geometry.get()) != nullptr, o.cameraProjectionType == "omni", "projection model " << at);
  VEQ(c._landmarkDesignVariables.size(), o.rows * o.cols, at);
  for (size_t i = 0; i < c._landmarkDesignVariables.size(); ++i) {
    VEQ(c._landmarkDesignVariables[i]->isActive(), o.estimateLandmarks, "landmark " << i << " " << at);
    VCHECK(c._landmarkDesignVariables[i]->toHomogeneous() == sm::kinematics::toHomogeneous(c._calibrationTarget->point(i)), "landmark " << i << " " << at);
  }
  VCHECK(c._cameraDesignVariableContainer->geometry == c._geometry && c._cameraDesignVariableContainer->use[0] && c._cameraDesignVariableContainer->use[1], "camera variables " << at);
}
CLAUSE(configuration, 3000, 40000, "some but not all options were configured") {
  sm::PropertyTree t, v(t, "camera/calibrator");
  Opt o; bool left = false;
  commonOptions(s, v, o, left);
  auto skip = [&] { const bool k = s.chance(1, 4); left = left || k; return k; };
  if (!skip()) v.setBool("estimateLandmarks", o.estimateLandmarks = s.flip());
  auto g = s.permutation(9);
  if (!skip()) v.setInt("landmarksGroupId", (int)(o.landmarksGroupId = 3 + g[0]));
  if (!skip()) v.setInt("calibrationGroupId", (int)(o.calibrationGroupId = 3 + g[1]));
  if (!skip()) v.setInt("transformationsGroupId", (int)(o.transformationsGroupId = 3 + g[2]));
  if (!skip()) v.setInt("batchNumImages", (int)(o.batchNumImages = 1 + s.index(9)));
  if (!skip()) v.setBool("useMEstimator", o.useMEstimator = s.flip());
  v.setInt("estimator/groupId", (int)o.calibrationGroupId);
  const double gain = s.logReal(0.01, 10); v.setDouble("estimator/infoGainDelta", gain);
  if (s.chance(1, 10)) { v.setString("cameraProjectionType", s.flip() ? "Pinhole" : ""); VTHROWS(ac::BadArgumentException<std::string>, Cal bad{v}, "unknown projection"); s.nontrivial(); return; }
  Cal c(v);
  auto same = [&](const Opt& a, const std::string& at) {
    compareCommon(a, o, at); VEQ(a.estimateLandmarks, o.estimateLandmarks, at); VEQ(a.landmarksGroupId, o.landmarksGroupId, at); VEQ(a.calibrationGroupId, o.calibrationGroupId, at);
    VEQ(a.transformationsGroupId, o.transformationsGroupId, at); VEQ(a.batchNumImages, o.batchNumImages, at); VEQ(a.useMEstimator, o.useMEstimator, at);
  };
  same(c.getOptions(), "configured"); same(((const Cal&)c).getOptions(), "configured"); checkVision(c, o, "configured");
  VEQ(c.getEstimator()->getMargGroupId(), o.calibrationGroupId, "estimator"); VEQ(c.getEstimator()->getOptions().infoGainDelta, gain, "estimator");
  auto e = boost::make_shared<Est>(o.calibrationGroupId);
  Cal d(e, o);
  same(d.getOptions(), "from options"); checkVision(d, o, "from options"); VCHECK(d.getEstimator() == e, "estimator");
  VEQ(c.getBatchNumImages(), 0u, "fresh"); VCHECK(c.getBatchObservations().empty() && c.getEstimatorObservations().empty(), "fresh");
  s.nontrivial(left);
}

struct Img { std::shared_ptr<acam::SeenTarget> seen; cv::Mat mat; sm::timing::NsecTime t; };
static bool isImage(const acam::GridCalibrationTargetObservation& o, const Img& i) { return o.img.seen == i.seen && o.T_t_c().T() == i.seen->pose.T() && o.time().toSec() == sm::timing::nsecToSec(i.t); }

static void checkBatch(const Cal& c, const Opt& o, const Setup& u, const std::vector<Img>& imgs, const std::string& at) {
  VCHECK((bool)c._batch, "no batch " << at);
  const ac::OptimizationProblem& b = *c._batch;
  const auto& lm = b.getDesignVariablesGroup(o.landmarksGroupId);
  VEQ(lm.size(), c._landmarkDesignVariables.size(), "landmarks of the batch " << at);
  for (size_t i = 0; i < lm.size(); ++i) VCHECK(lm[i] == c._landmarkDesignVariables[i], "landmark " << i << " of the batch " << at);
  const auto& cv_ = b.getDesignVariablesGroup(o.calibrationGroupId);
  VCHECK(cv_.size() == 2 && cv_[0].get() == &c._cameraDesignVariableContainer->part[0] && cv_[1].get() == &c._cameraDesignVariableContainer->part[1], "camera variables of the batch " << at);
  VEQ(b.numDesignVariables(), lm.size() + 2 + 2 * imgs.size(), at);
  size_t e = 0;
  for (size_t k = 0; k < imgs.size(); ++k) {
    const auto& tr = b.getDesignVariablesGroup(o.transformationsGroupId);
    VEQ(tr.size(), 2 * imgs.size(), at);
    auto q = dynamic_cast<ab::RotationQuaternion*>(tr[2 * k].get()); auto t = dynamic_cast<ab::EuclideanPoint*>(tr[2 * k + 1].get());
    VCHECK(q && t && q->isActive() && t->isActive(), "pose " << k << " " << at);
    VCHECK(q->getQuaternion() == imgs[k].seen->pose.q() && t->toEuclidean() == imgs[k].seen->pose.t(), "pose " << k << " " << at);
    const Eigen::Matrix4d Tct = imgs[k].seen->pose.inverse().T();
    for (auto& cr : imgs[k].seen->corners) {
      VCHECK(e < b.numErrorTerms(), "a corner of image " << k << " has no error term " << at);
      auto r = dynamic_cast<aslam::ReprojectionError*>(const_cast<ac::OptimizationProblem&>(b).errorTerm(e++));
      VCHECK(r, "kind of error term " << at);
      VCHECK(r->y == cr.second, "corner " << cr.first << " of image " << k << " " << at);
      const Eigen::Vector4d pc = Tct * c._landmarkDesignVariables[cr.first]->toHomogeneous();  // an estimated landmark may have run off
      VCHECK(!pc.allFinite() || (r->point.toHomogeneous() - pc).norm() <= 1e-9 * (1 + pc.norm()), "corner " << cr.first << " in camera coordinates " << at);
      VCHECK((r->invR() - Eigen::Matrix2d::Identity() / o.sigma2).norm() <= 1e-12 / o.sigma2, "weight of a corner " << at);
      VEQ(r->weight(30.0) != 1.0, o.useMEstimator, "robust weight " << at);
      VCHECK(r->camera == c._cameraDesignVariableContainer.get(), "camera " << at);
      std::set<const ab::DesignVariable*> dv, want{q, t, c._landmarkDesignVariables[cr.first].get(), &c._cameraDesignVariableContainer->part[0], &c._cameraDesignVariableContainer->part[1]};
      for (size_t i = 0; i < r->numDesignVariables(); ++i) dv.insert(r->designVariable(i));
      VCHECK(dv == want, "variables of corner " << cr.first << " " << at);
    }
  }
  VEQ(b.numErrorTerms(), e, at);
}

static double need(const sm::PropertyTree& t, const std::string& k) { VCHECK(t.doesKeyExist(k), "nothing written to " << k); return t.getDouble(k); }

static void checkResults(Cal& c, const Opt& o, const Setup& u, const std::vector<Img>& est_, const std::string& at) {
  Est& e = *c.getEstimator();
  // what was observed and where from
  const auto& obs = c.getEstimatorObservations();
  VEQ(obs.size(), est_.size(), "observations " << at);
  for (auto& i : est_) { bool has = false; for (auto& x : obs) has = has || isImage(*x, i); VCHECK(has, "an accepted image is not among the observations " << at); }
  VTHROWS(core::OOB, c.getTransformation(obs.size()), at);
  // errors, in the order of the error terms
  std::vector<Eigen::Vector2d> errors(3); std::vector<double> md(3);
  c.getErrors(errors, md);
  auto& prob = const_cast<ac::IncrementalOptimizationProblem&>(*e.getProblem());
  VEQ(errors.size(), prob.numErrorTerms(), at); VEQ(md.size(), prob.numErrorTerms(), at);
  size_t corners = 0, out = 0; for (auto& i : est_) corners += i.seen->corners.size();
  VEQ(errors.size(), corners, "errors of the accepted images " << at);
  for (size_t i = 0; i < errors.size(); ++i) {
    auto r = static_cast<aslam::ReprojectionError*>(prob.errorTerm(i));
    Eigen::Vector2d k; c._geometry->homogeneousToKeypoint(r->point.toHomogeneous(), k);
    VCHECK((errors[i] - (r->y - k)).norm() < 1e-9, "error " << i << " " << at);
    VCLOSE(md[i], errors[i].squaredNorm() / o.sigma2, 1e-9, 1e-12, at);
    out += md[i] > kQ975;
  }
  Eigen::VectorXd m, v, sd; double mx = -1, my = -1; size_t no = 99;
  c.getStatistics(m, v, sd, mx, my, no);
  Stat2 st = stat2(errors);
  if (st.valid) {
    VCHECK(m.size() == 2 && v.size() == 2 && sd.size() == 2, "statistics " << at);
    VCHECK((m - st.mean).norm() < 1e-6 * (1 + st.mean.norm()) && (v - st.var).norm() < 1e-6 * (1e-9 + st.var.norm()) + 1e-11 * st.mean.squaredNorm() && (sd.cwiseAbs2() - v).norm() < 1e-9 * (1 + v.norm()), "statistics " << m.transpose() << " " << v.transpose() << " expected " << st.mean.transpose() << " " << st.var.transpose() << " " << at);
    VCLOSE(mx, st.maxAbs[0], 1e-9, 1e-12, at); VCLOSE(my, st.maxAbs[1], 1e-9, 1e-12, at); VEQ(no, out, "outliers " << at);
  } else if (st.clear) { VCHECK(m.size() == 0 && v.size() == 0 && sd.size() == 0, "statistics of nothing " << at); VEQ(mx, 0.0, at); VEQ(my, 0.0, at); VEQ(no, 0u, at); }
  // intrinsics and their uncertainty
  VCHECK(c.getProjection() == c._geometry->p && c.getDistortion() == c._geometry->d, "intrinsics " << at);
  const Eigen::VectorXd pv = c.getProjectionVariance(), dv = c.getDistortionVariance();
  if (e.getNumBatches()) {
    const Eigen::VectorXd all = e.getSigma2Theta().diagonal(); const int np = (int)c._geometry->p.size();
    VCHECK(core::same(pv, all.head(np)) && core::same(dv, all.tail(4)), "variances " << at);
    VCHECK(core::same(c.getProjectionStandardDeviation(), Eigen::VectorXd(pv.array().sqrt())) && core::same(c.getDistortionStandardDeviation(), Eigen::VectorXd(dv.array().sqrt())), "standard deviations " << at);
  } else VCHECK(pv.size() == 0 && dv.size() == 0 && c.getProjectionStandardDeviation().size() == 0 && c.getDistortionStandardDeviation().size() == 0, "variances without batches " << at);
  VEQ(c.getInitialCost(), e.getInitialCost(), at); VEQ(c.getFinalCost(), e.getFinalCost(), at);
  VCHECK(core::same(c.getNobsBasis(), e.getNobsBasis()) && core::same(c.getNobsBasis(true), e.getNobsBasis(true)), "basis " << at);
}
static void checkWritten(const Cal& c, const Opt& o, const std::string& at) {
  sm::PropertyTree root, t(root, "intrinsics");
  c.write(t);
  const Est& e = *((const Cal&)c).getEstimator();
  auto names = o.cameraProjectionType == "omni" ? std::vector<std::string>{"xi", "fu", "fv", "cu", "cv"} : std::vector<std::string>{"fu", "fv", "cu", "cv"};
  const bool sig = e.getNumBatches() > 0;
  const Eigen::VectorXd ps = c.getProjectionStandardDeviation(), ds = c.getDistortionStandardDeviation();
  for (size_t i = 0; i < names.size(); ++i) { VEQ(need(t, "projection/" + names[i]), c._geometry->p[i], names[i] << at); if (sig) VEQ(need(t, "projection/sigma_" + names[i]), ps[i], names[i] << at); }
  const char* dn[] = {"k1", "k2", "p1", "p2"};
  for (int i = 0; i < 4; ++i) { VEQ(need(t, std::string("projection/distortion/") + dn[i]), c._geometry->d[i], dn[i] << at); if (sig) VEQ(need(t, std::string("projection/distortion/sigma_") + dn[i]), ds[i], dn[i] << at); }
  VEQ(t.getInt("projection/ru"), c._geometry->ru_, at); VEQ(t.getInt("projection/rv"), c._geometry->rv_, at); VEQ(t.getString("projection/type"), o.cameraProjectionType, at);
  for (int sc = 0; sc < 2; ++sc) {
    const Eigen::MatrixXd B = e.getNobsBasis(sc); const Eigen::VectorXd S = e.getSingularValues(sc);
    for (int col = 0; col < B.cols(); ++col) for (int r = 0; r < B.rows(); ++r) VEQ(need(t, std::string(sc ? "nobsBasisScaled" : "nobsBasis") + "/c" + std::to_string(col) + "/r" + std::to_string(r)), B(r, col), at);
    for (int i = 0; i < S.size(); ++i) VEQ(need(t, std::string(sc ? "scaledSingularValues" : "singularValues") + "/x" + std::to_string(i)), S[i], at);
  }
  VEQ(need(t, "epsSVD"), e.getLinearSolverOptions().epsSVD, at); VEQ(need(t, "infoGainDelta"), e.getOptions().infoGainDelta, at);
  // what was written is a camera that predicts the same
  auto back = o.cameraProjectionType == "omni" ? boost::shared_ptr<acam::CameraGeometryBase>(new acam::DistortedOmniCameraGeometry(t)) : boost::shared_ptr<acam::CameraGeometryBase>(new acam::DistortedPinholeCameraGeometry(t));
  VCHECK(back->p == c._geometry->p && back->d == c._geometry->d && back->ru_ == c._geometry->ru_ && back->rv_ == c._geometry->rv_, "the written camera " << at);
}

CLAUSE(history, 1200, 16000, "batches were accepted, and images without target or a rejected batch occurred") {
  Setup u = makeSetup(s);
  Opt o;
  o.rows = u.rows; o.cols = u.cols; o.rowSpacingMeters = u.rs; o.colSpacingMeters = u.cs; o.cameraProjectionType = u.omni ? "omni" : "pinhole";
  o.estimateLandmarks = s.chance(1, 4); o.useMEstimator = s.chance(1, 3); o.sigma2 = s.flip() ? 1.0 : s.logReal(0.05, 5); o.verbose = s.chance(1, 4);
  o.batchNumImages = 1 + s.index(3);
  auto g = s.permutation(4); o.landmarksGroupId = g[0]; o.calibrationGroupId = g[1]; o.transformationsGroupId = g[2];
  Est::Options eo; eo.infoGainDelta = s.chance(1, 3) ? 1e18 : -1e18;
  ac::LinearSolverOptions lo = est::solverOptions(s.flip()); Est::OptimizerOptions oo = est::optimizerOptions(s.chance(1, 3) ? 3 : 0);
  Cal c(boost::make_shared<Est>(o.calibrationGroupId, eo, lo, oo), o);
  std::vector<Img> batch, held;
  Img last; bool init = false, any = false, missed = false, rejected = false;
  size_t accepted = 0;
  Quiet q;
  for (size_t step = 0, n = 2 + s.index(9); step < n; ++step) {
    const std::string at = "at step " + std::to_string(step);
    const int op = (int)s.index(8);
    Img i; i.seen = see(s, u, randomPose(s, u), 0.5, 6); i.mat = imageOf(i.seen); i.t = 1000000000LL * (long)s.range(1, 1000) + (long)s.range(0, 999999999);
    i.seen->found = !s.chance(1, 6); i.seen->initializes = !s.chance(1, 3);
    const size_t before = c.getEstimator()->getNumBatches();
    bool processed = false;
    if (op == 0 || !init) {
      s.desc() << "init(" << i.seen->initializes << ") ";
      if (!init) { const size_t nb = c.getBatchNumImages(); VTHROWS(core::InvalidOp, c.addImage(i.mat, i.t), "before initialization " << at); VEQ(c.getBatchNumImages(), nb, at); VCHECK(c.getBatchObservations().empty(), at); }
      Eigen::VectorXd p = c._geometry->p;
      VEQ(c.initGeometry(i.mat), init || i.seen->initializes, at);
      if (init) VCHECK(c._geometry->p == p, "a camera initialized again " << at);
      init = init || i.seen->initializes;
    } else if (op <= 6) {
      s.desc() << "image(" << i.seen->found << "," << i.seen->corners.size() << ") ";
      // a batch whose images determine nothing can fail in the estimator; leave that to its own checks
      bool ok = false, threw = false;
      try { ok = c.addImage(i.mat, i.t); } catch (const std::exception&) { threw = true; }
      if (threw) throw vpt::Discard();
      VEQ(ok, i.seen->found, at);
      if (ok) { batch.push_back(i); last = i; any = true; } else missed = true;
      processed = ok && batch.size() == o.batchNumImages;
    } else {
      s.desc() << "process ";
      if (batch.empty()) { c.processBatch(); VEQ(c.getEstimator()->getNumBatches(), before, "processing nothing " << at); }
      else { try { c.processBatch(); } catch (const std::exception&) { throw vpt::Discard(); } processed = true; }
    }
    if (processed) {
      const size_t now = c.getEstimator()->getNumBatches();
      VCHECK(now == before || now == before + 1, "batches " << at);
      if (now == before + 1) { held.insert(held.end(), batch.begin(), batch.end()); accepted++; } else rejected = rejected || !batch.empty();
      batch.clear();
    }
    VEQ(c.getBatchNumImages(), batch.size(), at);
    VEQ(c.getBatchObservations().size(), batch.size(), at);
    for (size_t k = 0; k < batch.size(); ++k) VCHECK(isImage(*c.getBatchObservations()[k], batch[k]), "observation " << k << " of the batch " << at);
    if (c._batch) checkBatch(c, o, u, batch, at);
    else VCHECK(batch.empty(), at);
    if (init) checkResults(c, o, u, held, at);
    if (oo.maxIterations == 0) for (size_t k = 0; k < held.size(); ++k) VCHECK((c.getTransformation(k) - c.getEstimatorObservations()[k]->T_t_c().T()).norm() < 1e-9, "pose " << k << " is not that of observation " << k << " " << at);
    cv::Mat li; c.getLastCheckerboardImage(li);
    if (any) VCHECK(li.seen == last.seen, "last image " << at); else VCHECK(!li.data, "an image from nowhere " << at);
  }
  if (init) checkWritten(c, o, "at the end");
  s.nontrivial(accepted >= 1 && (missed || rejected));
}

CLAUSE(recovery, 100, 2500, "at least four images from different sides") {
  Setup u = makeSetup(s);
  u.rows = 4 + s.index(2); u.cols = 5 + s.index(2); u.ru = 2000; u.rv = 2000;
  u.p.tail(2) << 1000 + s.real(-20, 20), 1000 + s.real(-20, 20);
  if (u.omni) { u.omni = false; u.p = Eigen::VectorXd(u.p.tail(4)); u.p.head(2) *= 0.6; }
  Opt o; o.rows = u.rows; o.cols = u.cols; o.rowSpacingMeters = u.rs; o.colSpacingMeters = u.cs;
  o.batchNumImages = 5 + s.index(3); o.useMEstimator = s.flip();
  Est::Options eo; eo.infoGainDelta = -1e18;
  Est::OptimizerOptions oo = est::optimizerOptions(60); oo.convergenceDeltaX = 1e-10; oo.convergenceDeltaJ = 1e-14;
  Cal c(boost::make_shared<Est>(o.calibrationGroupId, eo, est::solverOptions(true), oo), o);
  std::vector<Tf> poses;
  for (size_t k = 0; k < o.batchNumImages; ++k) {
    // different sides: tilted by a third of a radian or more, each about another axis
    const double a = 2 * M_PI * k / o.batchNumImages + s.real(-0.2, 0.2), tilt = s.real(0.35, 0.6);
    const Eigen::Matrix3d C = (Eigen::AngleAxisd(tilt, Eigen::Vector3d(std::cos(a), std::sin(a), 0)) * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitZ())).toRotationMatrix();
    const Eigen::Vector3d mid(u.rs * (u.rows - 1) / 2, u.cs * (u.cols - 1) / 2, 0);
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = Eigen::Vector3d(s.real(-0.05, 0.05), s.real(-0.05, 0.05), s.real(0.35, 0.5)) - C * mid;
    const Tf truth(Eigen::Matrix4d(T.inverse()));
    poses.push_back(truth);
    auto seen = see(s, u, truth, 0, 0);
    if (seen->corners.size() < u.rows * u.cols) throw vpt::Discard();
    const Eigen::Vector3d da(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)), dt(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
    seen->pose = Tf(sm::kinematics::axisAngle2quat(0.01 * da), 0.005 * dt) * truth;
    for (int i = 0; i < 4; ++i) seen->p[i] += (i < 2 ? 6 : 4) * s.real(-1, 1);
    for (int i = 0; i < 4; ++i) seen->d[i] += (i < 2 ? 0.01 : 0.001) * s.real(-1, 1);
    if (k == 0) VCHECK(c.initGeometry(imageOf(seen)), "initialization");
    VCHECK(c.addImage(imageOf(seen), 1000 * (long)k), "image " << k);
  }
  VEQ(c.getEstimator()->getNumBatches(), 1u, "the batch was not kept");
  VCHECK(c.getFinalCost() < 1e-6, "cost " << c.getFinalCost());
  VCHECK((c.getProjection() - u.p).norm() < 1e-2 && (c.getDistortion() - u.d).norm() < 1e-3, "estimated " << c.getProjection().transpose() << " | " << c.getDistortion().transpose() << " true " << u.p.transpose() << " | " << u.d.transpose());
  for (size_t k = 0; k < poses.size(); ++k) VCHECK((c.getTransformation(k) - poses[k].T()).norm() < 1e-3, "pose " << k);
  s.nontrivial();
}
