// C42: the programs of the camera example, run whole on generated recordings
#include "prog.hpp"
#include "cam.hpp"
#include <ctime>
#include <opencv2/highgui/highgui.hpp>
#include <rosbag/bag.h>
#include <sensor_msgs/Image.h>
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/camera/CameraValidator.h>
int calib_main(int, char**);
int valid_main(int, char**);
using namespace cam;
using prog::Scratch; using prog::Result; using prog::Rows;
typedef Eigen::Vector2d V2;

struct Conf {
  Setup u; std::string topic = "/camera/image_raw", id = "cam0"; int batch = 1, iterations = 0, imageTime = 3; double sigma2 = 1, delta = -1e18; bool landmarks = false, robust = false, verbose = false, validity = false;
  bool saveEstimator = true, outCal = true, visual = true, saveImages = true, outVal = true;
};
static void write(const Conf& c, sm::PropertyTree& root) {
  sm::PropertyTree t(root, "camera"), k(t, "calibrator"), v(t, "validator"), e(k, "estimator"), o(e, "optimizer"), l(o, "linearSolver");
  t.setString("rosTopic", c.topic); t.setString("cameraId", c.id); t.setInt("imageTime", c.imageTime);
  k.setBool("saveEstimatorImages", c.saveEstimator); k.setBool("outputErrors", c.outCal);
  k.setInt("rows", (int)c.u.rows); k.setInt("cols", (int)c.u.cols); k.setDouble("rowSpacingMeters", c.u.rs); k.setDouble("colSpacingMeters", c.u.cs);
  for (const char* n : {"useAdaptiveThreshold", "normalizeImage", "filterQuads", "doSubpixelRefinement", "showExtractionVideo", "plotCornerReprojection", "imageStepping", "filterCornerOutliers"}) k.setBool(n, false);
  k.setDouble("filterCornerSigmaThreshold", 2); k.setDouble("filterCornerMinReprojError", 0.2); k.setString("cameraProjectionType", c.u.omni ? "omni" : "pinhole");
  k.setBool("estimateLandmarks", c.landmarks); k.setInt("landmarksGroupId", 2); k.setInt("calibrationGroupId", 0); k.setInt("transformationsGroupId", 1); k.setInt("batchNumImages", c.batch); k.setBool("useMEstimator", c.robust); k.setDouble("sigma2", c.sigma2); k.setBool("verbose", c.verbose);
  e.setBool("checkValidity", c.validity); e.setDouble("infoGainDelta", c.delta); e.setInt("groupId", 0); e.setBool("verbose", c.verbose);
  o.setDouble("convergenceDeltaJ", 1e-12); o.setDouble("convergenceDeltaX", 1e-10); o.setInt("maxIterations", c.iterations); o.setInt("linearSolverMaximumFails", 0); o.setInt("nThreads", 1); o.setBool("verbose", c.verbose);
  l.setBool("columnScaling", true); l.setDouble("epsNorm", 1e-16); l.setDouble("epsSVD", 1e-9); l.setDouble("epsQR", 1e-16); l.setDouble("svdTol", -1); l.setDouble("qrTol", -1); l.setBool("verbose", false);
  v.setBool("visualization", c.visual); v.setBool("saveImages", c.saveImages); v.setBool("outputErrors", c.outVal);
}
struct Img { std::shared_ptr<acam::SeenTarget> seen; cv::Mat mat; long t, received; };
static std::string name(const Conf& c, const Img& i) { return c.id + "-" + std::to_string(i.t) + ".png"; }
// a recording of images, in the order they were received, among messages that do not matter
static void record(vpt::Src& s, const Conf& c, std::vector<Img>& imgs) {
  rosbag::recordings().clear(); rosbag::recordings()["run.bag"];
  auto put = [&](const Img& i, const std::string& topic) { sensor_msgs::Image m; m.header.stamp = ros::Time(i.t); m.pixels = i.mat; rosbag::record("run.bag", topic, ros::Time(i.received), m); };
  for (size_t k = 0; k < imgs.size(); ++k) {
    if (s.chance(1, 4)) { Img o = imgs[k]; o.seen = see(s, c.u, randomPose(s, c.u), 5, 0); o.mat = imageOf(o.seen); o.t += 7; o.received -= 3; put(o, c.topic + "_other"); }
    put(imgs[k], c.topic);
  }
}
static std::vector<Img> images(vpt::Src& s, const Setup& u, size_t n, double noise) {
  std::vector<Img> r; const long start = 1000000000L * (long)s.range(1, 1400000000) + (long)s.range(0, 999999999); long t = start;
  for (size_t k = 0; k < n; ++k) {
    Img i; i.seen = see(s, u, randomPose(s, u), noise, 6); i.mat = imageOf(i.seen); t += (long)s.range(1000000, 2000000000); i.t = t; i.received = t + (long)s.range(0, 900000);
    i.seen->found = !s.chance(1, 5); i.seen->initializes = !s.chance(1, 3);
    for (int q = 0; q < u.p.size(); ++q) i.seen->p[q] += s.real(-1, 1) * (u.omni && q == 0 ? 0.01 : 1);   // every image has its own idea of the camera
    r.push_back(i);
  }
  s.note([&](std::ostream& o) { o << n << " images:"; for (auto& i : r) o << " (found " << i.seen->found << " initializes " << i.seen->initializes << " corners " << i.seen->corners.size() << ")"; o << "\n"; });
  return r;
}
static std::string date(long ns) { const time_t t = (time_t)(ns / 1000000000); char b[40]; struct tm m; localtime_r(&t, &m); strftime(b, sizeof b, "%Y-%m-%d-%H-%M-%S", &m); return b; }
static void printed(const std::string& out, const std::string& label, const Eigen::VectorXd& want) {
  const std::vector<double> g = prog::last(out, label);
  VEQ((long)g.size(), (long)want.size(), "numbers printed for \"" << label << "\"");
  for (size_t i = 0; i < g.size(); ++i) VCHECK(std::isnan(want[i]) ? std::isnan(g[i]) : std::fabs(g[i] - want[i]) <= 2e-6 * (1 + std::fabs(want[i])), "printed \"" << label << "\" entry " << i << ": " << g[i] << ", expected " << want[i]);
}
static void printed(const std::string& out, const std::string& label, double want) { printed(out, label, Eigen::VectorXd::Constant(1, want)); }
static void sameErrors(const std::vector<V2>& e, const std::vector<double>& md, double tol) {
  const Rows a = prog::rows("errors.txt"), b = prog::rows("errorsMd2.txt");
  VEQ(a.size(), e.size(), "rows of errors.txt"); VEQ(b.size(), md.size(), "rows of errorsMd2.txt");
  for (size_t i = 0; i < e.size(); ++i) {
    VCHECK(a[i].size() == 2 && (V2(a[i][0], a[i][1]) - e[i]).norm() <= tol * (1 + e[i].norm()), "row " << i << " of errors.txt");
    VCHECK(b[i].size() == 1 && std::fabs(b[i][0] - md[i]) <= tol * (1 + md[i]), "row " << i << " of errorsMd2.txt");
  }
}
static Conf conf(vpt::Src& s) {
  Conf c; c.u = makeSetup(s); c.id = s.flip() ? "cam0" : "GX002537"; c.topic = s.flip() ? "/image" : "/mv/camera/image_raw"; c.batch = 1 + (int)s.index(3); c.iterations = s.chance(1, 3) ? 3 : 0; c.imageTime = (int)s.index(9); c.sigma2 = s.flip() ? 1.0 : s.logReal(0.05, 5);
  c.delta = s.chance(1, 4) ? 1e18 : -1e18; c.landmarks = s.chance(1, 4); c.robust = s.chance(1, 3); c.verbose = s.flip(); c.saveEstimator = s.chance(3, 4); c.outCal = s.chance(3, 4); c.visual = s.chance(3, 4); c.saveImages = s.flip(); c.outVal = s.chance(3, 4);
  s.note([&](std::ostream& o) { o << "batch " << c.batch << " iterations " << c.iterations << " gain " << c.delta << " landmarks " << c.landmarks << " robust " << c.robust << " verbose " << c.verbose << " save " << c.saveEstimator << c.outCal << c.visual << c.saveImages << c.outVal << "\n"; });
  return c;
}
static void checkXml(const std::string& file, sm::BoostPropertyTree& want) {
  want.saveXml("again.xml");
  boost::property_tree::ptree a, b; boost::property_tree::read_xml(file, a, boost::property_tree::xml_parser::trim_whitespace); boost::property_tree::read_xml("again.xml", b, boost::property_tree::xml_parser::trim_whitespace);
  std::function<void(const boost::property_tree::ptree&, const boost::property_tree::ptree&, const std::string&)> same = [&](const boost::property_tree::ptree& x, const boost::property_tree::ptree& y, const std::string& at) {
    VEQ(x.size(), y.size(), "entries of " << at);
    if (x.data() != y.data()) { const double p = std::strtod(x.data().c_str(), nullptr), q = std::strtod(y.data().c_str(), nullptr); VCHECK(std::fabs(p - q) <= 1e-9 * (1 + std::fabs(q)) || (std::isnan(p) && std::isnan(q)), at << " is " << x.data() << ", expected " << y.data()); }
    for (auto& i : y) { auto f = x.find(i.first); VCHECK(f != x.not_found(), "no " << at << "/" << i.first); same(f->second, i.second, at + "/" + i.first); }
  };
  same(a, b, "");
  unlink("again.xml");
}
static std::set<std::string> saved() { std::set<std::string> r; for (auto& x : cv::display().saved) r.insert(x.first); VEQ(r.size(), cv::display().saved.size(), "images saved twice"); return r; }

CLAUSE(calibrate, 250, 4000, "batches were accepted, and images without target or a rejected batch occurred") {
  Conf c = conf(s);
  std::vector<Img> imgs = images(s, c.u, 1 + s.index(8), 0.5);
  Scratch dir; record(s, c, imgs); sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml");
  cv::display() = cv::Display();
  // the library, driven as documented
  ac::CameraCalibrator k(sm::PropertyTree(t, "camera/calibrator"));
  bool init = false; size_t found = 0, batch = 0; std::map<std::string, std::shared_ptr<cv::Seen> > accepted; bool rejected = false;
  { Quiet q;
    for (auto& i : imgs) if (!init) init = k.initGeometry(i.mat);
    if (init) try {
      for (auto& i : imgs) {
        const size_t before = k.getEstimator()->getNumBatches();
        if (!k.addImage(i.mat, i.t)) continue;
        found++; if (++batch == (size_t)c.batch) { batch = 0; if (k.getEstimator()->getNumBatches() > before) accepted[name(c, i)] = i.seen; else rejected = true; }
      }
      if (batch) k.processBatch();
    } catch (const std::exception&) { throw vpt::Discard(); } }
  if (!init) {  // a camera that nothing is known about
    bool refused = false; try { refused = prog::run(calib_main, {"run.bag", "conf.xml"}).rc != 0; } catch (const std::exception&) { refused = true; }
    VCHECK(refused, "calibrated without a camera to start from"); return;
  }
  const Result r = prog::run(calib_main, {"run.bag", "conf.xml"});
  VEQ(r.rc, 0, "exit status");
  printed(r.out, "projection: ", k.getProjection()); printed(r.out, "projection standard deviation: ", k.getProjectionStandardDeviation());
  printed(r.out, "distortion: ", k.getDistortion()); printed(r.out, "distortion standard deviation: ", k.getDistortionStandardDeviation());
  printed(r.out, "initial cost: ", k.getInitialCost()); printed(r.out, "final cost: ", k.getFinalCost());
  printed(r.out, "number of images for estimation: ", (double)k.getEstimatorObservations().size()); printed(r.out, "total number of images: ", (double)imgs.size());
  Eigen::VectorXd m, v, sd; double mx, my; size_t no; k.getStatistics(m, v, sd, mx, my, no);
  printed(r.out, "reprojection error mean: ", m); printed(r.out, "reprojection error standard deviation: ", sd); printed(r.out, "max x reprojection error: ", mx); printed(r.out, "max y reprojection error: ", my); printed(r.out, "number of outliers: ", (double)no);
  for (int scaled = 0; scaled < 2; ++scaled) {
    const Eigen::MatrixXd N = k.getNobsBasis(scaled); const std::vector<double> g = prog::last(r.out, scaled ? "unobservable basis (scaled): " : "unobservable basis: ", (size_t)N.rows());
    if (N.size() == 0) continue;
    VEQ((long)g.size(), (long)N.size(), "numbers of the unobservable basis");
    for (int i = 0; i < N.rows(); ++i) for (int j = 0; j < N.cols(); ++j) VCLOSE(g[i * N.cols() + j], N(i, j), 1e-5, 2e-6, "unobservable basis");
  }
  std::ostringstream file; file << c.id << "-" << (c.u.omni ? "omni" : "pinhole") << "-" << date(imgs.front().received) << "-" << c.batch << "-" << c.delta << ".xml";
  std::set<std::string> want = {"conf.xml", file.str()};
  if (c.outCal) { want.insert("errors.txt"); want.insert("errorsMd2.txt"); std::vector<V2> e; std::vector<double> md; k.getErrors(e, md); sameErrors(e, md, 1e-9); }
  if (c.saveEstimator && !accepted.empty()) want.insert("images");
  std::string have; for (auto& f : dir.files()) have += " " + f;
  VCHECK(dir.files() == want, "files written:" << have);
  sm::BoostPropertyTree x("intrinsics"); k.write(x); checkXml(file.str(), x);
  std::set<std::string> pics; if (c.saveEstimator) for (auto& a : accepted) pics.insert(a.first);
  VCHECK(dir.files("images") == pics, "images saved");
  saved(); for (auto& i : cv::display().saved) VCHECK(i.second.seen == accepted[i.first.substr(7)], "image saved as " << i.first);
  s.nontrivial(k.getEstimator()->getNumBatches() > 0 && (found < imgs.size() || rejected));
}

static void intrinsics(const Setup& u, sm::BoostPropertyTree& x) {
  int i = 0; if (u.omni) x.setDouble("projection/xi", u.p[i++]);
  for (const char* n : {"fu", "fv", "cu", "cv"}) x.setDouble(std::string("projection/") + n, u.p[i++]);
  i = 0; for (const char* n : {"k1", "k2", "p1", "p2"}) x.setDouble(std::string("projection/distortion/") + n, u.d[i++]);
  x.setInt("projection/ru", u.ru); x.setInt("projection/rv", u.rv); x.setString("projection/type", u.omni ? "omni" : "pinhole"); x.setDouble("shutter/line-delay", 0); x.setString("mask/mask-file", "");
}
CLAUSE(validate, 600, 10000, "images with and without a target") {
  Conf c = conf(s);
  std::vector<Img> imgs = images(s, c.u, 1 + s.index(8), 2);
  if (s.chance(1, 10)) for (auto& i : imgs) i.seen->found = false;
  if (s.chance(1, 20)) imgs.clear();
  Scratch dir; record(s, c, imgs); sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); sm::BoostPropertyTree x("intrinsics"); intrinsics(c.u, x); x.saveXml("camera.xml");
  cv::display() = cv::Display();
  const Result r = prog::run(valid_main, {"run.bag", "conf.xml", "camera.xml"});
  VEQ(r.rc, 0, "exit status");
  auto g = camera(c.u); std::vector<V2> e; std::vector<double> md; std::set<std::string> pics; size_t found = 0, out = 0; std::vector<size_t> shown; V2 mx(0, 0);
  for (auto& i : imgs) {
    if (i.seen->found) {
      found++; if (c.visual && c.saveImages) pics.insert(name(c, i));
      for (auto& k : i.seen->corners) { V2 p; if (!g->homogeneousToKeypoint(i.seen->pose.inverse().T() * corner(c.u, k.first), p)) continue; e.push_back(p - k.second); md.push_back(e.back().squaredNorm() / c.sigma2); out += md.back() > kQ975; mx = mx.cwiseMax(e.back().cwiseAbs()); }
    }
    if (c.visual && found) shown.push_back(found);
  }
  Stat2 st = stat2(e);
  if (st.valid) { printed(r.out, "reprojection error mean: ", st.mean); printed(r.out, "reprojection error standard deviation: ", st.var.cwiseSqrt()); }
  if (e.empty()) { printed(r.out, "reprojection error mean: ", Eigen::VectorXd()); printed(r.out, "reprojection error standard deviation: ", Eigen::VectorXd()); }
  printed(r.out, "max x reprojection error: ", mx[0]); printed(r.out, "max y reprojection error: ", mx[1]);
  printed(r.out, "number of outliers: ", (double)out);
  std::set<std::string> want = {"conf.xml", "camera.xml"};
  if (c.outVal) { want.insert("errors.txt"); want.insert("errorsMd2.txt"); sameErrors(e, md, 1e-9); }
  if (!pics.empty()) want.insert("images");
  std::string have; for (auto& f : dir.files()) have += " " + f;
  VCHECK(dir.files() == want, "files written:" << have);
  VCHECK(dir.files("images") == pics, "images saved"); saved();
  // every image with a target is shown, marked, for the time asked for; windows open only when asked for
  const cv::Display& d = cv::display();
  VEQ(d.windows.size(), c.visual ? 1u : 0u, "windows"); VEQ(d.shown.size(), shown.size(), "images shown"); VEQ(d.waits.size(), d.shown.size(), "waits");
  for (auto& x : d.shown) VCHECK(x.first == d.windows[0] && !x.second.drawn->empty(), "an image is shown elsewhere or unmarked");
  for (int w : d.waits) VEQ(w, c.imageTime, "time an image is shown for");
  s.nontrivial(found && found < imgs.size());
}

// a camera is calibrated from exact images, and validated by the file written
CLAUSE(recover, 40, 600, "always") {
  Conf c; c.u = makeSetup(s); Setup& u = c.u;
  u.rows = 4 + s.index(2); u.cols = 5 + s.index(2); u.ru = 2000; u.rv = 2000; u.p.tail(2) << 1000 + s.real(-20, 20), 1000 + s.real(-20, 20);
  if (u.omni) { u.omni = false; u.p = Eigen::VectorXd(u.p.tail(4)); u.p.head(2) *= 0.6; }
  c.batch = 5 + (int)s.index(3); c.iterations = 60; c.robust = s.flip(); c.visual = false;
  std::vector<Img> imgs, exact;
  for (int k = 0; k < c.batch; ++k) {
    const double a = 2 * M_PI * k / c.batch + s.real(-0.2, 0.2), tilt = s.real(0.35, 0.6);
    const Eigen::Matrix3d C = (Eigen::AngleAxisd(tilt, Eigen::Vector3d(std::cos(a), std::sin(a), 0)) * Eigen::AngleAxisd(s.real(-1, 1), Eigen::Vector3d::UnitZ())).toRotationMatrix();
    const Eigen::Vector3d mid(u.rs * (u.rows - 1) / 2, u.cs * (u.cols - 1) / 2, 0);
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = Eigen::Vector3d(s.real(-0.05, 0.05), s.real(-0.05, 0.05), s.real(0.35, 0.5)) - C * mid;
    const Tf truth(Eigen::Matrix4d(T.inverse()));
    Img i; i.seen = see(s, u, truth, 0, 0); i.t = i.received = 1000000000L * (k + 1);
    if (i.seen->corners.size() < u.rows * u.cols) throw vpt::Discard();
    i.mat = imageOf(i.seen); exact.push_back(i);
    i.seen = std::make_shared<acam::SeenTarget>(*i.seen); i.mat = imageOf(i.seen);
    const Eigen::Vector3d da(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)), dt(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
    i.seen->pose = Tf(sm::kinematics::axisAngle2quat(0.01 * da), 0.005 * dt) * truth;
    for (int q = 0; q < 4; ++q) { i.seen->p[q] += (q < 2 ? 6 : 4) * s.real(-1, 1); i.seen->d[q] += (q < 2 ? 0.01 : 0.001) * s.real(-1, 1); }
    imgs.push_back(i);
  }
  Scratch dir; record(s, c, imgs); sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml");
  Result r = prog::run(calib_main, {"run.bag", "conf.xml"}); VEQ(r.rc, 0, "exit status");
  VCHECK(prog::last(r.out, "final cost: ")[0] < 1e-5, "cost " << prog::last(r.out, "final cost: ")[0]);
  std::string file; for (auto& f : dir.files()) if (f.size() > 4 && f.substr(f.size() - 4) == ".xml" && f != "conf.xml") file = f;
  VCHECK(!file.empty(), "no calibration written");
  { sm::BoostPropertyTree x; x.loadXml(file); const sm::PropertyTree p(x, "intrinsics/projection"); int i = 0; for (const char* n : {"fu", "fv", "cu", "cv"}) VCLOSE(p.getDouble(n), u.p[i++], 0, 1e-2, n); i = 0; for (const char* n : {"k1", "k2", "p1", "p2"}) VCLOSE(p.getDouble(std::string("distortion/") + n), u.d[i++], 0, 1e-3, n); }
  record(s, c, exact);
  r = prog::run(valid_main, {"run.bag", "conf.xml", file}); VEQ(r.rc, 0, "exit status");
  const Rows e = prog::rows("errors.txt"); VEQ(e.size(), exact.size() * u.rows * u.cols, "errors of exact images");
  for (auto& x : e) VCHECK(x.size() == 2 && std::hypot(x[0], x[1]) < 0.05, "an exact image has error " << x[0] << " " << x[1]);
  s.nontrivial();
}

CLAUSE(shipped, 4, 20, "always") {
  Conf c; c.u = makeSetup(s); Setup& u = c.u; u.rows = 6; u.cols = 7; u.rs = u.cs = 0.02; if (!u.omni) { u.omni = true; u.p.conservativeResize(5); const Eigen::Vector4d p = u.p.head(4); u.p << 0.9, p(0) * 1.9, p(1) * 1.9, p(2), p(3); }
  Scratch dir; sm::BoostPropertyTree t; t.loadXml(prog::shipped("incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml"));
  c.topic = t.getString("camera/rosTopic"); c.id = t.getString("camera/cameraId"); t.setInt("camera/calibrator/batchNumImages", 4); t.setDouble("camera/calibrator/rowSpacingMeters", 0.02); t.setDouble("camera/calibrator/colSpacingMeters", 0.02); t.saveXml("conf.xml");
  std::vector<Img> imgs = images(s, u, 4, 0.2); for (auto& i : imgs) i.seen->found = i.seen->initializes = true;
  record(s, c, imgs); cv::display() = cv::Display();
  try { const Result r = prog::run(calib_main, {"run.bag", "conf.xml"}); VEQ(r.rc, 0, "exit status"); } catch (const vpt::Fail&) { throw; } catch (const std::exception& e) { throw vpt::Fail{std::string("the configuration that comes with the example: ") + e.what()}; }
  std::string file; for (auto& f : dir.files()) if (f.compare(0, c.id.size() + 6, c.id + "-omni-") == 0) file = f;
  VCHECK(!file.empty(), "no calibration written");
  const Result r = prog::run(valid_main, {"run.bag", "conf.xml", file}); VEQ(r.rc, 0, "exit status");
  VCHECK(prog::exists("errors.txt") && prog::exists("errorsMd2.txt"), "no errors written"); VEQ(cv::display().shown.size(), 4u, "images shown");
  s.nontrivial();
}
CLAUSE(usage, 60, 300, "a call without its arguments, or with a missing file") {
  const bool valid = s.flip(); auto main = valid ? valid_main : calib_main; const size_t need = valid ? 3 : 2;
  Conf c = conf(s); std::vector<Img> imgs = images(s, c.u, 2, 0); Scratch dir; record(s, c, imgs); sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); sm::BoostPropertyTree x("intrinsics"); intrinsics(c.u, x); x.saveXml("camera.xml");
  std::vector<std::string> a = {"run.bag", "conf.xml", "camera.xml"}; const size_t n = s.index(5); a.resize(n, "camera.xml");
  if (n == need) { a[s.index(n)] = "none"; VTHROWS(std::exception, prog::run(main, a), "a file that is not there"); }
  else { const Result r = prog::run(main, a); VCHECK(r.rc != 0 && r.out.find("Usage") != std::string::npos, "no usage: " << r.out); }
  s.nontrivial();
}
