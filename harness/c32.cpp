// C32: the time-delay calibrator: predictions, batches, windows, estimates
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
#include "tdconf.hpp"
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::Ns; using cal::V3; using cal::M3; using cal::Item; using cal::State;

struct Data { std::vector<cal::Pose> poses; M3 sp, sa; struct One { Ns t; double v; }; std::vector<One> left, right; };
struct Scene { tdconf::Conf c; Data d; };

static std::vector<Data::One> wheelData(vpt::Src& s, Ns lo, Ns hi, Ns delay, Ns bound) {
  std::vector<Data::One> r; const size_t n = s.index(9);
  for (size_t i = 0; i < n; ++i) {
    Ns t;
    switch (s.index(8)) {
      case 0: t = lo + bound - delay + s.range(-1, 1); break;  // about the first and last usable times
      case 1: t = hi - bound - delay + s.range(-1, 1); break;
      case 2: t = s.flip() ? lo : hi; break;
      default: t = lo + (Ns)(s.unit() * (double)(hi - lo));
    }
    r.push_back({std::max<Ns>(t, 0), s.any(20)});
  }
  if (s.flip()) std::sort(r.begin(), r.end(), [](const Data::One& a, const Data::One& b) { return a.t < b.t; });
  return r;
}
static Scene scene(vpt::Src& s) {
  Scene q; q.c = tdconf::draw(s); Data& d = q.d; tdconf::Conf& c = q.c;
  c.window = 1e9; c.delta = -1e18;
  const double len = s.real(0.5, 3); const Ns t0 = s.flip() ? 1000000000 : 1363945215000000000ll;
  const size_t n = (size_t)s.range(2, 25);
  d.poses = cal::poses(s, cal::motion(s), cal::times(s, t0, len, n), c.r, cal::fromYpr(c.ypr), s.chance(1, 3) ? s.logReal(1e-3, 0.1) : 0);
  d.sp = et::spd(s, 3); d.sa = et::spd(s, 3);
  const Ns lo = d.poses.front().t, hi = d.poses.back().t;
  d.left = wheelData(s, lo, hi, c.tl, c.delayBound); d.right = wheelData(s, lo, hi, c.tr, c.delayBound);
  s.note([&](std::ostream& o) {
    o << n << " poses over " << len << " s, " << d.left.size() << " left, " << d.right.size() << " right; parameters " << tdconf::parameters(c).transpose() << " bound " << c.delayBound << " knots " << c.knots << "\n";
    for (auto& p : d.poses) o << "  pose " << p.t << " " << p.p.transpose() << " " << p.a.transpose() << "\n";
    for (auto& p : d.left) o << "  left " << p.t << " " << p.v << "\n";
    for (auto& p : d.right) o << "  right " << p.t << " " << p.v << "\n";
  });
  return q;
}
static ac::PoseMeasurement poseOf(const Data& d, const cal::Pose& p) { ac::PoseMeasurement m; m.w_r_wp = p.p; m.w_R_p = p.a; m.sigma2_w_r_wp = d.sp; m.sigma2_w_R_p = d.sa; return m; }
static ac::WheelSpeedMeasurement one(double v) { ac::WheelSpeedMeasurement m; m.value = v; return m; }
// hands the measurements over, the sensors interleaved in any order, each sensor's own in order
static void feed(vpt::Src& s, ac::Calibrator& k, const Data& d) {
  std::vector<int> order(d.poses.size(), 0); order.resize(order.size() + d.left.size(), 1); order.resize(order.size() + d.right.size(), 2);
  size_t at[3] = {0, 0, 0};
  if (s.flip()) { std::vector<int> o; for (size_t i : s.permutation(order.size())) o.push_back(order[i]); order = o; }
  for (int x : order) { const size_t i = at[x]++; switch (x) {
    case 0: k.addPoseMeasurement(poseOf(d, d.poses[i]), d.poses[i].t); break;
    case 1: k.addLeftWheelMeasurement(one(d.left[i].v), d.left[i].t); break;
    default: k.addRightWheelMeasurement(one(d.right[i].v), d.right[i].t);
  } }
}
static void stored(const ac::Calibrator& k, const Data& d) {
  VEQ(k.getPoseMeasurements().size(), d.poses.size(), "stored poses"); VEQ(k.getLeftWheelMeasurements().size(), d.left.size(), "stored left wheel"); VEQ(k.getRightWheelMeasurements().size(), d.right.size(), "stored right wheel");
  for (size_t i = 0; i < d.poses.size(); ++i) VCHECK(k.getPoseMeasurements()[i].first == d.poses[i].t && k.getPoseMeasurements()[i].second.w_r_wp == d.poses[i].p && k.getPoseMeasurements()[i].second.w_R_p == d.poses[i].a, "stored pose " << i);
  for (size_t i = 0; i < d.left.size(); ++i) VCHECK(k.getLeftWheelMeasurements()[i].first == d.left[i].t && k.getLeftWheelMeasurements()[i].second.value == d.left[i].v, "stored left wheel " << i);
  for (size_t i = 0; i < d.right.size(); ++i) VCHECK(k.getRightWheelMeasurements()[i].first == d.right[i].t && k.getRightWheelMeasurements()[i].second.value == d.right[i].v, "stored right wheel " << i);
  VEQ(k.unprocessedMeasurements(), d.poses.size() + d.left.size() + d.right.size() > 0, "unprocessed measurements");
}
static cal::Splines expectedSplines(const Scene& q) {
  std::vector<Ns> t; std::vector<V3> p; std::vector<M3> R;
  const M3 M = cal::fromYpr(q.c.ypr);
  for (auto& x : q.d.poses) { const M3 C = cal::fromYpr(x.a) * M.transpose(); t.push_back(x.t); R.push_back(C); p.push_back(x.p - C * q.c.r); }
  return cal::refit(t, p, R, q.c.knots, q.c.tOrder, q.c.tLambda, q.c.rOrder, q.c.rLambda);
}
struct Want { std::vector<Item> pose, left, right; size_t skipped = 0; };
static Want expected(const Scene& q, const cal::TSpline& T, const cal::RSpline& Q) {
  Want w; const tdconf::Conf& c = q.c; const Data& d = q.d; const Ns lo = T.getMinTime(), hi = T.getMaxTime(); const M3 M = cal::fromYpr(c.ypr);
  for (auto& x : d.poses) {
    const State s = cal::state(T, Q, x.t); Item i; i.t = x.t; i.angles = {3, 4, 5};
    const M3 C = s.R * M; const V3 a = cal::toYpr(C), p = s.p + s.R * c.r;
    if (std::fabs(std::cos(a(1))) < 0.05) throw vpt::Discard();
    i.value.resize(6); i.value << p, a; i.error.resize(6); i.error << x.p - p, et::wrap(x.a(0) - a(0)), et::wrap(x.a(1) - a(1)), et::wrap(x.a(2) - a(2));
    for (int k = 3; k < 6; ++k) if (M_PI - std::fabs(i.error(k)) < 1e-3) throw vpt::Discard();
    i.cov = Eigen::MatrixXd::Zero(6, 6); i.cov.topLeftCorner(3, 3) = d.sp; i.cov.bottomRightCorner(3, 3) = d.sa; i.meas = x.p;
    w.pose.push_back(i);
  }
  auto wheels = [&](const std::vector<Data::One>& data, Ns delay, double y, double k, double q, std::vector<Item>& out) {
    for (auto& x : data) {
      const Ns t = x.t + delay;
      if (t + c.delayBound > hi || t - c.delayBound < lo) { w.skipped++; continue; }
      const State s = cal::state(T, Q, t); const V3 v = s.v + s.w.cross(V3(0, y, 0));
      Item i; i.t = x.t; i.value = cal::vec({k * v(0)}); i.error = V3(x.v - k * v(0), -v(1), -v(2)); i.cov = V3(q, c.qVy, c.qVz).asDiagonal(); i.meas = cal::vec({x.v, v.norm()});
      out.push_back(i);
    }
  };
  wheels(d.left, c.tl, c.b, c.kl, c.ql, w.left); wheels(d.right, c.tr, -c.b, c.kr, c.qr, w.right);
  return w;
}
static Eigen::VectorXd six(const V3& a, const V3& b) { Eigen::VectorXd v(6); v << a, b; return v; }
static void predicted(const ac::Calibrator& k, const Want& w) {
  cal::predictions(k.getPosePredictions(), k.getPosePredictionErrors(), k.getPosePredictionErrors2(), w.pose, [](const ac::PoseMeasurement& p) { return six(p.w_r_wp, p.w_R_p); }, "pose");
  auto ws = [](const ac::WheelSpeedMeasurement& p) { return cal::vec({p.value}); };
  cal::predictions(k.getLeftWheelPredictions(), k.getLeftWheelPredictionErrors(), k.getLeftWheelPredictionErrors2(), w.left, ws, "left wheel");
  cal::predictions(k.getRightWheelPredictions(), k.getRightWheelPredictionErrors(), k.getRightWheelPredictionErrors2(), w.right, ws, "right wheel");
}
static void inBatch(const ac::OptimizationProblemSpline& cb, ac::Calibrator& k, const Want& w) {
  auto& b = const_cast<ac::OptimizationProblemSpline&>(cb);
  auto& v = *k.getOdometryDesignVariables();
  const auto dvs = tdconf::variables(v);
  const std::vector<const ab::DesignVariable*> calib(dvs.begin(), dvs.end());
  const cal::Terms t = cal::terms(b);
  const auto P = cal::of<ac::ErrorTermPose>(t); const auto W = cal::of<ac::ErrorTermWheel>(t);
  VEQ(P.size() + W.size(), t.size(), "error terms of known kinds in the batch"); VEQ(W.size(), w.left.size() + w.right.size(), "wheel error terms in the batch");
  typedef std::set<const ab::DesignVariable*> On;
  cal::same(P, w.pose, calib, On{v.v_r_vp.get(), v.v_R_p.get()}, "pose");
  cal::same(cal::with(W, v.k_l.get()), w.left, calib, On{v.k_l.get(), v.b.get(), v.t_l.get()}, "left wheel");
  cal::same(cal::with(W, v.k_r.get()), w.right, calib, On{v.k_r.get(), v.b.get(), v.t_r.get()}, "right wheel");
  cal::groups(b, dvs);
}
static void none(const ac::Calibrator& k) {
  VCHECK(k.getPosePredictions().empty() && k.getPosePredictionErrors().empty() && k.getPosePredictionErrors2().empty() && k.getLeftWheelPredictions().empty() && k.getLeftWheelPredictionErrors().empty() && k.getLeftWheelPredictionErrors2().empty() &&
         k.getRightWheelPredictions().empty() && k.getRightWheelPredictionErrors().empty() && k.getRightWheelPredictionErrors2().empty(), "predictions left");
}

CLAUSE(predictions, 800, 20000, "both wheels have predictions and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; tdconf::write(q.c, t);
  ac::Calibrator k(t);
  feed(s, k, q.d);
  stored(k, q.d);
  k.predict();
  VCHECK(k.getTranslationSpline() && k.getRotationSpline(), "no splines");
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), expectedSplines(q), s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  predicted(k, w);
  stored(k, q.d);
  const Eigen::VectorXd p = k.getOdometryDesignVariables()->getParameters(), h = tdconf::parameters(q.c);
  VCHECK((p - h).cwiseAbs().maxCoeff() < 1e-9 * (1 + h.cwiseAbs().maxCoeff()), "predicting moved the calibration");
  k.clearPredictions(); none(k); stored(k, q.d);
  if (s.flip()) { k.predict(); predicted(k, w); }
  k.clearMeasurements(); stored(k, Data());
  s.nontrivial(w.skipped && w.left.size() && w.right.size());
}

CLAUSE(batch, 400, 10000, "both wheels have error terms and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; tdconf::write(q.c, t);
  ac::Calibrator k(t);
  feed(s, k, q.d);
  if (s.flip()) { k.predict(); k.clearPredictions(); }
  k.addMeasurements();
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), expectedSplines(q), s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), (size_t)1, "batches in the estimator");
  auto* b = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(0));
  VCHECK(b, "the batch is not a spline batch");
  VCHECK(b->getTranslationSpline(0) == k.getTranslationSpline().get() && b->getRotationSpline(0) == k.getRotationSpline().get(), "the splines of the batch are not the current ones");
  inBatch(*b, k, w);
  stored(k, Data());
  VEQ(k.getInformationGainHistory().size(), (size_t)1, "information gain history"); VEQ(k.getOdometryVariablesHistory().size(), (size_t)2, "history of the calibration");
  VCHECK(k.getOdometryVariablesHistory()[1] == k.getOdometryDesignVariables()->getParameters(), "the history does not end with the current calibration");
  VCHECK(k.getOdometryVariablesVariance() == Eigen::VectorXd(k.getEstimator()->getSigma2Theta().diagonal()), "variance of the estimates");
  s.nontrivial(w.skipped && w.left.size() && w.right.size());
}

// a history of additions against a model of the windows
CLAUSE(windows, 250, 6000, "at least two windows were processed and one was too short of poses") {
  tdconf::Conf c = tdconf::draw(s);
  c.knots = (int)s.range(1, 3); c.tOrder = c.rOrder = 4; const bool picky = s.chance(1, 3); c.delta = picky ? 1e18 : -1e18; c.iterations = picky ? (int)s.range(0, 2) : 0; c.delayBound = 0; c.delaysActive = false; c.tl = c.tr = 0;
  const Ns step = 50000000; const Ns win = step * s.range(1, 12);
  c.window = (double)win / 1e9;
  sm::PropertyTree t; tdconf::write(c, t);
  ac::Calibrator k(t);
  const cal::Motion m = cal::motion(s);
  Ns now = s.flip() ? 0 : 1363945215000000000ll; Ns start = -1, last = -1; const Ns t0 = now;
  Data d; d.sp = d.sa = M3::Identity(); std::vector<size_t> posesOf; bool starved = false;
  std::vector<size_t> kept; size_t turned = 0, seen = 0; std::ptrdiff_t rank = -1;
  const size_t ops = 5 + s.index(40);
  auto empty = [&] { const M3 sp = d.sp; d = Data(); d.sp = d.sa = sp; };
  auto process = [&] { if (d.poses.size() < 2) { if (d.poses.size() + d.left.size() + d.right.size()) starved = true; return; } posesOf.push_back(d.poses.size()); empty(); start = last; };
  for (size_t i = 0; i < ops; ++i) {
    now += step * s.range(1, 3);
    const int what = s.chance(1, 2) ? 0 : (int)s.range(0, 4);
    if (what <= 2) { last = now; if (start == -1) start = now; if ((double)(now - start) / 1e9 >= c.window) process(); }
    const double e = (double)(now - t0) * 1e-9;
    switch (what) {
      case 0: { cal::Pose p; p.t = now; const M3 C = cal::fromYpr(m.angles(e)); p.p = m.positions({e})[0] + C * c.r; p.a = cal::toYpr(C * cal::fromYpr(c.ypr)); if (std::fabs(std::cos(p.a(1))) < 0.05) throw vpt::Discard(); d.poses.push_back(p); k.addPoseMeasurement(poseOf(d, p), now); break; }
      case 1: d.left.push_back({now, 2}); k.addLeftWheelMeasurement(one(2), now); break;
      case 2: d.right.push_back({now, 3}); k.addRightWheelMeasurement(one(3), now); break;
      case 3: if (s.flip()) { const size_t n = d.poses.size(); if (n >= 2) { k.predict(); VEQ(k.getPosePredictions().size(), n, "pose predictions"); k.clearPredictions(); } } else { k.clearMeasurements(); empty(); } break;
      default: process(); k.addMeasurements();
    }
    stored(k, d);
    VEQ(k.getInformationGainHistory().size(), posesOf.size(), "windows processed (information gains)"); VEQ(k.getOdometryVariablesHistory().size(), posesOf.size() + 1, "windows processed (calibration history)");
    VCHECK(k.getOdometryVariablesHistory().back() == k.getOdometryDesignVariables()->getParameters(), "the history does not end with the current calibration");
    if (posesOf.size() > seen) {  // whether the batch was kept or not, its window is over
      seen = posesOf.size();
      const size_t nb = k.getEstimator()->getProblem()->getNumOptimizationProblems();
      const bool keep = !picky || k.getEstimator()->getRankTheta() > rank;
      VEQ(nb, kept.size() + keep, "batches kept after window " << seen << ", rank " << rank << " then " << k.getEstimator()->getRankTheta());
      if (keep) { kept.push_back(seen - 1); rank = k.getEstimator()->getRankTheta(); { const double g = k.getInformationGainHistory().back(), e = k.getEstimator()->getInformationGain(); VCHECK(g == e || (std::isnan(g) && std::isnan(e)), "information gain of window " << seen << " is " << e << ", recorded " << g); } }
      else { turned++; const auto& h = k.getOdometryVariablesHistory(); VCHECK(h[h.size() - 1] == h[h.size() - 2], "a batch turned down changed the calibration from " << h[h.size() - 2].transpose() << " to " << h[h.size() - 1].transpose()); }
    }
    VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), kept.size(), "batches kept");
    for (size_t b = 0; b < kept.size(); ++b) {
      auto* p = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(b));
      VEQ(cal::of<ac::ErrorTermPose>(cal::terms(const_cast<ac::OptimizationProblemSpline&>(*p))).size(), posesOf[kept[b]], "poses in window " << kept[b]);
    }
  }
  if (turned) s.label("batches turned down");
  s.label("windows " + std::to_string(std::min<size_t>(posesOf.size(), 3)));
  s.nontrivial(posesOf.size() > 1 && starved);
}

CLAUSE(few_poses, 200, 4000, "wheel measurements are there") {
  Scene q = scene(s); q.d.poses.resize(s.index(2)); sm::PropertyTree t; tdconf::write(q.c, t);
  ac::Calibrator k(t); feed(s, k, q.d);
  k.addMeasurements(); stored(k, q.d);
  VCHECK(k.getInformationGainHistory().empty(), "a batch from less than two poses");
  VNOTHROW(k.predict(), "predicting from less than two poses"); none(k); stored(k, q.d);
  s.nontrivial(q.d.left.size() && q.d.right.size());
}

// talking about it changes nothing, and tells the observability of what is estimated
CLAUSE(verbose, 150, 3000, "columns are scaled, some variables are inactive, and delays are active or the optimizer ran") {
  Scene q = scene(s); q.c.iterations = q.c.delaysActive ? 0 : (int)s.range(0, 3);  // delays estimated from noise run off
  const uint64_t seed = s.choice(0); std::vector<uint64_t> ch; for (int i = 0; i < 200; ++i) ch.push_back(seed >> (i % 60));
  Eigen::VectorXd h[2]; double ig[2]; std::string text; Eigen::MatrixXd basis;
  for (int v = 0; v < 2; ++v) {
    sm::PropertyTree t; q.c.verbose = v == 1; tdconf::write(q.c, t);
    cal::Quiet quiet;
    ac::Calibrator k(t);
    vpt::Src f(ch, nullptr); feed(f, k, q.d);
    k.addMeasurements();
    h[v] = k.getOdometryVariablesHistory().back(); ig[v] = k.getInformationGainHistory().back();
    if (v) { text = quiet.o.str(); basis = k.getEstimator()->getObsBasis(true); } else VCHECK(quiet.o.str().empty(), "output without verbose: " << quiet.o.str());
  }
  VCHECK(h[0] == h[1], "verbose changes the calibration from " << h[0].transpose() << " to " << h[1].transpose());
  VCHECK(ig[0] == ig[1] || (std::isnan(ig[0]) && std::isnan(ig[1])), "verbose changes the information gain from " << ig[0] << " to " << ig[1]);
  VCHECK(text.find("IG: ") != std::string::npos && (text.find("ACCEPTED") != std::string::npos) != (text.find("REJECTED") != std::string::npos), "verbose output without information gain or decision:\n" << text);
  if (q.c.columnScaling && q.c.iterations > 0 && text.find("ACCEPTED") != std::string::npos) cal::observability(text, basis, tdconf::observed(q.c));
  s.nontrivial(q.c.columnScaling && (q.c.delaysActive || q.c.iterations > 0) && tdconf::observed(q.c).size() < 11);
}

// from measurements of a known vehicle without noise, the calibration is found
CLAUSE(recovery, 60, 600, "the calibration was observable and more than a little off") {
  tdconf::Conf c = tdconf::draw(s); c.window = 1e9; c.delta = -1e18; c.knots = 3; c.tOrder = c.rOrder = 4; c.tLambda = c.rLambda = 0; c.delayBound = 100000000; c.qVy = c.qVz = 1e8;
  c.columnScaling = true; c.iterations = 30; c.rActive = c.RActive = false; c.ql = c.qr = 1;
  cal::Motion m; m.y0 = s.real(-2, 2); m.yr = s.real(0.3, 0.6); m.ya = s.real(0.4, 0.8); m.yf = s.real(1.5, 2.5); m.s0 = s.real(4, 6); m.sa = s.real(1, 2); m.sf = s.real(1, 2); m.pa = m.ra = 0.05; m.pf = m.rf = 1; m.za = 0; m.zf = 1; m.o = V3(3, 2, 1);
  Scene q; q.c = c; q.d.sp = q.d.sa = 1e-4 * M3::Identity();
  q.d.poses = cal::poses(s, m, cal::times(s, 1000000000, 4, 60), c.r, cal::fromYpr(c.ypr), 0);
  sm::PropertyTree t; tdconf::write(c, t);
  ac::Calibrator truth(t);
  for (int i = 2; i < 58; ++i) { q.d.left.push_back({q.d.poses[i].t, 0}); q.d.right.push_back({q.d.poses[i].t, 0}); }
  feed(s, truth, q.d); truth.predict();
  const Want w = expected(q, *truth.getTranslationSpline(), *truth.getRotationSpline());
  if (w.left.size() < 40 || w.right.size() < 40) throw vpt::Discard();
  Data d; d.sp = q.d.sp; d.sa = q.d.sa;
  for (auto& i : w.pose) d.poses.push_back({i.t, i.value.head<3>(), i.value.tail<3>()});
  for (auto& i : w.left) d.left.push_back({i.t, i.value(0)});
  for (auto& i : w.right) d.right.push_back({i.t, i.value(0)});
  tdconf::Conf g = c; const double u = 0.15;
  for (double* x : {&g.b, &g.kl, &g.kr}) *x *= 1 + s.real(-u, u);
  if (c.delaysActive) for (int* x : {&g.tl, &g.tr}) *x += (int)s.range(-20000000, 20000000);
  g.verbose = s.flip();
  sm::PropertyTree tg; tdconf::write(g, tg);
  ac::Calibrator k(tg); feed(s, k, d);
  { cal::Quiet quiet; k.addMeasurements(); if (g.verbose && quiet.o.str().find("ACCEPTED") != std::string::npos) cal::observability(quiet.o.str(), k.getEstimator()->getObsBasis(true), tdconf::observed(g)); }
  const Eigen::VectorXd got = k.getOdometryDesignVariables()->getParameters(), want = tdconf::parameters(c), from = tdconf::parameters(g), sd = k.getOdometryVariablesVariance().cwiseSqrt();
  VEQ(sd.size(), c.delaysActive ? 5 : 3, "size of the variance");
  s.note([&](std::ostream& o) { o << "from " << from.transpose() << "\nto   " << got.transpose() << "\ntrue " << want.transpose() << "\nsd   " << sd.transpose() << "\n"; });
  if (sd.maxCoeff() > 3 || sd.minCoeff() == 0) throw vpt::Discard();
  for (int i = 0; i < 5; ++i) VCHECK(std::fabs(got(i) - want(i)) < 1e-3 * (1 + std::fabs(want(i))), "parameter " << i << " is estimated as " << got(i) << ", true " << want(i) << " (started from " << from(i) << ")");
  s.nontrivial((from - want).cwiseAbs().maxCoeff() > 0.02);
}
