// C33: the egomotion calibrator: predictions, batches, windows, estimates
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <aslam/backend/ErrorTermTransformation.hpp>
#include "egoconf.hpp"
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::Ns; using cal::V3; using cal::M3; using cal::Item; using cal::State;
typedef sm::kinematics::Transformation Tf;
typedef Eigen::Matrix<double, 6, 6> M6;

struct Pose { M3 R = M3::Identity(); V3 p = V3::Zero(); };
static Pose operator*(const Pose& a, const Pose& b) { Pose c; c.R = a.R * b.R; c.p = a.R * b.p + a.p; return c; }
static Pose inv(const Pose& a) { Pose c; c.R = a.R.transpose(); c.p = -(c.R * a.p); return c; }
static Tf tf(const Pose& a) { return Tf(sm::kinematics::r2quat(a.R), a.p); }
static V3 rotvec(const M3& R) { Eigen::AngleAxisd a(Eigen::Quaterniond(R).normalized()); return a.angle() * a.axis(); }

struct Meas { Ns t; Pose motion; Ns duration; M6 q; };
typedef std::map<size_t, std::vector<Meas> > Data;
struct Scene { egoconf::Conf c; Data d; };

static Pose jitter(vpt::Src& s, const Pose& a, double n) { if (!n) return a; Pose j; j.p = n * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); j.R = cal::fromYpr(n * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1))); return a * j; }
static std::vector<Pose> path(const cal::Motion& m, const std::vector<Ns>& ts) {
  std::vector<double> e; for (Ns t : ts) e.push_back((double)(t - ts[0]) * 1e-9);
  const std::vector<V3> ps = m.positions(e); std::vector<Pose> r;
  for (size_t i = 0; i < ts.size(); ++i) { Pose p; p.R = cal::fromYpr(m.angles(e[i])); p.p = ps[i]; r.push_back(p); }
  return r;
}
static Scene scene(vpt::Src& s) {
  Scene q; q.c = egoconf::draw(s); egoconf::Conf& c = q.c;
  c.window = 1e9; c.delta = -1e18;
  const double len = s.real(0.5, 3); const Ns t0 = s.flip() ? 1000000000 : 1363945215000000000ll;
  const size_t n = (size_t)s.range(3, 25);
  const std::vector<Ns> ts = cal::times(s, t0, len, n); const std::vector<Pose> ps = path(cal::motion(s), ts);
  const double noise = s.chance(1, 3) ? s.logReal(1e-3, 0.1) : 0;
  const M6 Q = et::spd(s, 6);
  for (size_t i = 1; i < n; ++i) q.d[c.reference].push_back({ts[i], jitter(s, inv(ps[i - 1]) * ps[i], noise), ts[i] - ts[i - 1], Q});
  for (auto& x : c.sensors) {
    const size_t k = s.index(8); const M6 Qs = et::spd(s, 6); std::vector<Ns> t;
    for (size_t i = 0; i < k; ++i) switch (s.index(8)) {
      case 0: t.push_back(ts[0] + c.delayBound + x.t + s.range(-1, 1)); break;  // about the first and last usable times
      case 1: t.push_back(ts.back() - c.delayBound + x.t + s.range(-1, 1)); break;
      default: t.push_back(ts[0] + (Ns)(s.unit() * (double)(ts.back() - ts[0])));
    }
    std::sort(t.begin(), t.end());
    for (Ns e : t) { Pose m; m.p = V3(s.any(3), s.any(3), s.any(3)); m.R = cal::fromYpr(V3(s.real(-1, 1), s.real(-0.5, 0.5), s.real(-0.5, 0.5))); q.d[x.idx].push_back({std::max<Ns>(e, 0), m, 0, Qs}); }
  }
  s.note([&](std::ostream& o) {
    o << n - 1 << " reference motions over " << len << " s, bound " << c.delayBound << " knots " << c.knots << " reference " << c.reference << "\n";
    for (auto& x : c.sensors) o << "  sensor " << x.idx << " " << egoconf::parameters(x).transpose() << "\n";
    for (auto& d : q.d) for (auto& m : d.second) o << "  motion " << d.first << " " << m.t << " " << m.motion.p.transpose() << " | " << cal::toYpr(m.motion.R).transpose() << "\n";
  });
  return q;
}
static ac::MotionMeasurement motionOf(const Meas& m) { ac::MotionMeasurement r; r.motion = tf(m.motion); r.duration = m.duration; r.sigma2 = m.q; return r; }
// hands the measurements over, the sensors interleaved in any order, each sensor's own in order
static void feed(vpt::Src& s, ac::Calibrator& k, const Data& d) {
  std::vector<size_t> order; std::map<size_t, size_t> at;
  for (auto& x : d) order.resize(order.size() + x.second.size(), x.first);
  if (s.flip()) { std::vector<size_t> o; for (size_t i : s.permutation(order.size())) o.push_back(order[i]); order = o; }
  for (size_t x : order) { const Meas& m = d.at(x)[at[x]++]; if (x == 0 && s.flip()) k.addMotionMeasurement(motionOf(m), m.t); else k.addMotionMeasurement(motionOf(m), m.t, x); }
}
static Pose chain(const std::vector<Meas>& ref, Pose from) { for (auto& m : ref) from = from * m.motion; return from; }
static cal::Splines expectedSplines(const egoconf::Conf& c, const std::vector<Meas>& ref, Pose at) {
  std::vector<Ns> t = {ref[0].t - ref[0].duration}; std::vector<V3> p = {at.p}; std::vector<M3> R = {at.R};
  for (auto& m : ref) { at = at * m.motion; t.push_back(m.t); p.push_back(at.p); R.push_back(at.R); }
  std::vector<cal::V4> q;
  for (const M3& C : R) { cal::V4 x = sm::kinematics::r2quat(C); if (!q.empty() && (q.back() - x).norm() > (q.back() + x).norm()) x = -x; q.push_back(x); }
  const double el = (double)(t.back() - t.front()) * 1e-9, rate = (double)std::lround((double)ref.size() / el);
  const int seg = rate > c.knots ? (int)std::ceil(c.knots * el) : (int)ref.size();
  cal::Splines o; o.T = std::make_shared<cal::TSpline>(c.tOrder); o.T->fit(t, p, seg, c.tLambda); o.Q = std::make_shared<cal::RSpline>(c.rOrder); o.Q->fit(t, q, seg, c.rLambda);
  return o;
}
struct Want { std::map<size_t, std::vector<Item> > items; size_t skipped = 0, terms = 0; };
static Pose poseAt(const cal::TSpline& T, const cal::RSpline& Q, Ns t) { Pose p; p.p = T.getEvaluatorAt<0>(t).eval(); p.R = sm::kinematics::quat2r(Q.getEvaluatorAt<0>(t).eval()); return p; }
static Want expected(const Scene& q, const cal::TSpline& T, const cal::RSpline& Q) {
  Want w; const egoconf::Conf& c = q.c;
  for (auto& d : q.d) {
    Ns delay = 0, bound = 0; Pose mount; w.items[d.first];
    for (auto& x : c.sensors) if (x.idx == d.first) { delay = x.t; bound = c.delayBound; mount.R = cal::fromYpr(x.ypr); mount.p = x.r; }
    bool first = true; Pose prev;
    for (auto& m : d.second) {
      const Ns t = m.t - delay;
      if (d.first != c.reference && (t + bound > T.getMaxTime() || t - bound < T.getMinTime())) { w.skipped++; continue; }
      const Pose cur = poseAt(T, Q, t) * mount;
      if (!first) {
        const Pose rel = inv(prev) * cur; Item i; i.t = m.t; i.value.resize(12); i.value << rel.p, Eigen::Map<const Eigen::VectorXd>(rel.R.data(), 9);
        const V3 e = -rotvec(rel.R * m.motion.R.transpose()); if (M_PI - e.norm() < 1e-2) throw vpt::Discard();
        i.error.resize(6); i.error << rel.p - m.motion.p, e; i.cov = m.q; i.meas = m.motion.p; w.items[d.first].push_back(i); w.terms++;
      }
      prev = cur; first = false;
    }
  }
  return w;
}
// the predictions have no accessors; subclasses see them
struct Probe : ac::Calibrator {
  explicit Probe(const sm::PropertyTree& t) : ac::Calibrator(t) {}
  template <typename F, typename P = Probe> auto each(F f, int) -> decltype(std::declval<P&>().motionMeasurementsPred_.size(), std::declval<P&>().motionMeasurementsPredErrors_.size(), std::declval<P&>().motionMeasurementsPredErrors2_.size(), bool()) {
    P& p = *this; std::set<size_t> ids; for (auto& x : p.motionMeasurementsPred_) ids.insert(x.first); for (auto& x : p.motionMeasurementsPredErrors_) ids.insert(x.first); for (auto& x : p.motionMeasurementsPredErrors2_) ids.insert(x.first);
    for (size_t i : ids) f(i, p.motionMeasurementsPred_[i], p.motionMeasurementsPredErrors_[i], p.motionMeasurementsPredErrors2_[i]);
    return true;
  }
  template <typename F, typename P = Probe> bool each(F, long) { return false; }
};
static void predicted(Probe& k, const Want& w) {
  std::set<size_t> seen;
  const bool can = k.each([&](size_t i, const ac::Calibrator::MotionMeasurements& p, const std::vector<Eigen::VectorXd>& e, const std::vector<double>& e2) {
    VCHECK(w.items.count(i) || p.empty(), "predictions of sensor " << i << " without measurements"); seen.insert(i);
    cal::predictions(p, e, e2, w.items.count(i) ? w.items.at(i) : std::vector<Item>(), [](const ac::MotionMeasurement& m) { Eigen::VectorXd v(12); const M3 R = m.motion.C(); v << m.motion.t(), Eigen::Map<const Eigen::VectorXd>(R.data(), 9); return v; }, "motion of sensor " + std::to_string(i));
  }, 0);
  if (can) for (auto& x : w.items) VCHECK(seen.count(x.first) || x.second.empty(), "no predictions of sensor " << x.first);
}
static void inBatch(const ac::OptimizationProblemSpline& cb, ac::Calibrator& k, const egoconf::Conf& c, const Want& w) {
  auto& b = const_cast<ac::OptimizationProblemSpline&>(cb); auto& v = *k.getDesignVariables();
  std::vector<ab::DesignVariable*> dvs; std::vector<const ab::DesignVariable*> calib;
  for (auto& x : c.sensors) for (auto* d : {egoconf::time(v, x.idx), egoconf::position(v, x.idx), egoconf::attitude(v, x.idx)}) { dvs.push_back(d); calib.push_back(d); }
  const auto E = cal::of<ab::ErrorTermTransformation>(cal::terms(b));
  VEQ(E.size(), b.numErrorTerms(), "motion error terms"); VEQ(E.size(), w.terms, "error terms in the batch");
  std::vector<ab::ErrorTermTransformation*> ref;
  for (auto* e : E) { bool any = false; for (auto* d : calib) any = any || cal::uses(e, d); if (!any) ref.push_back(e); }
  typedef std::set<const ab::DesignVariable*> On;
  static const std::vector<Item> nothing;
  auto of = [&](size_t i) -> const std::vector<Item>& { auto f = w.items.find(i); return f == w.items.end() ? nothing : f->second; };
  cal::same(ref, of(c.reference), calib, On(), "reference motion");
  for (auto& x : c.sensors) cal::same(cal::with(E, egoconf::position(v, x.idx)), of(x.idx), calib, On{egoconf::time(v, x.idx), egoconf::position(v, x.idx), egoconf::attitude(v, x.idx)}, "motion of sensor " + std::to_string(x.idx));
  cal::groups(b, dvs);
}
static bool history(ac::Calibrator& k, const egoconf::Conf& c, size_t n) {
  const auto h = k.getDesignVariablesHistory();
  for (auto& x : c.sensors) { VEQ(h.at(x.idx).size(), n, "history of sensor " << x.idx); VCHECK(h.at(x.idx).back() == k.getDesignVariables()->getParameters(x.idx), "the history of sensor " << x.idx << " does not end with the current calibration"); }
  VEQ(k.getInformationGainHistory().size(), n - 1, "information gain history");
  return true;
}

CLAUSE(predictions, 800, 20000, "every sensor has predictions and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; egoconf::write(q.c, t);
  Probe k(t);
  feed(s, k, q.d);
  VCHECK(k.unprocessedMeasurements(), "measurements lost");
  k.predict();
  VCHECK(k.getTranslationSpline() && k.getRotationSpline(), "no splines");
  const cal::Splines sp = expectedSplines(q.c, q.d[q.c.reference], Pose());
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), sp, s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  predicted(k, w);
  VCHECK(k.unprocessedMeasurements(), "predicting used the measurements up");
  history(k, q.c, 1);
  k.clearPredictions(); predicted(k, Want());
  if (s.flip()) { k.predict(); cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), sp, s); predicted(k, w); }
  k.clearMeasurements(); VCHECK(!k.unprocessedMeasurements(), "measurements left");
  bool all = true; for (auto& x : q.c.sensors) all = all && w.items.count(x.idx) && w.items.at(x.idx).size();
  s.nontrivial(w.skipped && all);
}

CLAUSE(batch, 400, 10000, "every sensor has error terms and some measurements are skipped") {
  Scene q = scene(s); sm::PropertyTree t; egoconf::write(q.c, t);
  Probe k(t);
  feed(s, k, q.d);
  if (s.flip()) { k.predict(); k.clearPredictions(); }
  k.addMeasurements();
  cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), expectedSplines(q.c, q.d[q.c.reference], Pose()), s);
  const Want w = expected(q, *k.getTranslationSpline(), *k.getRotationSpline());
  VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), (size_t)1, "batches in the estimator");
  auto* b = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(0));
  VCHECK(b, "the batch is not a spline batch");
  VCHECK(b->getTranslationSpline(0) == k.getTranslationSpline().get() && b->getRotationSpline(0) == k.getRotationSpline().get(), "the splines of the batch are not the current ones");
  inBatch(*b, k, q.c, w);
  VCHECK(!k.unprocessedMeasurements(), "measurements left");
  history(k, q.c, 2);
  bool all = true; for (auto& x : q.c.sensors) all = all && w.items.count(x.idx) && w.items.at(x.idx).size();
  s.nontrivial(w.skipped && all);
}

// a history of additions against a model of the windows; the path goes on where the window before ended
CLAUSE(windows, 1500, 30000, "at least two windows were processed and there were predictions or a window without reference motions") {
  egoconf::Conf c = egoconf::draw(s);
  c.knots = (int)s.range(1, 3); c.tOrder = c.rOrder = 4; const bool picky = s.chance(1, 3); c.delta = picky ? 1e18 : -1e18; c.iterations = picky ? (int)s.range(0, 2) : 0; c.delayBound = 0; c.sensors.resize(1); c.sensors[0].t = 0; c.sensors[0].tActive = false; c.tLambda = std::max(c.tLambda, 1e-3); c.rLambda = std::max(c.rLambda, 1e-3);
  const Ns step = 50000000; const Ns win = step * s.range(2, 12);
  c.window = (double)win / 1e9;
  sm::PropertyTree t; egoconf::write(c, t);
  Probe k(t);
  const cal::Motion m = cal::motion(s);
  Ns now = s.flip() ? 0 : 1363945215000000000ll; Ns start = -1, last = -1; const Ns t0 = now; Ns refAt = now; now += step;
  std::vector<Meas> ref; size_t others = 0; std::vector<size_t> refsOf; Pose from; bool special = false;
  std::vector<size_t> kept; size_t turned = 0, seen = 0; std::ptrdiff_t rank = -1;
  const size_t ops = 5 + s.index(40);
  auto process = [&] {
    if (ref.empty()) { special = special || others; return; }
    if (ref.size() < 2) throw vpt::Discard();  // a single motion makes no error term
    refsOf.push_back(ref.size()); from = chain(ref, from); ref.clear(); others = 0; start = last;
  };
  for (size_t i = 0; i < ops; ++i) {
    const int what = s.chance(1, 2) ? 0 : (int)s.range(0, 3);
    if (what <= 1) { now += step * s.range(1, 3); last = now; if (start == -1) start = now; if ((double)(now - start) / 1e9 >= c.window) { const size_t n = refsOf.size(); process(); if (refsOf.size() > n) refAt = std::min(refAt, now); } }
    const size_t before = refsOf.size();
    switch (what) {
      case 0: { const std::vector<Pose> p = path(m, {t0, refAt, now}); Meas x{now, inv(p[1]) * p[2], now - refAt, M6::Identity()}; if (rotvec(x.motion.R).norm() > 2) throw vpt::Discard(); refAt = now; k.addMotionMeasurement(motionOf(x), now, c.reference); ref.push_back(x); break; }
      case 1: { Meas x{now, Pose(), 0, M6::Identity()}; k.addMotionMeasurement(motionOf(x), now, c.sensors[0].idx); others++; break; }
      case 2: if (s.flip()) { VNOTHROW(k.predict(), "predicting"); if (!ref.empty()) { special = true; cal::sameSplines(*k.getTranslationSpline(), *k.getRotationSpline(), expectedSplines(c, ref, from), s); } k.clearPredictions(); } else { k.clearMeasurements(); ref.clear(); others = 0; } break;
      default: process(); VNOTHROW(k.addMeasurements(), "processing");
    }
    VEQ(k.unprocessedMeasurements(), ref.size() + others > 0, "unprocessed measurements");
    history(k, c, refsOf.size() + 1);
    if (refsOf.size() > seen) {  // whether the batch was kept or not, its window is over
      seen = refsOf.size();
      const size_t nb = k.getEstimator()->getProblem()->getNumOptimizationProblems();
      const bool keep = !picky || k.getEstimator()->getRankTheta() > rank;
      VEQ(nb, kept.size() + keep, "batches kept after window " << seen << ", rank " << rank << " then " << k.getEstimator()->getRankTheta());
      if (keep) { kept.push_back(seen - 1); rank = k.getEstimator()->getRankTheta(); { const double g = k.getInformationGainHistory().back(), e = k.getEstimator()->getInformationGain(); VCHECK(g == e || (std::isnan(g) && std::isnan(e)), "information gain of window " << seen << " is " << e << ", recorded " << g); } }
      else { turned++; const auto all = k.getDesignVariablesHistory(); for (auto& x : c.sensors) { const auto& h = all.at(x.idx); VCHECK(h[h.size() - 1] == h[h.size() - 2], "a batch turned down changed the calibration from " << h[h.size() - 2].transpose() << " to " << h[h.size() - 1].transpose()); } }
    }
    VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), kept.size(), "batches kept");
    for (size_t b = 0; b < kept.size(); ++b) {
      auto* p = dynamic_cast<const ac::OptimizationProblemSpline*>(k.getEstimator()->getProblem()->getOptimizationProblem(b));
      const auto E = cal::terms(const_cast<ac::OptimizationProblemSpline&>(*p)); size_t r = 0; auto* pos = egoconf::position(*k.getDesignVariables(), c.sensors[0].idx);
      for (auto* e : E) r += !cal::uses(e, pos);
      VEQ(r + 1, refsOf[kept[b]], "reference motions in window " << kept[b]);
    }
    (void)before;
  }
  if (turned) s.label("batches turned down");
  s.label("windows " + std::to_string(std::min<size_t>(refsOf.size(), 3)));
  s.nontrivial(refsOf.size() > 1 && special);
}

CLAUSE(no_reference, 200, 4000, "other measurements are there") {
  Scene q = scene(s); q.d.erase(q.c.reference); sm::PropertyTree t; egoconf::write(q.c, t);
  Probe k(t); feed(s, k, q.d); size_t n = 0; for (auto& x : q.d) n += x.second.size();
  VNOTHROW(k.predict(), "predicting without reference motions"); predicted(k, Want());
  VNOTHROW(k.addMeasurements(), "processing without reference motions");
  VEQ(k.unprocessedMeasurements(), n > 0, "unprocessed measurements"); history(k, q.c, 1);
  VEQ(k.getEstimator()->getProblem()->getNumOptimizationProblems(), (size_t)0, "batches");
  s.nontrivial(n > 0);
}

static std::vector<std::string> observed(ac::Calibrator& k) {  // in the order the variables are in the batch
  std::vector<std::string> n; auto& v = *k.getDesignVariables();
  for (auto& x : v.calibrationVariables_) {
    const std::string i = std::to_string(x.first);
    if (std::get<0>(x.second)->isActive()) n.push_back("t_" + i);
    for (const char* f : {"r_", "R_"}) if ((f[0] == 'r' ? egoconf::position(v, x.first) : egoconf::attitude(v, x.first))->isActive()) for (const char* c : {"_1", "_2", "_3"}) n.push_back(f + i + c);
  }
  return n;
}
// talking about it changes nothing, and tells the observability of what is estimated
CLAUSE(verbose, 150, 3000, "columns are scaled, some variables are inactive, and delays are active or the optimizer ran") {
  Scene q = scene(s); bool delays = false, less = false; for (auto& x : q.c.sensors) { delays = delays || x.tActive; less = less || !(x.tActive && x.rActive && x.RActive); }
  q.c.iterations = delays ? 0 : (int)s.range(0, 3);  // delays estimated from noise run off
  const uint64_t seed = s.choice(0); std::vector<uint64_t> ch; for (int i = 0; i < 200; ++i) ch.push_back(seed >> (i % 60));
  std::vector<Eigen::VectorXd> h[2]; double ig[2]; std::string text; Eigen::MatrixXd basis; std::vector<std::string> names;
  for (int v = 0; v < 2; ++v) {
    sm::PropertyTree t; q.c.verbose = v == 1; egoconf::write(q.c, t);
    cal::Quiet quiet;
    Probe k(t);
    vpt::Src f(ch, nullptr); feed(f, k, q.d);
    k.addMeasurements();
    for (auto& x : q.c.sensors) h[v].push_back(k.getDesignVariables()->getParameters(x.idx)); ig[v] = k.getInformationGainHistory().back();
    if (v) { text = quiet.o.str(); basis = k.getEstimator()->getObsBasis(true); names = observed(k); } else VCHECK(quiet.o.str().empty(), "output without verbose: " << quiet.o.str());
  }
  for (size_t i = 0; i < h[0].size(); ++i) VCHECK(h[0][i] == h[1][i], "verbose changes the calibration from " << h[0][i].transpose() << " to " << h[1][i].transpose());
  VCHECK(ig[0] == ig[1] || (std::isnan(ig[0]) && std::isnan(ig[1])), "verbose changes the information gain from " << ig[0] << " to " << ig[1]);
  VCHECK(text.find("IG: ") != std::string::npos && (text.find("ACCEPTED") != std::string::npos) != (text.find("REJECTED") != std::string::npos), "verbose output without information gain or decision:\n" << text);
  if (q.c.columnScaling && q.c.iterations > 0 && !names.empty() && text.find("ACCEPTED") != std::string::npos) cal::observability(text, basis, names);
  s.nontrivial(q.c.columnScaling && (delays || q.c.iterations > 0) && less);
}

// from measurements of known sensors without noise, the calibration is found
CLAUSE(recovery, 100, 1500, "the calibration was observable and more than a little off") {
  egoconf::Conf c = egoconf::draw(s); c.window = 1e9; c.delta = -1e18; c.knots = 3; c.tOrder = c.rOrder = 4; c.tLambda = c.rLambda = 0; c.delayBound = 100000000; c.columnScaling = true; c.iterations = 30;
  if (c.sensors.size() > 2) c.sensors.resize(2);
  cal::Motion m; m.y0 = s.real(-2, 2); m.yr = s.real(0.3, 0.6); m.ya = s.real(0.4, 0.8); m.yf = s.real(1.5, 2.5); m.s0 = s.real(4, 6); m.sa = s.real(1, 2); m.sf = s.real(1, 2); m.pa = s.real(0.3, 0.5); m.ra = s.real(0.3, 0.5); m.pf = s.real(1, 2); m.rf = s.real(1, 2); m.za = 0.3; m.zf = 1.5; m.o = V3::Zero();
  std::vector<Ns> ts; for (int i = 0; i <= 60; ++i) ts.push_back(1000000000 + (Ns)i * 66000000);
  std::vector<Pose> ps = path(m, ts);
  Scene q; q.c = c; const M6 Q = 1e-2 * M6::Identity();
  auto refs = [&] { std::vector<Meas> r; for (size_t i = 1; i < ps.size(); ++i) r.push_back({ts[i], inv(ps[i - 1]) * ps[i], ts[i] - ts[i - 1], Q}); return r; };
  // the motions of the path a spline takes
  const cal::Splines sp = expectedSplines(c, refs(), Pose());
  for (size_t i = 0; i < ps.size(); ++i) ps[i] = poseAt(*sp.T, *sp.Q, ts[i]);
  Data d; d[c.reference] = refs();
  for (auto& x : c.sensors) {
    Pose mount; mount.R = cal::fromYpr(x.ypr); mount.p = x.r; bool first = true; Pose prev;
    for (int i = 4; i <= 56; ++i) { const Pose cur = poseAt(*sp.T, *sp.Q, ts[i]) * mount; if (!first || true) d[x.idx].push_back({ts[i] + x.t, first ? Pose() : inv(prev) * cur, 66000000, Q}); prev = cur; first = false; }
  }
  egoconf::Conf g = c; double off = 0;
  for (auto& x : g.sensors) {
    if (x.tActive) { x.t += (int)s.range(-20000000, 20000000); }
    if (x.rActive) { const V3 e(s.real(-0.2, 0.2), s.real(-0.2, 0.2), s.real(-0.2, 0.2)); x.r += e; off = std::max(off, e.norm()); }
    if (x.RActive) { const V3 e(s.real(-0.15, 0.15), s.real(-0.15, 0.15), s.real(-0.15, 0.15)); x.ypr = cal::toYpr(cal::fromYpr(e) * cal::fromYpr(x.ypr)); off = std::max(off, e.norm()); }
  }
  g.verbose = s.flip();
  sm::PropertyTree tg; egoconf::write(g, tg);
  tg.setDouble("estimator/optimizer/linearSolver/qrTol", 1e-5);  // the path as a whole is free
  Probe k(tg); feed(s, k, d);
  { cal::Quiet quiet; k.addMeasurements(); if (g.verbose && observed(k).size() && quiet.o.str().find("ACCEPTED") != std::string::npos) cal::observability(quiet.o.str(), k.getEstimator()->getObsBasis(true), observed(k)); }
  const Eigen::VectorXd sd = k.getEstimator()->getSigma2Theta().diagonal().cwiseSqrt();
  VEQ((size_t)sd.size(), observed(k).size(), "size of the covariance");
  if (sd.size() && (sd.maxCoeff() > 1 || sd.minCoeff() == 0)) throw vpt::Discard();
  for (size_t i = 0; i < c.sensors.size(); ++i) {
    const Eigen::VectorXd got = k.getDesignVariables()->getParameters(c.sensors[i].idx), want = egoconf::parameters(c.sensors[i]), from = egoconf::parameters(g.sensors[i]);
    s.note([&](std::ostream& o) { o << "sensor " << c.sensors[i].idx << " from " << from.transpose() << "\n to   " << got.transpose() << "\n true " << want.transpose() << "\n"; });
    VCHECK((got.head<4>() - want.head<4>()).cwiseAbs().maxCoeff() < 2e-3 * (1 + want.cwiseAbs().maxCoeff()), "sensor " << c.sensors[i].idx << ": delay and translation estimated as " << got.head<4>().transpose() << ", true " << want.head<4>().transpose() << " (from " << from.transpose() << ")");
    VCHECK(rotvec(cal::fromYpr(got.tail<3>()).transpose() * cal::fromYpr(want.tail<3>())).norm() < 2e-3, "sensor " << c.sensors[i].idx << ": rotation estimated as " << got.tail<3>().transpose() << ", true " << want.tail<3>().transpose() << " (from " << from.transpose() << ")");
  }
  s.nontrivial(off > 0.02);
}
