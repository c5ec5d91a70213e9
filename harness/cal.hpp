// Shared by the checks of the example calibrators (C28 and on): smooth motions, pose sequences, the vehicle state of a
// pair of splines, and the comparison of predictions and error terms with expected ones.
#pragma once
#include "et.hpp"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <bsplines/Spline.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
namespace cal {
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
namespace sk = sm::kinematics;
typedef sm::timing::NsecTime Ns;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;
typedef Eigen::Matrix3d M3;
typedef bsplines::detail::Spline<3> TSpline;
typedef bsplines::detail::Spline<4> RSpline;

inline M3 fromYpr(const V3& a) {
  const double cy = std::cos(a(0)), sy = std::sin(a(0)), cp = std::cos(a(1)), sp = std::sin(a(1)), cr = std::cos(a(2)), sr = std::sin(a(2));
  M3 Z, Y, X; Z << cy, -sy, 0, sy, cy, 0, 0, 0, 1; Y << cp, 0, sp, 0, 1, 0, -sp, 0, cp; X << 1, 0, 0, 0, cr, -sr, 0, sr, cr;
  return Z * Y * X;
}
inline V3 toYpr(const M3& C) { return V3(std::atan2(C(1, 0), C(0, 0)), std::atan2(-C(2, 0), std::hypot(C(0, 0), C(1, 0))), std::atan2(C(2, 1), C(2, 2))); }

// a car-like motion: heading and speed of smooth waves, small pitch and roll
struct Motion {
  double y0, yr, ya, yf, s0, sa, sf, pa, pf, ra, rf, za, zf; V3 o;
  V3 angles(double t) const { return V3(y0 + yr * t + ya * std::sin(yf * t), pa * std::sin(pf * t), ra * std::sin(rf * t + 1)); }
  double speed(double t) const { return s0 + sa * std::sin(sf * t); }
  // position by fine integration
  std::vector<V3> positions(const std::vector<double>& ts) const {
    std::vector<V3> r; V3 p = o; double t = 0;
    for (double e : ts) { while (t < e) { const double h = std::min(0.01, e - t); const V3 a = angles(t + h / 2); p += h * speed(t + h / 2) * V3(std::cos(a(0)), std::sin(a(0)), 0); t += h; if (e - t < 1e-12) t = e; } r.push_back(p + V3(0, 0, za * std::sin(zf * e))); }
    return r;
  }
};
inline Motion motion(vpt::Src& s) {
  Motion m; const bool still = s.chance(1, 10);
  m.y0 = s.real(-3.1, 3.1); m.yr = s.real(-1, 1); m.ya = s.real(0, 0.8); m.yf = s.real(0.2, 3);
  m.s0 = still ? 0.2 : s.chance(1, 4) ? s.real(-8, 0) : s.real(1, 12); m.sa = s.real(0, 3); m.sf = s.real(0.2, 3);
  m.pa = s.real(0, 0.2); m.pf = s.real(0.2, 4); m.ra = s.real(0, 0.2); m.rf = s.real(0.2, 4); m.za = s.real(0, 0.3); m.zf = s.real(0.2, 4);
  m.o = V3(s.real(-100, 100), s.real(-100, 100), s.real(-5, 5));
  return m;
}
// pose times: n of them from t0 over len seconds, unevenly spaced
inline std::vector<Ns> times(vpt::Src& s, Ns t0, double len, size_t n) {
  std::vector<Ns> r; const bool even = s.flip();
  for (size_t i = 0; i < n; ++i) r.push_back(t0 + (Ns)(1e9 * len * ((double)i + (even || i == 0 || i + 1 == n ? 0 : s.real(-0.45, 0.45))) / (double)(n - 1)));
  return r;
}
struct Pose { Ns t; V3 p; V3 a; };  // position, and yaw pitch roll
// the poses of a sensor mounted at (r, R) of the vehicle
inline std::vector<Pose> poses(vpt::Src& s, const Motion& m, const std::vector<Ns>& ts, const V3& r, const M3& R, double noise) {
  std::vector<double> e; for (Ns t : ts) e.push_back((double)(t - ts[0]) * 1e-9);
  const std::vector<V3> ps = m.positions(e);
  std::vector<Pose> o;
  for (size_t i = 0; i < ts.size(); ++i) {
    const M3 C = fromYpr(m.angles(e[i]));
    Pose q; q.t = ts[i]; q.p = ps[i] + C * r; q.a = toYpr(C * R);
    if (std::fabs(std::cos(q.a(1))) < 0.1) throw vpt::Discard();
    if (noise > 0) { q.p += noise * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); q.a += noise * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); }
    if (s.chance(1, 8)) q.a(0) += 2 * M_PI;
    o.push_back(q);
  }
  return o;
}

// vehicle state: position, attitude, velocity and turn rate in the vehicle frame
struct State { V3 p; M3 R; V3 v, w; };
inline State state(const TSpline& T, const RSpline& Q, Ns t) {
  State x; x.p = T.getEvaluatorAt<1>(t).eval(); x.R = sk::quat2r(Q.getEvaluatorAt<1>(t).eval());
  x.v = x.R.transpose() * T.getEvaluatorAt<1>(t).evalD(1); x.w = -(x.R.transpose() * Q.getEvaluatorAt<1>(t).evalAngularVelocity());
  return x;
}
// the splines the calibrators have to start from
struct Splines { std::shared_ptr<TSpline> T; std::shared_ptr<RSpline> Q; };
inline Splines refit(const std::vector<Ns>& t, const std::vector<V3>& p, const std::vector<M3>& R, int knots, int to, double tl, int ro, double rl) {
  std::vector<V4> q;
  for (const M3& C : R) { V4 x = sk::r2quat(C); if (!q.empty() && (q.back() - x).norm() > (q.back() + x).norm()) x = -x; q.push_back(x); }
  const double el = (double)(t.back() - t.front()) * 1e-9, rate = std::round((double)t.size() / el);
  const int seg = rate > knots ? (int)std::ceil(knots * el) : (int)t.size();
  Splines o; o.T = std::make_shared<TSpline>(to); o.T->fit(t, p, seg, tl); o.Q = std::make_shared<RSpline>(ro); o.Q->fit(t, q, seg, rl);
  return o;
}
inline void sameSplines(const TSpline& T, const RSpline& Q, const Splines& w, vpt::Src& s) {
  VEQ(T.order(), w.T->order(), "order of the translation spline"); VEQ(Q.order(), w.Q->order(), "order of the rotation spline");
  VEQ(T.numSegments(), w.T->numSegments(), "segments of the translation spline"); VEQ(Q.numSegments(), w.Q->numSegments(), "segments of the rotation spline");
  VEQ(T.getMinTime(), w.T->getMinTime(), "start"); VEQ(T.getMaxTime(), w.T->getMaxTime(), "end"); VEQ(Q.getMinTime(), w.Q->getMinTime(), "start"); VEQ(Q.getMaxTime(), w.Q->getMaxTime(), "end");
  for (int i = 0; i < 5; ++i) {
    const Ns t = T.getMinTime() + (Ns)(s.unit() * (double)(T.getMaxTime() - T.getMinTime()));
    et::close(T.getEvaluatorAt<1>(t).eval(), w.T->getEvaluatorAt<1>(t).eval(), 1e-6, 1e-6, "position of the spline");  // few poses make an ill-conditioned fit
    et::close(M3(sk::quat2r(Q.getEvaluatorAt<1>(t).eval())), M3(sk::quat2r(w.Q->getEvaluatorAt<1>(t).eval())), 0, 1e-6, "attitude of the spline");
    et::close(Q.getEvaluatorAt<1>(t).evalAngularVelocity(), w.Q->getEvaluatorAt<1>(t).evalAngularVelocity(), 1e-5, 1e-5, "turn rate of the spline");
  }
}

// an expected prediction, or an expected error term
struct Item { Ns t; Eigen::VectorXd value, error, meas; Eigen::MatrixXd cov; std::vector<int> angles; };
inline double weighted(const Item& i) { return i.error.dot(i.cov.fullPivLu().solve(i.error)); }
inline Eigen::VectorXd vec(std::initializer_list<double> l) { Eigen::VectorXd v(l.size()); int i = 0; for (double d : l) v(i++) = d; return v; }
inline bool closeErr(const Eigen::VectorXd& got, const Item& w, double tol, int* at) {
  for (int i = 0; i < (int)w.error.size(); ++i) {
    double d = got(i) - w.error(i);
    if (std::count(w.angles.begin(), w.angles.end(), i)) d = et::wrap(d);
    if (!(std::fabs(d) <= tol * (1 + std::fabs(w.error(i)) + w.meas.norm()))) { *at = i; return false; }
  }
  return true;
}
template <typename Preds, typename F> void predictions(const Preds& got, const std::vector<Eigen::VectorXd>& err, const std::vector<double>& err2, const std::vector<Item>& want, F value, const std::string& what) {
  VEQ(got.size(), want.size(), what << ": number of predictions"); VEQ(err.size(), want.size(), what << ": number of errors"); VEQ(err2.size(), want.size(), what << ": number of squared errors");
  for (size_t i = 0; i < want.size(); ++i) {
    VEQ(got[i].first, want[i].t, what << " " << i << ": time of the prediction");
    const Eigen::VectorXd v = value(got[i].second);
    VEQ(v.size(), want[i].value.size(), what);
    for (int k = 0; k < v.size(); ++k) { double d = v(k) - want[i].value(k); if (v.size() == 6 && k >= 3 && !want[i].angles.empty()) d = et::wrap(d); VCHECK(std::fabs(d) <= 1e-7 * (1 + std::fabs(want[i].value(k))), what << " " << i << ": predicted " << v.transpose() << ", expected " << want[i].value.transpose()); }
    VEQ(err[i].size(), want[i].error.size(), what << " " << i << ": size of the error");
    int at = 0;
    VCHECK(closeErr(err[i], want[i], 1e-7, &at), what << " " << i << ": error " << err[i].transpose() << ", expected " << want[i].error.transpose() << " at " << at);
    VCLOSE(err2[i], weighted(want[i]), 1e-5, 1e-7, what << " " << i << ": squared error");
  }
}

// the error terms of a batch by kind and, for wheels, by the calibration variable named
typedef std::vector<ab::ErrorTerm*> Terms;
inline Terms terms(ac::OptimizationProblem& b) { Terms t; for (size_t i = 0; i < b.numErrorTerms(); ++i) t.push_back(b.errorTerm(i)); return t; }
inline bool uses(const ab::ErrorTerm* t, const ab::DesignVariable* d) { for (size_t i = 0; i < t->numDesignVariables(); ++i) if (const_cast<ab::ErrorTerm*>(t)->designVariable(i) == d) return true; return false; }
template <typename T> std::vector<T*> of(const Terms& a) { std::vector<T*> r; for (auto* t : a) if (auto* x = dynamic_cast<T*>(t)) r.push_back(x); return r; }
template <typename T> std::vector<T*> with(const std::vector<T*>& a, const ab::DesignVariable* d) { std::vector<T*> r; for (auto* t : a) if (uses(t, d)) r.push_back(t); return r; }
// got against expected: errors, squared errors, and which of the calibration variables each depends on
template <typename T> void same(const std::vector<T*>& got, const std::vector<Item>& want, const std::vector<const ab::DesignVariable*>& calib, const std::set<const ab::DesignVariable*>& on, const std::string& what) {
  VEQ(got.size(), want.size(), what << ": error terms in the batch");
  for (size_t i = 0; i < want.size(); ++i) {
    const double sq = got[i]->evaluateError();
    const Eigen::VectorXd e = got[i]->error();
    VEQ(e.size(), want[i].error.size(), what << ": size of the error");
    int at = 0;
    VCHECK(closeErr(e, want[i], 1e-7, &at), what << " " << i << ": error term has error " << e.transpose() << ", expected " << want[i].error.transpose() << " at " << at);
    VCLOSE(sq, weighted(want[i]), 1e-5, 1e-7, what << " " << i << ": squared error of the error term");
    for (auto* d : calib) VEQ(uses(got[i], d), on.count(d) != 0, what << " " << i << ": use of calibration variable " << (size_t)(std::find(calib.begin(), calib.end(), d) - calib.begin()));
  }
}
// the variables of a batch: splines in group 0, calibration in group 1, groups in that order
template <typename B> void groups(B& b, const std::vector<ab::DesignVariable*>& dvs) {
  for (auto* d : dvs) { VCHECK(b.isDesignVariableInProblem(d), "a calibration variable is not in the batch"); VEQ(b.getGroupId(d), (size_t)1, "group of a calibration variable"); }
  VEQ(b.getNumTranslationSplines(), (size_t)1, "translation splines"); VEQ(b.getNumRotationSplines(), (size_t)1, "rotation splines");
  auto* T = b.getTranslationSpline(0); auto* Q = b.getRotationSpline(0);
  VEQ(b.numDesignVariables(), dvs.size() + T->numDesignVariables() + Q->numDesignVariables(), "design variables of the batch");
  for (size_t i = 0; i < T->numDesignVariables(); ++i) VCHECK(b.getGroupId(T->designVariable(i)) == 0 && T->designVariable(i)->isActive(), "a control point of the translation spline");
  for (size_t i = 0; i < Q->numDesignVariables(); ++i) VCHECK(b.getGroupId(Q->designVariable(i)) == 0 && Q->designVariable(i)->isActive(), "a control point of the rotation spline");
  VCHECK(b.getGroupsOrdering() == std::vector<size_t>({0, 1}), "order of the groups");
}
inline void estimatorConfig(sm::PropertyTree& c, int maxIterations, bool columnScaling, bool verbose, bool validity = false, double delta = -1e18) {
  c.setDouble("estimator/infoGainDelta", delta); c.setInt("estimator/groupId", 1); c.setBool("estimator/verbose", verbose); c.setBool("estimator/checkValidity", validity);
  c.setDouble("estimator/optimizer/convergenceDeltaJ", 1e-12); c.setDouble("estimator/optimizer/convergenceDeltaX", 1e-12); c.setInt("estimator/optimizer/maxIterations", maxIterations);
  c.setInt("estimator/optimizer/linearSolverMaximumFails", 0); c.setInt("estimator/optimizer/nThreads", 1); c.setBool("estimator/optimizer/verbose", verbose);
  const std::string l = "estimator/optimizer/linearSolver/";
  c.setBool(l + "columnScaling", columnScaling); c.setDouble(l + "epsNorm", 1e-8); c.setDouble(l + "epsSVD", 1e-9); c.setDouble(l + "epsQR", 1e-16); c.setDouble(l + "svdTol", -1); c.setDouble(l + "qrTol", -1); c.setBool(l + "verbose", false);
}
// the observability told for each estimated coordinate is the norm of its row of the basis
inline void observability(const std::string& text, const Eigen::MatrixXd& basis, const std::vector<std::string>& names) {
  const size_t at = text.find("observability:");
  VCHECK(at != std::string::npos, "no observability told");
  VEQ((size_t)basis.rows(), names.size(), "rows of the basis");
  std::map<std::string, double> told; std::istringstream in(text.substr(at)); std::string line; std::getline(in, line);
  while (std::getline(in, line)) { const size_t c = line.find(':'); if (c == std::string::npos) continue; std::string n = line.substr(0, c); while (!n.empty() && n.back() == ' ') n.pop_back(); told[n] = std::atof(line.c_str() + c + 1); }
  for (size_t i = 0; i < names.size(); ++i) { VCHECK(told.count(names[i]), "no observability of " << names[i] << ":\n" << text.substr(at)); VCHECK(std::fabs(told[names[i]] - basis.row(i).norm()) <= 1e-4 * (1 + basis.row(i).norm()), "observability of " << names[i] << " told as " << told[names[i]] << ", the row of the basis has norm " << basis.row(i).norm()); }
}
// what is written to standard output meanwhile
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
// a scratch file, gone when done
struct Scratch { std::string name; Scratch() { char n[] = "/tmp/vptXXXXXX"; const int f = mkstemp(n); if (f < 0) throw std::runtime_error("mkstemp"); close(f); name = n; } ~Scratch() { unlink(name.c_str()); } };
}  // namespace cal
