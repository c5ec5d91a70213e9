// C39: the programs of the 2D laser-rangefinder example, run whole on generated configurations
#include "prog.hpp"
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/SVD>
#include <aslam/calibration/2dlrf/utils.h>
int lrf_offline_main(int, char**);
int lrf_online_main(int, char**);
namespace ac = aslam::calibration;
using namespace prog;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;

struct Conf {
  int steps, nl, batch; double T, A, f; V2 lo, hi; V3 q; V2 r; V3 theta, guess, x0; bool scaling, exact; double delta; int iters;
};
static Conf draw(vpt::Src& s, bool online) {
  Conf c;
  c.steps = online ? 8 + (int)s.index(24) : 4 + (int)s.index(20); c.nl = 3 + (int)s.index(4); c.batch = 4 + (int)s.index(10);
  c.T = s.pick(std::vector<double>{0.1, 0.5, 1, 0.2}); c.A = s.real(1, 10); c.f = s.real(0.02, 0.1) / c.T;
  c.lo = V2(s.real(-30, 10), s.real(-30, 10)); c.hi = c.lo + V2(s.real(5, 30), s.real(5, 30));
  // from the truth itself and next to no noise the optimizer has to stay; from elsewhere it may end in another minimum
  c.exact = s.chance(2, 5); const double n = c.exact ? 1e-14 : s.pick(std::vector<double>{1e-14, 1e-8, 1e-5});
  c.q = n * V3(s.real(0.3, 3), s.real(0.3, 3), s.real(0.3, 3)); c.r = n * V2(s.real(0.3, 3), s.real(0.3, 3));
  c.theta = V3(s.real(-1, 1), s.real(-1, 1), s.real(-3, 3)); c.guess = c.theta + (c.exact ? 1e-9 : 0.02) * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
  c.x0 = V3(s.real(-10, 10), s.real(-10, 10), s.real(-3, 3));
  c.scaling = s.flip(); c.delta = s.pick(std::vector<double>{-1e18, 0.2, 2}); c.iters = 30;
  seed((unsigned)s.index(1 << 16));
  return c;
}
static void write(const Conf& c, sm::PropertyTree& t) {
  const std::string p = "lrf/problem/", e = "lrf/estimator/", o = e + "optimizer/", l = o + "linearSolver/";
  t.setInt(p + "steps", c.steps); t.setDouble(p + "timestep", c.T); t.setDouble(p + "sineWaveAmplitude", c.A); t.setDouble(p + "sineWaveFrequency", c.f); t.setInt(p + "numLandmarks", c.nl);
  t.setDouble(p + "groundMinX", c.lo(0)); t.setDouble(p + "groundMinY", c.lo(1)); t.setDouble(p + "groundMaxX", c.hi(0)); t.setDouble(p + "groundMaxY", c.hi(1));
  t.setDouble(p + "motion/sigma2_x", c.q(0)); t.setDouble(p + "motion/sigma2_y", c.q(1)); t.setDouble(p + "motion/sigma2_t", c.q(2));
  t.setDouble(p + "observation/sigma2_r", c.r(0)); t.setDouble(p + "observation/sigma2_b", c.r(1));
  t.setDouble(p + "thetaTrue/x", c.theta(0)); t.setDouble(p + "thetaTrue/y", c.theta(1)); t.setDouble(p + "thetaTrue/t", c.theta(2));
  t.setDouble(p + "thetaHat/x", c.guess(0)); t.setDouble(p + "thetaHat/y", c.guess(1)); t.setDouble(p + "thetaHat/t", c.guess(2));
  t.setDouble(p + "x0/x", c.x0(0)); t.setDouble(p + "x0/y", c.x0(1)); t.setDouble(p + "x0/t", c.x0(2));
  t.setBool(e + "checkValidity", false); t.setDouble(e + "infoGainDelta", c.delta); t.setInt(e + "groupId", 2); t.setBool(e + "verbose", false); t.setInt(e + "batchSize", c.batch);
  t.setDouble(o + "convergenceDeltaJ", 1e-12); t.setDouble(o + "convergenceDeltaX", 1e-10); t.setInt(o + "maxIterations", c.iters); t.setBool(o + "verbose", false);
  t.setBool(l + "columnScaling", c.scaling); t.setDouble(l + "epsSVD", 1e-6);
}
static void describe(vpt::Src& s, const Conf& c) {
  s.note([&](std::ostream& o) { o << c.steps << " steps of " << c.T << ", " << c.nl << " landmarks in " << c.lo.transpose() << " to " << c.hi.transpose() << ", wave " << c.A << " " << c.f << ", batches of " << c.batch << "\nnoise " << c.q.transpose() << " | " << c.r.transpose() << "\ncalibration " << c.theta.transpose() << " from " << c.guess.transpose() << ", start " << c.x0.transpose() << (c.scaling ? ", scaled" : "") << ", gain " << c.delta << "\n"; });
}
static double mod(double a) { return std::remainder(a, 2 * M_PI); }
static bool near(double a, double b, double t) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static const double P = 2e-5;  // files are written with six digits

// what both programs write about the simulated vehicle; returns the nearest distance of the sensor to a landmark
static double simulated(const Conf& c, Rows& xt, Rows& xo, Rows& l) {
  xt = rows("x_true.txt"); xo = rows("x_odom.txt"); l = rows("l.txt");
  VEQ(xt.size(), (size_t)c.steps, "rows of x_true.txt"); VEQ(xo.size(), (size_t)c.steps, "rows of x_odom.txt"); VEQ(l.size(), (size_t)c.nl, "rows of l.txt");
  std::vector<V3> u; ac::genSineWavePath(u, c.steps, c.A, c.f, c.T);
  V3 x = c.x0; double err = 0, sum = 0;
  for (int i = 0; i < c.steps; ++i) {
    VEQ(xt[i].size(), 3u, "columns of x_true.txt"); VEQ(xo[i].size(), 3u, "columns of x_odom.txt");
    if (i) { x += c.T * V3(std::cos(x(2)) * u[i](0) - std::sin(x(2)) * u[i](1), std::sin(x(2)) * u[i](0) + std::cos(x(2)) * u[i](1), u[i](2)); }
    for (int k = 0; k < 2; ++k) VCHECK(near(xt[i][k], x(k), P), "true pose " << i << " is " << xt[i][0] << " " << xt[i][1] << " " << xt[i][2] << ", expected " << x.transpose());
    VCHECK(std::fabs(mod(xt[i][2] - x(2))) <= P * 4, "true heading " << i << " is " << xt[i][2] << ", expected " << x(2));
  }
  // odometry: the true inputs with the configured noise, integrated
  for (int i = 1; i < c.steps; ++i) {
    const double h = xo[i - 1][2], dx = (xo[i][0] - xo[i - 1][0]) / c.T, dy = (xo[i][1] - xo[i - 1][1]) / c.T;
    const V3 got(std::cos(h) * dx + std::sin(h) * dy, -std::sin(h) * dx + std::cos(h) * dy, mod(xo[i][2] - xo[i - 1][2]) / c.T);
    const double slack = 4 * P * (5 + std::fabs(xo[i][0]) + std::fabs(xo[i][1])) * (1 + std::fabs(u[i](0)) * c.T) / c.T;
    for (int k = 0; k < 3; ++k) VCHECK(std::fabs(got(k) - u[i](k)) <= 9 * std::sqrt(c.q(k)) + slack, "odometry input " << i << " is " << got.transpose() << ", the true one " << u[i].transpose());
    (void)err; (void)sum;
  }
  double close = 1e300;
  for (auto& p : l) {
    VEQ(p.size(), 2u, "columns of l.txt");
    for (int k = 0; k < 2; ++k) VCHECK(p[k] >= c.lo(k) - P * (1 + std::fabs(c.lo(k))) && p[k] <= c.hi(k) + P * (1 + std::fabs(c.hi(k))), "landmark at " << p[0] << " " << p[1] << " outside the ground");
    for (auto& q : xt) { const double a = std::cos(q[2]), b = std::sin(q[2]); close = std::min(close, std::hypot(p[0] - q[0] - a * c.theta(0) + b * c.theta(1), p[1] - q[1] - b * c.theta(0) - a * c.theta(1))); }
  }
  return close;
}
static V2 seen(const std::vector<double>& x, const std::vector<double>& l, const V3& th) {
  const double a = std::cos(x[2]), b = std::sin(x[2]), dx = l[0] - x[0] - a * th(0) + b * th(1), dy = l[1] - x[1] - b * th(0) - a * th(1);
  return V2(std::hypot(dx, dy), std::atan2(dy, dx) - x[2] - th(2));
}
// whether the written estimate explains the observations (of the true vehicle, with their noise): if not, it is another minimum
static bool explains(const Conf& c, const Rows& xt, const Rows& l, const Rows& xe, const Rows& le, const std::vector<double>& idx, const V3& th) {
  for (size_t i = 0; i < idx.size(); ++i) for (size_t j = 0; j < l.size(); ++j) {
    if (le[j].size() != 2 || xe[i].size() != 3) throw vpt::Fail{"columns of the estimates"};
    const V2 a = seen(xt[(size_t)idx[i]], l[j], c.theta), b = seen(xe[i], le[j], th);
    const double round = 1e-5 * (10 + std::fabs(xe[i][0]) + std::fabs(xe[i][1]) + std::fabs(le[j][0]) + std::fabs(le[j][1]));
    if (std::fabs(a(0) - b(0)) > 20 * std::sqrt(c.r(0)) + round || std::fabs(mod(a(1) - b(1))) > 20 * std::sqrt(c.r(1)) + round / std::min(1., a(0)) + 1e-4) return false;
  }
  return true;
}
// landmarks that are not all near a line or point
static bool spread(const Rows& l) {
  Eigen::MatrixXd m(2, l.size()); for (size_t i = 0; i < l.size(); ++i) m.col(i) = V2(l[i][0], l[i][1]);
  m.colwise() -= V2(m.rowwise().mean());
  return Eigen::JacobiSVD<Eigen::MatrixXd>(m).singularValues()(1) > 1.0;
}
static Eigen::MatrixXd matrix(const std::vector<double>& v, int r, int k) { VEQ(v.size(), (size_t)(r * k), "printed matrix"); Eigen::MatrixXd m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = v[i * k + j]; return m; }
static V3 vec(const std::vector<double>& v, const char* what) { VEQ(v.size(), 3u, what); return V3(v[0], v[1], v[2]); }
// the estimate is the truth within its own uncertainty (printed with six digits)
static void estimate(const Conf& c, const V3& est, const Eigen::MatrixXd& cov) {
  for (int k = 0; k < 3; ++k) VCHECK(cov(k, k) >= 0, "negative variance printed: " << cov);
  V3 d = est - c.theta; d(2) = mod(d(2));
  for (int k = 0; k < 3; ++k) VCHECK(std::fabs(d(k)) <= 9 * std::sqrt(cov(k, k)) + 3e-5 + 1e-5 * std::fabs(est(k)), "the calibration is estimated as " << est.transpose() << " with standard deviations " << cov.diagonal().cwiseSqrt().transpose() << ", is " << c.theta.transpose());
}

CLAUSE(offline, 1200, 20000, "the calibration is observable and the landmarks are away from the path") {
  const Conf c = draw(s, false); describe(s, c);
  Scratch dir; { sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); }
  const Result r = run(lrf_offline_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  s.note([&](std::ostream& o) { o << r.out; });
  Rows xt, xo, l; const double close = simulated(c, xt, xo, l);
  const Rows xe = rows("x_est.txt"), le = rows("l_est.txt"), lt = rows("l_est_trans.txt"), xr = rows("x_est_trans.txt");
  VEQ(xe.size(), xt.size(), "rows of x_est.txt"); VEQ(le.size(), l.size(), "rows of l_est.txt"); VEQ(lt.size(), l.size(), "rows of l_est_trans.txt"); VEQ(xr.size(), xt.size(), "rows of x_est_trans.txt");
  const V3 before = vec(last(r.out, "Calibration before: "), "calibration before"), after = vec(last(r.out, "Calibration after: "), "calibration after");
  for (int k = 0; k < 3; ++k) VCHECK(near(before(k), c.guess(k), P), "starts from " << before.transpose() << ", configured " << c.guess.transpose());
  const int rank = (int)last(r.out, "SVD rank: ").at(0), def = (int)last(r.out, "SVD rank deficiency: ").at(0);
  VEQ(rank + def, 3, "rank and deficiency of the calibration");
  const std::vector<double> sv = last(r.out, "Singular values: "), svs = last(r.out, "Singular values (scaled): ");
  VEQ(sv.size(), 3u, "singular values"); VEQ(svs.size(), 3u, "scaled singular values");
  const double tol = last(r.out, "SVD tolerance: ").at(0);
  int above = 0, edge = 0; for (double v : sv) { above += v > tol; edge += std::fabs(v - tol) <= 1e-4 * tol; }
  if (!edge) VEQ(above, rank, "singular values above the tolerance");
  if (c.scaling) { bool other = false; for (int k = 0; k < 3; ++k) other = other || std::fabs(sv[k] - svs[k]) > 1e-3 * sv[k]; VCHECK(other, "scaled and unscaled singular values are the same"); }
  if (rank == 3) {
    double sum = 0; for (double v : sv) sum += std::log2(v);
    VCHECK(std::fabs(last(r.out, "Log2sum of singular values: ").at(0) - sum) <= 1e-3, "Log2sum of singular values");
    const Eigen::MatrixXd cov = matrix(last(r.out, "Covariance: ", 3), 3, 3), obs = matrix(last(r.out, "Observable basis: ", 3), 3, 3), oc = matrix(last(r.out, "Observable covariance: ", 3), 3, 3);
    VCHECK((obs * obs.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() <= 1e-4, "the observable basis is not orthonormal");
    VCHECK((obs * oc * obs.transpose() - cov).cwiseAbs().maxCoeff() <= 1e-4 * cov.cwiseAbs().maxCoeff(), "observable covariance\n" << oc << "\nof\n" << cov);
    if (close < 0.7 || sv[2] < 1e-4 * sv[0] || svs[2] < 1e-4 * svs[0]) { s.label("landmark on the path, or nearly unobservable"); return; }
    std::vector<double> all; for (size_t i = 1; i < xt.size(); ++i) all.push_back(i);
    if (!c.exact && !explains(c, xt, l, Rows(xe.begin() + 1, xe.end()), le, all, after)) { s.label("another minimum"); return; }
    s.label(c.exact ? "from the truth" : "from a guess");
    estimate(c, after, cov);
    if (!spread(l)) return;
    // after alignment, landmarks and poses are the true ones
    const double noise = 500 * std::sqrt(std::max(c.q.maxCoeff(), c.r.maxCoeff()));
    if (noise < 1e-2) {
      for (size_t i = 0; i < l.size(); ++i) for (int k = 0; k < 2; ++k) VCHECK(near(lt[i].at(k), l[i][k], noise + 1e-3), "aligned landmark " << i << " is at " << lt[i][0] << " " << lt[i][1] << ", the true one at " << l[i][0] << " " << l[i][1]);
      for (size_t i = 0; i < xt.size(); ++i) for (int k = 0; k < 2; ++k) VCHECK(near(xr[i].at(k), xt[i][k], noise + 1e-3), "aligned pose " << i << " is at " << xr[i][0] << " " << xr[i][1] << ", the true one at " << xt[i][0] << " " << xt[i][1]);
    }
    for (size_t i = 0; i < xt.size(); ++i) VCHECK(near(xr[i].at(2), xe[i].at(2), P), "heading " << i);
    s.nontrivial();
  }
}

CLAUSE(online, 1000, 16000, "the calibration is observable, some batches are kept, and the landmarks are away from the path") {
  Conf c = draw(s, true); describe(s, c);
  Scratch dir; { sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); }
  const Result r = run(lrf_online_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  s.note([&](std::ostream& o) { o << r.out; });
  Rows xt, xo, l; const double close = simulated(c, xt, xo, l);
  const size_t offered = (size_t)((c.steps + c.batch - 1) / c.batch), kept = count(r.out, "ACCEPTED");
  VEQ(kept + count(r.out, "REJECTED"), offered, "batches processed");
  const std::string num = "number of batches: ";
  std::string said; for (auto& x : lines(r.out)) if (x.compare(0, num.size(), num) == 0) said = x.substr(num.size());
  VEQ(said, std::to_string(kept) + " out of " + std::to_string(offered), "batches reported");
  if (c.delta < -1) VEQ(kept, offered, "batches kept when every gain is enough");
  // a rejected batch leaves the calibration as it was, and each batch starts where the last one ended
  const auto bef = after(r.out, "calibration before batch: "), aft = after(r.out, "calibration after batch: "), gain = after(r.out, "information gain: ");
  VEQ(bef.size(), offered, "calibrations printed"); VEQ(aft.size(), offered, "calibrations printed"); VEQ(gain.size(), offered + 1, "gains printed");
  size_t at = 0, poses = 0, terms = 0; double lastGain = 0; std::vector<double> heads;
  const auto ls = lines(r.out);
  for (size_t i = 0; i < ls.size() && at < offered; ++i) if (ls[i] == "ACCEPTED" || ls[i] == "REJECTED") {
    const bool ok = ls[i] == "ACCEPTED";
    if (at) VCHECK(bef[at] == aft[at - 1], "calibration before batch " << at << " is not that after the one before");
    if (!ok) { VCHECK(aft[at] == bef[at], "a rejected batch changed the calibration"); if (gain[at][0] > c.delta * (1 + 1e-5) + 1e-5) { /* kept when the rank rose or the gain is enough */ VCHECK(false, "batch " << at << " with a gain of " << gain[at][0] << " was rejected"); } }
    const size_t n = std::min<size_t>(c.batch, c.steps - at * c.batch);
    if (ok) { poses += n; terms += (n - 1) * (1 + c.nl); lastGain = gain[at][0]; for (size_t k = 0; k < n; ++k) heads.push_back(n == 1 ? -1. : (double)(at * c.batch + k)); }  // a lone pose is tied to nothing
    ++at;
  }
  VCHECK(gain.back() == std::vector<double>{lastGain}, "information gain at the end");
  VEQ((size_t)last(r.out, "number of error terms: ").at(0), terms, "error terms");
  if (kept) VEQ((size_t)last(r.out, "number of design variables: ").at(0), poses + c.nl + 1, "design variables");
  const V3 fin = vec(last(r.out, "final calibration: "), "final calibration");
  VEQ((int)last(r.out, "marginalized group: ").at(0), 2, "marginalized group");
  if (!kept) { VCHECK((fin - c.guess).norm() <= P * 5, "the calibration moved without a batch"); return; }
  // the system written for inspection has the size it is said to have
  size_t cols = 0, rws = 0; for (auto& e : rows("J.txt")) { VEQ(e.size(), 3u, "entries of J.txt"); rws = std::max(rws, (size_t)e[1]); cols = std::max(cols, (size_t)e[0]); }
  const size_t dof = 3 * poses + 2 * c.nl + 3, eq = terms == 0 ? 0 : (terms / (1 + c.nl)) * (3 + 2 * c.nl);
  std::string size; for (auto& x : ls) if (x.compare(0, 20, "Jacobian matrix is: ") == 0) size = x.substr(20);
  VEQ(size, std::to_string(eq) + "x" + std::to_string(dof), "size of the Jacobian"); VCHECK(rws <= eq && cols <= dof && cols == dof, "J.txt holds entries up to " << rws << "x" << cols);
  const Rows xr = rows("x_est_trans.txt"), lt = rows("l_est_trans.txt");
  VEQ(xr.size(), poses, "rows of x_est_trans.txt"); VEQ(lt.size(), l.size(), "rows of l_est_trans.txt");
  const int rank = (int)last(r.out, "rank of Theta: ").at(0); VEQ(rank + (int)last(r.out, "rank deficiency of Theta: ").at(0), 3, "rank and deficiency");
  if (rank < 3 || close < 0.7) return;
  const Eigen::MatrixXd cov = matrix(last(r.out, "covariance: ", 3), 3, 3);
  Eigen::JacobiSVD<Eigen::MatrixXd> sv(cov); if (sv.singularValues()(2) < 1e-10 * sv.singularValues()(0)) return;
  const bool clear = sv.singularValues()(2) > 1e-4 * sv.singularValues()(0);
  const double noise = 500 * std::sqrt(std::max(c.q.maxCoeff(), c.r.maxCoeff()));
  if (clear) estimate(c, fin, cov);
  if (clear) s.label("estimate judged");
  if (noise < 1e-2) {
    // batches share the landmarks only: those kept are aligned with them
    if (spread(l)) {
      for (size_t i = 0; i < l.size(); ++i) for (int k = 0; k < 2; ++k) VCHECK(near(lt[i].at(k), l[i][k], noise + 1e-3), "aligned landmark " << i << " is at " << lt[i][0] << " " << lt[i][1] << ", the true one at " << l[i][0] << " " << l[i][1]);
      for (size_t i = 0; i < poses; ++i) for (int k = 0; k < 2; ++k) { if (heads[i] < 0) continue; const auto& q = xt[(size_t)heads[i]]; VCHECK(near(xr[i].at(k), q[k], noise + 1e-3), "aligned pose " << i << " is at " << xr[i][0] << " " << xr[i][1] << ", the true one at " << q[0] << " " << q[1]); }
    }
  }
  s.nontrivial(clear || noise < 1e-2);
}

// each noise is that configured for it: when they differ a lot, the estimate still is the truth within its uncertainty
CLAUSE(noise, 160, 3000, "the calibration is observable and no landmark is near the path") {
  const bool online = s.flip(); Conf c = draw(s, online);
  c.steps = 30 + (int)s.index(20); c.nl = 6; c.batch = c.steps; c.T = 0.5; c.A = s.real(2, 4); c.f = s.real(0.05, 0.15); c.x0 = V3(s.real(-3, 3), s.real(-3, 3), s.real(-0.2, 0.2)); c.lo = V2(s.real(0, 5), s.real(8, 12)); c.hi = c.lo + V2(s.real(15, 30), s.real(8, 20)); c.exact = false; c.delta = -1e18; c.guess = c.theta + 1e-4 * V3(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1));
  double* v[] = {&c.q(0), &c.q(1), &c.q(2), &c.r(0), &c.r(1)}; for (double* x : v) *x = 1e-10; const size_t big = s.index(5); *v[big] = big == 4 ? 1e-6 : big == 2 ? 1e-6 : 1e-4; describe(s, c);
  Scratch dir; { sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); }
  const Result r = run(online ? lrf_online_main : lrf_offline_main, {"conf.xml"}); VEQ(r.rc, 0, "exit status"); s.note([&](std::ostream& o) { o << r.out; });
  Rows xt, xo, l; if (simulated(c, xt, xo, l) < 3 || !spread(l)) throw vpt::Discard();
  if (big < 3) { // the odometry has it
    std::vector<V3> u; ac::genSineWavePath(u, c.steps, c.A, c.f, c.T); double most = 0;
    for (int i = 1; i < c.steps; ++i) { const double h = xo[i - 1][2], dx = (xo[i][0] - xo[i - 1][0]) / c.T, dy = (xo[i][1] - xo[i - 1][1]) / c.T; const V3 got(std::cos(h) * dx + std::sin(h) * dy, -std::sin(h) * dx + std::cos(h) * dy, mod(xo[i][2] - xo[i - 1][2]) / c.T); most = std::max(most, std::fabs(got((int)big) - u[i]((int)big))); }
    VCHECK(most > 0.3 * std::sqrt(*v[big]), "odometry with a standard deviation of " << std::sqrt(*v[big]) << " differs by at most " << most);
  }
  const std::vector<double> m = online ? last(r.out, "covariance: ", 3) : last(r.out, "Covariance: ", 3); const Eigen::MatrixXd cov = matrix(m, 3, 3);
  if ((int)last(r.out, online ? "rank of Theta: " : "SVD rank: ").at(0) < 3) return;
  const V3 fin = vec(last(r.out, online ? "final calibration: " : "Calibration after: "), "calibration"); V3 d = fin - c.theta; d(2) = mod(d(2));
  const V3 dev = cov.diagonal().cwiseSqrt(); if (dev.maxCoeff() > 0.3) return;
  estimate(c, fin, cov);
  bool off = false; for (int k = 0; k < 3; ++k) off = off || std::fabs(d(k)) > 1e-3 * dev(k);
  if (big >= 3 && dev.minCoeff() > 1e-2 * std::sqrt(*v[big])) VCHECK(off || dev.maxCoeff() < 1e-4, "the estimate is exact, although the observations have noise");
  s.nontrivial();
}

// without a single iteration of the optimizer, what is written is where it starts from: the odometry and the guess
CLAUSE(start, 200, 3000, "the odometry differs from the truth, and online there are several batches") {
  const bool online = s.flip(); Conf c = draw(s, online);
  c.iters = 0; c.delta = -1e18; c.q = V3(s.real(0.5, 2), s.real(0.5, 2), s.real(0.5, 2)) * 1e-3; c.exact = false; describe(s, c);
  Scratch dir; { sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); }
  const Result r = run(online ? lrf_online_main : lrf_offline_main, {"conf.xml"}); VEQ(r.rc, 0, "exit status"); s.note([&](std::ostream& o) { o << r.out; });
  Rows xt, xo, l; simulated(c, xt, xo, l);
  const Rows xr = rows("x_est_trans.txt"); VEQ(xr.size(), xo.size(), "rows of x_est_trans.txt");
  const V3 fin = vec(last(r.out, online ? "final calibration: " : "Calibration after: "), "calibration");
  for (int k = 0; k < 3; ++k) VCHECK(near(fin(k), c.guess(k), P), "the calibration moved from " << c.guess.transpose() << " to " << fin.transpose() << " without an iteration");
  if (!online) { const Rows xe = rows("x_est.txt"); VCHECK(xe == xo, "the first estimate of the path is not the odometry"); }
  double off = 0;
  for (size_t i = 0; i < xo.size(); ++i) {
    VEQ(xr[i].size(), 3u, "columns of x_est_trans.txt"); VCHECK(near(xr[i][2], xo[i][2], P), "heading " << i << " starts at " << xr[i][2] << ", odometry " << xo[i][2]);
    off = std::max(off, std::hypot(xo[i][0] - xt[i][0], xo[i][1] - xt[i][1]));
    const size_t j = (i * 7 + 3) % xo.size();  // the alignment keeps distances
    const double a = std::hypot(xr[i][0] - xr[j][0], xr[i][1] - xr[j][1]), b = std::hypot(xo[i][0] - xo[j][0], xo[i][1] - xo[j][1]);
    VCHECK(std::fabs(a - b) <= 4 * P * (1 + std::fabs(xr[i][0]) + std::fabs(xr[i][1]) + std::fabs(xr[j][0]) + std::fabs(xr[j][1]) + std::fabs(xo[i][0]) + std::fabs(xo[i][1]) + std::fabs(xo[j][0]) + std::fabs(xo[j][1])), "poses " << i << " and " << j << " start " << a << " apart, by the odometry " << b);
  }
  s.nontrivial(off > 1e-3 && (!online || c.batch < c.steps));
}

CLAUSE(shipped, 4, 12, "the configuration that comes with the example, shortened") {
  sm::BoostPropertyTree t; t.loadXml(shipped("incremental_calibration_examples/incremental_calibration_examples_2dlrf/conf/config.xml"));
  const bool online = s.flip();
  VCHECK(t.getInt("lrf/problem/steps") > 0 && t.getInt("lrf/estimator/batchSize") > 0, "steps and batches");
  t.setInt("lrf/problem/steps", 24); t.setInt("lrf/estimator/batchSize", 12);
  Scratch dir; t.saveXml("conf.xml");
  const Result r = run(online ? lrf_online_main : lrf_offline_main, {"conf.xml"});
  VEQ(r.rc, 0, "exit status");
  VCHECK(exists("x_true.txt") && exists("l_est_trans.txt"), "the results are not written");
  s.nontrivial();
}

CLAUSE(usage, 20, 100, "a call without its arguments, or with a missing file") {
  Scratch dir; const bool online = s.flip(); auto f = online ? lrf_online_main : lrf_offline_main;
  const size_t n = s.index(3);
  const std::vector<std::string> one(1, "none.xml");
  if (n == 1) VTHROWS(std::exception, run(f, one), "a configuration that is not there");
  else { const Result r = run(f, std::vector<std::string>(n, "conf.xml")); VCHECK(r.rc != 0 && r.out.find("Usage") != std::string::npos, "no usage: " << r.out); }
  s.nontrivial();
}
