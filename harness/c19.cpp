// C19: maximum-likelihood estimators of normal distributions
#include "stat.hpp"
#include <Eigen/Dense>
#include <sstream>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
namespace ac = aslam::calibration;

// dimension-generic access: D = 1 uses the univariate estimator
template <int D> struct Tr {
  typedef ac::NormalDistribution<D> N;
  typedef Eigen::Matrix<double, D, 1> P;
  static Eigen::VectorXd vec(const P& p) { return p; }
  static P mk(const Eigen::VectorXd& v) { return v; }
  static Eigen::VectorXd mean(const N& n) { return n.getMean(); }
  static Eigen::MatrixXd cov(const N& n) { return n.getCovariance(); }
};
template <> struct Tr<1> {
  typedef ac::NormalDistribution<1> N;
  typedef double P;
  static Eigen::VectorXd vec(double p) { return Eigen::VectorXd::Constant(1, p); }
  static double mk(const Eigen::VectorXd& v) { return v(0); }
  static Eigen::VectorXd mean(const N& n) { return Eigen::VectorXd::Constant(1, n.getMean()); }
  static Eigen::MatrixXd cov(const N& n) { return Eigen::MatrixXd::Constant(1, 1, n.getVariance()); }
};

typedef std::vector<Eigen::VectorXd> Pts;
struct Ref { Eigen::VectorXd mean; Eigen::MatrixXd cov; double minEig, big; };
static Ref ml(const Pts& x, const std::vector<double>& w) {
  const int d = (int)x[0].size();
  std::vector<st::L> m(d, 0);
  st::L sw = 0;
  Ref r;
  r.big = 0;
  for (size_t k = 0; k < x.size(); ++k) { sw += w[k]; for (int i = 0; i < d; ++i) { m[i] += w[k] * (st::L)x[k](i); r.big = std::max(r.big, std::fabs(x[k](i))); } }
  r.mean.resize(d);
  r.cov.resize(d, d);
  for (int i = 0; i < d; ++i) { m[i] /= sw; r.mean(i) = (double)m[i]; }
  for (int i = 0; i < d; ++i)
    for (int j = 0; j < d; ++j) {
      st::L c = 0;
      for (size_t k = 0; k < x.size(); ++k) c += w[k] * ((st::L)x[k](i) - m[i]) * ((st::L)x[k](j) - m[j]);
      r.cov(i, j) = (double)(c / sw);
    }
  r.minEig = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(r.cov).eigenvalues()(0);
  return r;
}

template <int D> static void history(vpt::Src& s, int d) {
  typedef Tr<D> T;
  typedef ac::EstimatorML<typename T::N> E;
  E e;
  Pts pts;              // points since the last reset
  Ref cur;              // the estimate expected now
  bool have = false;    // whether one is expected
  bool exactFlat = false;
  const double offset = s.chance(1, 3) ? 0 : s.any(50), spread = s.logReal(1e-1, 1e2);
  auto draw = [&](bool integral) {
    Eigen::VectorXd v(d);
    for (int i = 0; i < d; ++i) v(i) = integral ? (double)s.range(-4, 4) : offset + spread * s.real(-1, 1);
    return v;
  };
  auto tolOf = [&](const Ref& r, size_t n) { return 1e-14 * (10 + n) * (r.big * r.big + 1e-300); };
  auto verify = [&](const E& x, const std::string& how) {
    VEQ(x.getNumPoints(), pts.size(), how << " number of points");
    if (!have) { VCHECK(!x.getValid(), how << ": valid without an estimate"); return; }
    const double tol = tolOf(cur, pts.size());
    if (cur.minEig > 1e3 * tol && cur.minEig > 1e-9 * cur.cov.diagonal().maxCoeff()) VCHECK(x.getValid(), how << ": not valid although the points have the covariance\n" << cur.cov);
    if (exactFlat) VCHECK(!x.getValid(), how << ": valid although all points coincide or lie on a line");
    if (x.getValid() && cur.minEig > 1e3 * tol && cur.minEig > 1e-9 * cur.cov.diagonal().maxCoeff()) {
      const Eigen::VectorXd m = T::mean(x.getDistribution());
      const Eigen::MatrixXd c = T::cov(x.getDistribution());
      VCHECK(m.size() == d && c.rows() == d && c.cols() == d, how << " dimensions");
      for (int i = 0; i < d; ++i) {
        VCLOSE(m(i), cur.mean(i), 1e-12, 1e-13 * (1 + cur.big), how << " mean " << i << " of " << pts.size() << " points");
        for (int j = 0; j < d; ++j) VCLOSE(c(i, j), cur.cov(i, j), 1e-11, 10 * tol, how << " covariance " << i << "," << j << " of " << pts.size() << " points");
      }
    }
  };
  VCHECK(!e.getValid(), "a new estimator is not valid");
  VEQ(e.getNumPoints(), (size_t)0, "a new estimator has no points");
  const int nOps = (int)s.range(1, 8);
  bool weighted = false, wasReset = false;
  for (int op = 0; op < nOps; ++op) {
    std::string what;
    switch (s.choice(8)) {
      case 0: case 1: {
        // one point at a time
        const bool integral = s.flip();
        const int k = (int)s.range(1, 5);
        for (int i = 0; i < k; ++i) {
          Eigen::VectorXd v = (!pts.empty() && s.chance(1, 4)) ? pts.back() : draw(integral);
          pts.push_back(v);
          e.addPoint(T::mk(v));
          have = true;
          cur = ml(pts, std::vector<double>(pts.size(), 1.0));
          exactFlat = false;
          // exact arithmetic: coinciding integer points; for two points in several dimensions a line
          bool same = true, ints = true;
          for (auto& q : pts) { same = same && q == pts[0]; for (int a = 0; a < d; ++a) ints = ints && q(a) == std::round(q(a)); }
          if (ints && same) exactFlat = true;
          if (ints && d > 1 && pts.size() == 2 && ((pts[0] - pts[1]).array() / 2 == ((pts[0] - pts[1]).array() / 2).round()).all()) exactFlat = true;
          verify(e, "after a point");
        }
        what = "points one by one";
      } break;
      case 2: case 3: {
        const int k = (int)s.range(0, 12);
        typename E::Container c;
        for (int i = 0; i < k; ++i) { Eigen::VectorXd v = draw(false); pts.push_back(v); c.push_back(T::mk(v)); }
        if (s.flip()) e.addPoints(c); else e.addPoints(c.begin(), c.end());
        if (k) { have = true; exactFlat = false; cur = ml(pts, std::vector<double>(pts.size(), 1.0)); }
        what = "a container of points";
      } break;
      case 4: case 5: {
        // weighted points replace the estimate and are not counted
        const int k = (int)s.range(1, 12);
        typename E::Container c;
        Pts x;
        Eigen::VectorXd w(k);
        std::vector<double> ww(k);
        for (int i = 0; i < k; ++i) { x.push_back(draw(false)); c.push_back(T::mk(x.back())); w(i) = ww[i] = s.chance(1, 6) ? 0 : s.flip() ? s.real(0, 1) : (double)s.range(1, 3); }
        if (s.chance(1, 12)) { w.setZero(); s.label("weights without mass"); }
        else if (!(w.sum() > 1e-3)) { w(0) = ww[0] = 1; }
        e.addPoints(c.begin(), c.end(), w);
        weighted = true; exactFlat = false;
        have = w.sum() > 0;
        if (have) cur = ml(x, ww);
        what = "weighted points";
      } break;
      case 6: {
        // as many weights as points, or nothing happens
        const int k = (int)s.range(1, 6);
        typename E::Container c;
        for (int i = 0; i < k; ++i) c.push_back(T::mk(draw(false)));
        int m = (int)s.range(0, 7);
        if (m == k) m = k + 1;
        e.addPoints(c.begin(), c.end(), Eigen::VectorXd::Constant(m, 0.5));
        what = "a number of weights that differs";
        s.label("weights refused");
      } break;
      default:
        e.reset();
        pts.clear();
        have = false; exactFlat = false; wasReset = true;
        what = "reset";
    }
    s.note([&](std::ostream& o) { o << what << "; "; });
    verify(e, "after " + what);
    if (s.chance(1, 4)) {
      // copies go their own way
      E c(e), a;
      a = c;
      verify(c, "copy after " + what);
      verify(a, "assigned after " + what);
      c.addPoint(T::mk(draw(false)));
      a.reset();
      VCHECK(!a.getValid() && a.getNumPoints() == 0, "reset copy");
      verify(e, "original after its copies changed");
    }
  }
  s.nontrivial(pts.size() > 2 && (weighted || wasReset));
  std::ostringstream o;
  o << e;
  VCHECK(o.str().find("number of points") != std::string::npos, "streams its state");
}
CLAUSE(univariate, 4000, 120000, "more than two points, and weights or a reset") { history<1>(s, 1); }
CLAUSE(bivariate, 2000, 60000, "more than two points, and weights or a reset") { history<2>(s, 2); }
CLAUSE(trivariate, 2000, 60000, "more than two points, and weights or a reset") { history<3>(s, 3); }

// the estimate maximises the likelihood: no perturbed distribution explains the points better
template <int D> static void optimum(vpt::Src& s, int d) {
  typedef Tr<D> T;
  ac::EstimatorML<typename T::N> e;
  Pts x;
  const int n = (int)s.range(d + 2, 20);
  const bool w = s.flip();
  typename ac::EstimatorML<typename T::N>::Container c;
  Eigen::VectorXd r(n);
  for (int i = 0; i < n; ++i) { Eigen::VectorXd v(d); for (int k = 0; k < d; ++k) v(k) = s.real(-3, 3); x.push_back(v); c.push_back(T::mk(v)); r(i) = w ? s.real(0.05, 1) : 1; }
  if (w) e.addPoints(c.begin(), c.end(), r); else e.addPoints(c);
  if (ml(x, std::vector<double>(r.data(), r.data() + n)).minEig < 1e-3) throw vpt::Discard();
  VCHECK(e.getValid(), "valid");
  auto ll = [&](const Eigen::VectorXd& m, const Eigen::MatrixXd& cv) {
    Eigen::LLT<Eigen::MatrixXd> l(cv);
    if (l.info() != Eigen::Success) return -1e300;
    double q = 0, ld = 0;
    for (int k = 0; k < d; ++k) ld += 2 * std::log(l.matrixLLT()(k, k));
    for (int i = 0; i < n; ++i) q -= 0.5 * r(i) * ((x[i] - m).dot(l.solve(x[i] - m)) + ld);
    return q;
  };
  const Eigen::VectorXd m = T::mean(e.getDistribution());
  const Eigen::MatrixXd cv = T::cov(e.getDistribution());
  const double best = ll(m, cv);
  for (int t = 0; t < 6; ++t) {
    Eigen::VectorXd m2 = m;
    Eigen::MatrixXd c2 = cv;
    const double h = s.logReal(1e-4, 0.3);
    for (int k = 0; k < d; ++k) { m2(k) += h * s.real(-1, 1); for (int j = 0; j <= k; ++j) { const double v = h * cv.norm() * s.real(-1, 1); c2(k, j) += v; if (j != k) c2(j, k) += v; } }
    VCHECK(ll(m2, c2) <= best + 1e-9 * (1 + std::fabs(best)), "a distribution at distance " << h << " has a larger likelihood");
  }
  s.nontrivial(w);
}
CLAUSE(likelihood, 3000, 80000, "the points are weighted") { switch (s.choice(3)) { case 0: optimum<1>(s, 1); break; case 1: optimum<2>(s, 2); break; default: optimum<3>(s, 3); } }

// many points, some far from the origin; together, in pieces or one by one
template <int D> static void many(vpt::Src& s, int d) {
  typedef Tr<D> T;
  typedef ac::EstimatorML<typename T::N> E;
  const size_t n = 300 + s.index(4000), how = s.index(3);
  uint64_t x = s.choice(0);
  const double offset = s.any(20), spread = s.logReal(0.1, 50);
  s.desc() << n << " points around " << offset << " spread " << spread << " given " << (how == 0 ? "one by one" : how == 1 ? "together" : "in pieces") << "\n";
  Pts pts;
  typename E::Container c;
  for (size_t k = 0; k < n; ++k) {
    Eigen::VectorXd v(d);
    for (int i = 0; i < d; ++i) v(i) = offset + spread * (2 * ((vpt::splitmix(x) >> 11) / 9007199254740992.0) - 1) + (i ? 0.5 * v(i - 1) : 0);
    pts.push_back(v);
    c.push_back(T::mk(v));
  }
  E e;
  if (how == 0) for (auto& p : c) e.addPoint(p);
  else if (how == 1) e.addPoints(c);
  else for (size_t a = 0; a < n;) { size_t b = std::min(n, a + 1 + (size_t)(vpt::splitmix(x) % 700)); e.addPoints(c.begin() + a, c.begin() + b); a = b; }
  VEQ(e.getNumPoints(), n, "number of points");
  VCHECK(e.getValid(), "not valid");
  const Ref r = ml(pts, std::vector<double>(n, 1.0));
  const Eigen::VectorXd m = T::mean(e.getDistribution());
  const Eigen::MatrixXd q = T::cov(e.getDistribution());
  for (int i = 0; i < d; ++i) {
    VCLOSE(m(i), r.mean(i), 1e-11, 1e-11 * (1 + r.big), "mean " << i << " of " << n << " points");
    for (int j = 0; j < d; ++j) VCLOSE(q(i, j), r.cov(i, j), 1e-8, 1e-12 * n * (r.big * r.big), "covariance " << i << "," << j << " of " << n << " points");
  }
  s.nontrivial(n > 1024);
}
CLAUSE(large, 120, 3000, "more than 1024 points") { switch (s.choice(3)) { case 0: many<1>(s, 1); break; case 1: many<2>(s, 2); break; default: many<3>(s, 3); } }
