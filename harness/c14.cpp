// C14: normal distributions report the quantities of their parameters
#include "stat.hpp"
#include <Eigen/Dense>
#include <tuple>
#include <sstream>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
namespace ac = aslam::calibration;
typedef ac::NormalDistribution<1> N1;

static void check1(const N1& d, double mu, double var, double x, const std::string& how) {
  VEQ(d.getMean(), mu, how);
  VEQ(d.getMedian(), mu, how);
  VEQ(d.getMode(), mu, how);
  VEQ(d.getVariance(), var, how);
  VCLOSE(d.getPrecision() * var, 1.0, 1e-13, 0, how << " precision");
  VCLOSE(d.getStandardDeviation(), std::sqrt(var), 1e-14, 0, how << " standard deviation");
  const st::L z = ((st::L)x - mu) / sqrtl(var), lp = -z * z / 2 - logl(2 * st::PI * (st::L)var) / 2;
  VCLOSE(d.getNormalizer(), (double)(logl(2 * st::PI * (st::L)var) / 2), 1e-12, 1e-13, how << " normalizer");
  VCLOSE(d.mahalanobisDistance(x), (double)(z * z), 1e-11, 1e-300, how << " mahalanobis at " << x);
  VCLOSE(d.logpdf(x), (double)lp, 1e-11, 1e-12, how << " logpdf at " << x);
  VCLOSE(d.pdf(x), (double)expl(lp), 1e-9, 1e-280, how << " pdf at " << x);
  VEQ(d(x), d.pdf(x), how << " as a function");
  VEQ(d.getValue(x), d.pdf(x), how << " as a function");
  VCLOSE(d.cdf(x), (double)(erfcl(-z / sqrtl(2)) / 2), 1e-10, 1e-14, how << " cdf at " << x);
}

static double drawVar(vpt::Src& s) { return s.chance(1, 4) ? (double)s.range(1, 9) : s.logReal(1e-8, 1e8); }

CLAUSE(univariate, 6000, 200000, "the variance is not 1 and the argument is not the mean") {
  double mu = s.any(1e3), var = drawVar(s);
  double x = mu + std::sqrt(var) * s.any(6);
  s.note([&](std::ostream& o) { o << "mean " << mu << " variance " << var << " at " << x; });
  s.nontrivial(var != 1 && x != mu);
  N1 d(mu, var);
  check1(d, mu, var, x, "constructed");
  check1(N1(std::make_tuple(mu, var)), mu, var, x, "from a tuple");
  N1 c(d);
  check1(c, mu, var, x, "copy");
  N1 e;
  check1(e, 0, 1, s.any(6), "default");
  e = d;
  check1(e, mu, var, x, "assigned");
  e = *&e;
  // symmetry and complement
  VCLOSE(d.cdf(mu + (mu - x)) , 1 - d.cdf(x), 1e-8, 1e-8, "cdf is symmetric about the mean");
  VCLOSE(d.cdf(mu), 0.5, 1e-12, 0, "half the mass lies below the mean");
  // KL divergence
  double mu2 = mu + std::sqrt(var) * s.any(5), var2 = s.chance(1, 6) ? var : var * s.logReal(1e-3, 1e3);
  N1 f(mu2, var2);
  const st::L kl = (logl((st::L)var2 / var) + (st::L)var / var2 - 1 + ((st::L)mu - mu2) * ((st::L)mu - mu2) / var2) / 2;
  VCLOSE(d.KLDivergence(f), (double)kl, 1e-8, 1e-9, "KL divergence to mean " << mu2 << " variance " << var2);
  VCHECK(d.KLDivergence(f) >= -1e-12, "KL divergence is not negative");
  VCLOSE(d.KLDivergence(d), 0.0, 0, 1e-12, "KL divergence to itself");
  // setters; a refused variance changes nothing
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    switch (s.choice(3)) {
      case 0: mu = s.any(1e3); d.setMean(mu); break;
      case 1: var = drawVar(s); d.setVariance(var); break;
      default: {
        const double bad = s.flip() ? 0.0 : s.chance(1, 8) ? std::numeric_limits<double>::quiet_NaN() : -s.logReal(1e-12, 1e6);
        s.label("refused variance");
        VTHROWS(ac::BadArgumentException<double>, d.setVariance(bad), "variance " << bad);
        VTHROWS(ac::BadArgumentException<double>, N1(mu, bad), "variance " << bad);
        VTHROWS(ac::BadArgumentException<double>, N1(std::make_tuple(mu, bad)), "variance " << bad);
      }
    }
    x = mu + std::sqrt(var) * s.any(6);
    check1(d, mu, var, x, "after setters");
  }
  check1(c, c.getMean(), c.getVariance(), x, "the copy");
  std::ostringstream o;
  o << d;
  VCHECK(!o.str().empty(), "streams something");
}

// ---------------------------------------------------------------- multivariate
template <int M> struct Mv {
  typedef ac::NormalDistribution<M> N;
  typedef Eigen::Matrix<double, M, 1> V;
  typedef Eigen::Matrix<double, M, M> C;
  // positive definite with bounded condition number
  static C cov(vpt::Src& s, int n, double& cond) {
    Eigen::MatrixXd a(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = s.real(-1, 1);
    Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(a + 2 * Eigen::MatrixXd::Identity(n, n)).householderQ();
    Eigen::VectorXd e(n);
    const double scale = s.logReal(1e-4, 1e4);
    for (int i = 0; i < n; ++i) e(i) = s.logReal(1, 1e3);
    cond = e.maxCoeff() / e.minCoeff();
    Eigen::MatrixXd r;
    if (s.chance(1, 5)) r = (e * scale).asDiagonal();
    else r = q * (e * scale).asDiagonal() * q.transpose();
    r = (0.5 * (r + r.transpose())).eval();
    C c = r;
    return c;
  }
  static V point(vpt::Src& s, int n, double m) { V v(n); for (int i = 0; i < n; ++i) v(i) = s.any(m); return v; }
  static void check(const N& d, const V& mu, const C& c, const V& x, double cond, const std::string& how) {
    const int n = (int)mu.size();
    VCHECK(d.getMean() == mu, how << " mean");
    VCHECK(d.getMode() == mu, how << " mode");
    VCHECK(d.getCovariance() == c, how << " covariance");
    std::vector<std::vector<st::L> > l;
    if (!st::chol(c, l)) throw vpt::Discard();
    const double tol = 1e-13 * cond * n + 1e-12;
    VCLOSE((d.getPrecision() * c - C::Identity(n, n)).cwiseAbs().maxCoeff(), 0.0, 0, tol * 10, how << " precision is the inverse of the covariance");
    st::L ld = 0;
    for (int i = 0; i < n; ++i) ld += 2 * logl(l[i][i]);
    VCLOSE(std::log(d.getDeterminant()), (double)ld, tol, tol * 100, how << " determinant");
    const double nz = (double)((n * logl(2 * st::PI) + ld) / 2);
    VCLOSE(d.getNormalizer(), nz, tol, tol * 100, how << " normalizer");
    C lm = d.getTransformation().matrixL();
    VCLOSE((lm * lm.transpose() - c).cwiseAbs().maxCoeff() / c.cwiseAbs().maxCoeff(), 0.0, 0, 1e-12, how << " transformation is a square root of the covariance");
    std::vector<st::L> b(n);
    for (int i = 0; i < n; ++i) b[i] = (st::L)x(i) - mu(i);
    const std::vector<st::L> y = st::solveLower(l, b);
    st::L m = 0;
    for (int i = 0; i < n; ++i) m += y[i] * y[i];
    VCLOSE(d.mahalanobisDistance(x), (double)m, tol * 100, 1e-300, how << " mahalanobis at " << x.transpose());
    VCLOSE(d.logpdf(x), (double)(-m / 2) - nz, tol * 100, tol * 100, how << " logpdf at " << x.transpose());
    VCLOSE(d.pdf(x), std::exp((double)(-m / 2) - nz), tol * 1e3 * (1 + (double)m), 1e-290, how << " pdf at " << x.transpose());
    VEQ(d(x), d.pdf(x), how << " as a function");
  }
  static void run(vpt::Src& s, int n) {
    double cond, cond2;
    V mu = point(s, n, 1e2);
    C c = cov(s, n, cond);
    const double sc = std::sqrt(c.diagonal().maxCoeff());
    V x = mu + sc * point(s, n, 3);
    s.note([&](std::ostream& o) { o << "mean " << mu.transpose() << " covariance\n" << c << "\nat " << x.transpose(); });
    s.nontrivial(!c.isDiagonal(1e-9));
    N d(mu, c);
    check(d, mu, c, x, cond, "constructed");
    check(N(std::make_tuple(mu, c)), mu, c, x, cond, "from a tuple");
    N cp(d);
    check(cp, mu, c, x, cond, "copy");
    V mu2 = mu + sc * point(s, n, 2);
    C c2 = cov(s, n, cond2);
    N e(mu2, c2);
    // KL divergence against the closed form in long double
    {
      std::vector<std::vector<st::L> > l1, l2;
      if (!st::chol(c, l1) || !st::chol(c2, l2)) throw vpt::Discard();
      st::L kl = -n, tr = 0;
      for (int j = 0; j < n; ++j) {
        std::vector<st::L> col(n);
        for (int i = 0; i < n; ++i) col[i] = l1[i][j];
        for (st::L v : st::solveLower(l2, col)) tr += v * v;
        kl += 2 * (logl(l2[j][j]) - logl(l1[j][j]));
      }
      std::vector<st::L> b(n);
      for (int i = 0; i < n; ++i) b[i] = (st::L)mu(i) - mu2(i);
      for (st::L v : st::solveLower(l2, b)) kl += v * v;
      kl = (kl + tr) / 2;
      VCLOSE(d.KLDivergence(e), (double)kl, 1e-7, 1e-8, "KL divergence");
      VCLOSE(d.KLDivergence(d), 0.0, 0, 1e-8, "KL divergence to itself");
    }
    e = d;
    check(e, mu, c, x, cond, "assigned");
    e = *&e;
    check(e, mu, c, x, cond, "assigned to itself");
    int k = (int)s.range(1, 5);
    for (int i = 0; i < k; ++i) {
      switch (s.choice(3)) {
        case 0: mu = point(s, n, 1e2); d.setMean(mu); break;
        case 1: c = cov(s, n, cond); d.setCovariance(c); break;
        default: {
          C bad = cov(s, n, cond2);
          std::string what;
          switch (s.choice(n > 1 ? 4 : 2)) {
            case 0: bad = -bad; what = "negative definite"; break;
            case 1: { bad.setZero(n, n); if (s.flip() && n > 1) { V v = point(s, n, 4); for (int q = 0; q < n; ++q) v(q) = std::round(v(q)); bad = v * v.transpose(); } what = "singular"; } break;
            case 2: { const int r = (int)s.index(n); int q = (r + 1) % n; bad(r, q) += bad.cwiseAbs().maxCoeff() * s.logReal(1e-6, 1); what = "not symmetric"; if (bad == bad.transpose()) throw vpt::Discard(); } break;
            default: { const int r = (int)s.index(n); bad(r, r) = -bad(r, r); what = "negative variance"; }
          }
          s.label("refused: " + what);
          s.note([&](std::ostream& o) { o << "\n" << what << "\n" << bad; });
          VTHROWS(ac::BadArgumentException<C>, d.setCovariance(bad), what);
          VTHROWS(ac::BadArgumentException<C>, N(mu, bad), what);
        }
      }
      V y = mu + std::sqrt(c.diagonal().maxCoeff()) * point(s, n, 3);
      check(d, mu, c, y, cond, "after setters");
    }
    std::ostringstream o;
    o << d;
    VCHECK(!o.str().empty(), "streams something");
  }
};

CLAUSE(multivariate2, 1500, 60000, "the covariance is not diagonal") { Mv<2>::run(s, 2); }
CLAUSE(multivariate3, 1500, 60000, "the covariance is not diagonal") { Mv<3>::run(s, 3); }
CLAUSE(multivariate5, 700, 30000, "the covariance is not diagonal") { Mv<5>::run(s, 5); }
CLAUSE(dynamic, 1500, 60000, "the covariance is not diagonal") { Mv<Eigen::Dynamic>::run(s, (int)s.range(1, 6)); }

// samples follow the distribution (thresholds beyond six standard errors)
CLAUSE(samples1, 40, 600, "always") {
  ac::Randomizer<double> r(1);
  r.setSeed((double)s.range(1, 2000000000));
  const double mu = s.any(50), var = s.logReal(1e-3, 1e3);
  s.note([&](std::ostream& o) { o << "mean " << mu << " variance " << var; });
  s.nontrivial();
  N1 d(mu, var);
  const size_t n = 4000;
  std::vector<double> x;
  d.getSamples(x, n);
  VEQ(x.size(), n, "number of samples");
  double D = st::ksStat(x, [&](double v) { return 0.5 * std::erfc(-(v - mu) / std::sqrt(2 * var)); });
  VCHECK(st::ksTail(std::sqrt((double)n) * D) > 1e-10, "Kolmogorov-Smirnov distance " << D << " of " << n << " samples");
}
template <int M> static void sampleMv(vpt::Src& s, int n) {
  typedef Mv<M> T;
  ac::Randomizer<double> r(1);
  r.setSeed((double)s.range(1, 2000000000));
  double cond;
  typename T::V mu = T::point(s, n, 20);
  typename T::C c = T::cov(s, n, cond);
  typename T::N d(T::V::Zero(n), T::C::Identity(n, n));
  d.setCovariance(c);
  d.setMean(mu);
  s.note([&](std::ostream& o) { o << "mean " << mu.transpose() << " covariance\n" << c; });
  s.nontrivial(!c.isDiagonal(1e-9));
  const size_t N = 2500;
  std::vector<typename T::V> x;
  d.getSamples(x, N);
  VEQ(x.size(), N, "number of samples");
  std::vector<std::vector<st::L> > l;
  if (!st::chol(c, l)) throw vpt::Discard();
  // whitened samples are independent standard normals in every coordinate
  std::vector<std::vector<double> > w(n, std::vector<double>(N));
  for (size_t k = 0; k < N; ++k) {
    std::vector<st::L> b(n);
    for (int i = 0; i < n; ++i) b[i] = (st::L)x[k](i) - mu(i);
    b = st::solveLower(l, b);
    for (int i = 0; i < n; ++i) w[i][k] = (double)b[i];
  }
  for (int i = 0; i < n; ++i) {
    double D = st::ksStat(w[i], [&](double v) { return 0.5 * std::erfc(-v / std::sqrt(2.0)); });
    VCHECK(st::ksTail(std::sqrt((double)N) * D) > 1e-10, "whitened coordinate " << i << ": Kolmogorov-Smirnov distance " << D);
    for (int j = 0; j < i; ++j) {
      double cr = 0;
      for (size_t k = 0; k < N; ++k) cr += w[i][k] * w[j][k];
      VCHECK(std::fabs(cr) < 7 * std::sqrt((double)N), "whitened coordinates " << i << " and " << j << " are correlated: " << cr / N);
    }
  }
}
CLAUSE(samplesMv, 40, 500, "the covariance is not diagonal") { if (s.flip()) sampleMv<3>(s, 3); else sampleMv<Eigen::Dynamic>(s, (int)s.range(1, 5)); }
