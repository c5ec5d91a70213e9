// C15: gamma and chi-square distributions report the quantities of their parameters
#include "stat.hpp"
#include <sstream>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
namespace ac = aslam::calibration;
typedef ac::GammaDistribution<> G;

template <typename D> static void common(const D& d, double k, double b, double x, const std::string& how) {
  VCLOSE(d.getMean(), k / b, 1e-13, 0, how << " mean");
  VCLOSE(d.getVariance(), k / b / b, 1e-13, 0, how << " variance");
  if (k >= 1) { VCLOSE(d.getMode(), (k - 1) / b, 1e-13, 1e-300, how << " mode"); }
  else VTHROWS(ac::InvalidOperationException, d.getMode(), how << " shape " << k);
  const st::L nz = lgammal(k) - (st::L)k * logl(b);
  const double tn = 1e-12 * (1 + std::fabs(std::lgamma(k)) + k * std::fabs(std::log(b)));
  VCLOSE(d.getNormalizer(), (double)nz, 1e-12, tn, how << " normalizer");
  if (x > 0) {
    const st::L a1 = ((st::L)k - 1) * logl(x), a2 = (st::L)x * b, lp = a1 - a2 - nz;
    const double tol = 1e-12 * (double)(fabsl(a1) + fabsl(a2)) + tn;
    VCLOSE(d.logpdf(x), (double)lp, 1e-12, tol, how << " logpdf at " << x);
    VCLOSE(d.pdf(x), (double)expl(lp), 10 * tol + 1e-11, 1e-290, how << " pdf at " << x);
    VEQ(d(x), d.pdf(x), how << " as a function");
    VCLOSE(d.cdf(x), (double)st::gammaP(k, (st::L)x * b), 1e-9, 1e-12, how << " cdf at " << x);
  }
  // outside the support
  const double neg = -std::fabs(x) - 1e-3;
  VEQ(d.pdf(neg), 0.0, how << " density below the support");
  VCHECK(d.logpdf(neg) == -std::numeric_limits<double>::infinity(), how << " log-density below the support is " << d.logpdf(neg));
  VEQ(d.cdf(neg), 0.0, how << " mass below the support");
  VEQ(d.cdf(0.0), 0.0, how << " mass at the end of the support");
  if (k == 1) { VCLOSE(d.pdf(0.0), b, 1e-12, 0, how << " density of an exponential at 0"); }
  else if (k > 1) VEQ(d.pdf(0.0), 0.0, how << " density at 0");
}
template <typename D> static void inverse(vpt::Src& s, const D& d, double k, double b, const std::string& how) {
  double p = s.chance(1, 4) ? s.logReal(1e-6, 1e-2) : s.real(0.001, 0.999);
  if (k < 0.05) return;
  double x = d.invcdf(p);
  VCHECK(x >= 0, how << " quantile " << x);
  if (x > 1e-280) VCLOSE((double)st::gammaP(k, (st::L)x * b), p, 1e-7, 1e-9, how << " quantile of " << p << " is " << x);
  VCHECK(d.invcdf(0.0) == 0.0, how << " quantile of 0");
  const double bad = s.flip() ? -s.logReal(1e-9, 1e3) : 1 + s.logReal(1e-9, 1e3);
  VTHROWS(ac::BadArgumentException<double>, d.invcdf(bad), "probability " << bad);
}
static st::L kl(st::L k1, st::L b1, st::L k2, st::L b2) {
  return (k1 - k2) * st::digamma(k1) - lgammal(k1) + lgammal(k2) + k2 * (logl(b1) - logl(b2)) + k1 * (b2 - b1) / b1;
}
static double drawShape(vpt::Src& s) { return s.chance(1, 3) ? (double)s.range(1, 12) : s.chance(1, 2) ? 0.5 * (double)s.range(1, 60) : s.logReal(0.05, 200); }
static double drawScale(vpt::Src& s) { return s.chance(1, 3) ? (double)s.range(1, 5) : s.logReal(1e-3, 1e3); }
static double drawX(vpt::Src& s, double k, double b) { return s.chance(1, 3) ? s.logReal(1e-6, 1e3) : std::max(1e-12, (k + std::sqrt(k) * s.real(-3, 6))) / b; }

CLAUSE(gamma, 5000, 150000, "neither parameter is 1") {
  double k = drawShape(s), b = drawScale(s), x = drawX(s, k, b);
  s.note([&](std::ostream& o) { o << "shape " << k << " inverse scale " << b << " at " << x; });
  s.nontrivial(k != 1 && b != 1);
  G d(k, b);
  VEQ(d.getShape(), k, "shape");
  VEQ(d.getInvScale(), b, "inverse scale");
  common(d, k, b, x, "constructed");
  inverse(s, d, k, b, "constructed");
  G c(d), e;
  common(e, 1, 1, x, "default");
  e = d;
  common(c, k, b, x, "copy");
  common(e, k, b, x, "assigned");
  double k2 = drawShape(s), b2 = drawScale(s);
  G f(k2, b2);
  const st::L ref = kl(k, b, k2, b2);
  const double mag = k + k2 + std::fabs(std::lgamma(k)) + std::fabs(std::lgamma(k2)) + k2 * std::fabs(std::log(b / b2)) + k * b2 / b + std::fabs(k - k2) * std::fabs((double)st::digamma(k));
  VCLOSE(d.KLDivergence(f), (double)ref, 1e-9, 1e-10 * mag, "KL divergence to shape " << k2 << " inverse scale " << b2);
  VCLOSE(d.KLDivergence(d), 0.0, 0, 1e-10 * (1 + k * (1 + std::fabs(std::log(b))) + std::fabs(std::lgamma(k))), "KL divergence to itself");
  int n = (int)s.range(1, 5);
  for (int i = 0; i < n; ++i) {
    switch (s.choice(3)) {
      case 0: k = drawShape(s); d.setShape(k); break;
      case 1: b = drawScale(s); d.setInvScale(b); break;
      default: {
        const double bad = s.flip() ? 0.0 : -s.logReal(1e-9, 1e3);
        s.label("refused parameter");
        VTHROWS(ac::BadArgumentException<double>, d.setShape(bad), bad);
        VTHROWS(ac::BadArgumentException<double>, d.setInvScale(bad), bad);
        VTHROWS(ac::BadArgumentException<double>, G(bad, b), bad);
        VTHROWS(ac::BadArgumentException<double>, G(k, bad), bad);
      }
    }
    VEQ(d.getShape(), k, "shape");
    VEQ(d.getInvScale(), b, "inverse scale");
    common(d, k, b, drawX(s, k, b), "after setters");
  }
  std::ostringstream o;
  o << d;
  VCHECK(!o.str().empty(), "streams something");
}

// integral shapes (Erlang distributions)
CLAUSE(erlang, 2500, 80000, "the shape is more than 1") {
  size_t k = (size_t)s.range(1, 40);
  double b = drawScale(s), x = drawX(s, (double)k, b);
  s.note([&](std::ostream& o) { o << "shape " << k << " inverse scale " << b << " at " << x; });
  s.nontrivial(k > 1);
  ac::GammaDistribution<size_t> d(k, b);
  common(d, (double)k, b, x, "constructed");
  inverse(s, d, (double)k, b, "constructed");
  size_t k2 = (size_t)s.range(1, 40);
  double b2 = drawScale(s);
  ac::GammaDistribution<size_t> f(k2, b2);
  const double mag = k + k2 + std::lgamma(k) + std::lgamma(k2) + k2 * std::fabs(std::log(b / b2)) + k * b2 / b + (k + k2) * std::fabs((double)st::digamma(k));
  VCLOSE(d.KLDivergence(f), (double)kl(k, b, k2, b2), 1e-9, 1e-10 * mag, "KL divergence to shape " << k2 << " inverse scale " << b2);
  d.setShape(k2);
  common(d, (double)k2, b, x, "after setters");
  d.setInvScale(b2);
  common(d, (double)k2, b2, x, "after setters");
  VTHROWS(ac::BadArgumentException<size_t>, d.setShape(0), "shape 0");
  common(d, (double)k2, b2, x, "after a refused shape");
}

CLAUSE(chiSquare, 3000, 100000, "more than two degrees of freedom") {
  double n = s.chance(2, 3) ? (double)s.range(1, 60) : s.logReal(0.2, 200), x = drawX(s, n / 2, 0.5);
  s.note([&](std::ostream& o) { o << "degrees " << n << " at " << x; });
  s.nontrivial(n > 2);
  ac::ChiSquareDistribution d(n);
  for (int round = 0; round < 3; ++round) {
    VEQ(d.getDegrees(), n, "degrees of freedom");
    { std::ostringstream o, w; o << d; w << n; VCHECK(o.str().find(w.str()) != std::string::npos, "printed as " << o.str() << " with " << n << " degrees of freedom"); }
    common(d, n / 2, 0.5, x, "chi-square");
    inverse(s, d, n / 2, 0.5, "chi-square");
    // the Wilson-Hilferty approximation: within two percent of the mass from one degree of freedom on
    if (n >= 1) {
      const double m = d.getMedian();
      VCLOSE((double)st::gammaP(n / 2, m / 2), 0.5, 0, 0.02, "median " << m);
      VCLOSE(m, n * std::pow(1 - 2.0 / (9 * n), 3), 1e-12, 0, "median");
    }
    if (round == 0) { n = s.chance(2, 3) ? (double)s.range(1, 60) : s.logReal(0.2, 200); d.setDegrees(n); x = drawX(s, n / 2, 0.5); }
    else if (round == 1) {
      ac::ChiSquareDistribution c(d), e;
      VEQ(c.getDegrees(), n, "copy");
      e = d;
      VEQ(e.getDegrees(), n, "assigned");
      common(e, n / 2, 0.5, x, "assigned");
      const double bad = s.flip() ? 0.0 : -s.logReal(1e-6, 1e3);
      VTHROWS(ac::BadArgumentException<double>, d.setDegrees(bad), bad);
      VTHROWS(ac::BadArgumentException<double>, (void)ac::ChiSquareDistribution(bad + 0.0), bad);
    }
  }
}

CLAUSE(samples, 50, 800, "always") {
  ac::Randomizer<double> r(1);
  r.setSeed((double)s.range(1, 2000000000));
  const double k = s.chance(1, 3) ? s.real(0.2, 1) : s.chance(1, 2) ? (double)s.range(1, 10) : s.real(1, 20), b = drawScale(s);
  s.note([&](std::ostream& o) { o << "shape " << k << " inverse scale " << b; });
  s.nontrivial();
  std::vector<double> x;
  const size_t n = 3000;
  if (s.chance(1, 3)) { ac::ChiSquareDistribution d(2 * k); d.getSamples(x, n); for (auto& v : x) v *= 0.5 / b; }
  else { G d(k, b); d.getSamples(x, n); }
  VEQ(x.size(), n, "number of samples");
  double D = st::ksStat(x, [&](double v) { return (double)st::gammaP(k, (st::L)v * b); });
  VCHECK(st::ksTail(std::sqrt((double)n) * D) > 1e-10, "Kolmogorov-Smirnov distance " << D << " of " << n << " samples");
}
