// C16: uniform distributions report the quantities of their support, and sample it evenly
#include "stat.hpp"
#include <sstream>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
namespace ac = aslam::calibration;

template <typename X> static X drawValue(vpt::Src& s) {
  if (std::is_integral<X>::value) return (X)(std::is_signed<X>::value ? s.range(-40, 40) : s.range(0, 80));
  return (X)(s.flip() ? (double)s.range(-20, 20) : s.any(1e3));
}
template <typename X> static X drawAbove(vpt::Src& s, X lo) {
  if (std::is_integral<X>::value) return (X)(lo + s.range(1, 30));
  return (X)(lo + (s.flip() ? (double)s.range(1, 20) : s.logReal(1e-2, 1e3)));
}
template <typename X> static double extent(X lo, X hi) { return (double)hi - (double)lo + (std::is_integral<X>::value ? 1 : 0); }
template <typename X> static double var(X lo, X hi) { const double e = extent(lo, hi); return std::is_integral<X>::value ? (e * e - 1) / 12 : e * e / 12; }
template <typename X> static X around(vpt::Src& s, X lo, X hi) {
  switch (s.choice(6)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return std::is_integral<X>::value ? (X)(lo - 1) : (X)((double)lo - s.logReal(1e-3, 1e2));
    case 3: return std::is_integral<X>::value ? (X)(hi + 1) : (X)((double)hi + s.logReal(1e-3, 1e2));
    default: return std::is_integral<X>::value ? (X)s.range((int64_t)lo, (int64_t)hi) : std::min(hi, std::max(lo, (X)s.real(lo, hi)));
  }
}

template <typename X> static void check1(vpt::Src& s, const ac::UniformDistribution<X>& d, X lo, X hi, const std::string& how) {
  const double tol = std::is_same<X, float>::value ? 1e-5 : 1e-12, scale = std::fabs((double)lo) + std::fabs((double)hi);
  VEQ(d.getMinSupport(), lo, how);
  VEQ(d.getMaxSupport(), hi, how);
  VCLOSE((double)d.getSupportArea(), extent(lo, hi), tol, tol * scale, how << " support area");
  VCLOSE(d.getMean(), ((double)lo + (double)hi) / 2, tol, tol * scale, how << " mean of [" << lo << ", " << hi << "]");
  VCLOSE(d.getMedian(), ((double)lo + (double)hi) / 2, tol, tol * scale, how << " median of [" << lo << ", " << hi << "]");
  VCLOSE(d.getVariance(), var(lo, hi), 10 * tol, tol * scale * scale * (std::is_integral<X>::value ? 0 : 1), how << " variance of [" << lo << ", " << hi << "]");
  VTHROWS(ac::InvalidOperationException, d.getMode(), how);
  double mass = 0;
  for (int i = 0; i < 4; ++i) {
    X v = around(s, lo, hi);
    const double e = v >= lo && v <= hi ? 1 / extent(lo, hi) : 0;
    VCLOSE(d.pdf(v), e, 1e-3 * tol * (1 + scale / extent(lo, hi)) + 10 * tol, 0, how << " density at " << v << " of [" << lo << ", " << hi << "]");
    VEQ(d.pmf(v), d.pdf(v), how);
    VEQ(d(v), d.pdf(v), how << " as a function");
    VEQ(d.getValue(v), d.pdf(v), how << " as a function");
  }
  if (std::is_integral<X>::value) {
    for (int64_t v = (int64_t)lo - (std::is_signed<X>::value ? 3 : 0); v <= (int64_t)hi + 3; ++v) mass += d.pmf((X)v);
    VCLOSE(mass, 1.0, 1e-12, 0, how << " total mass of [" << lo << ", " << hi << "]");
  }
}
template <typename X> static void one(vpt::Src& s) {
  typedef ac::UniformDistribution<X> U;
  X lo = drawValue<X>(s), hi = drawAbove<X>(s, lo);
  s.note([&](std::ostream& o) { o << "support [" << lo << ", " << hi << "]"; });
  s.nontrivial(lo != X(0));
  U d(lo, hi);
  check1(s, d, lo, hi, "constructed");
  U c(d), e;
  VEQ(e.getMinSupport(), X(0), "default");
  VEQ(e.getMaxSupport(), X(1), "default");
  check1(s, c, lo, hi, "copy");
  e = d;
  check1(s, e, lo, hi, "assigned");
  e = *&e;
  int n = (int)s.range(1, 5);
  for (int i = 0; i < n; ++i) {
    switch (s.choice(4)) {
      case 0: lo = drawValue<X>(s); hi = drawAbove<X>(s, lo); d.setSupport(lo, hi); break;
      case 1: hi = drawAbove<X>(s, lo); d.setMaxSupport(hi); break;
      case 2: {
        X l = drawValue<X>(s);
        if (l < hi) { d.setMinSupport(l); lo = l; }
        else VTHROWS(ac::BadArgumentException<X>, d.setMinSupport(l), "minimum " << l << " maximum " << hi);
      } break;
      default: {
        X a = drawValue<X>(s), b = s.flip() ? a : drawAbove<X>(s, a);
        s.label("refused support");
        VTHROWS(ac::BadArgumentException<X>, d.setSupport(b, a), "[" << b << ", " << a << "]");
        VTHROWS(ac::BadArgumentException<X>, U(b, a), "[" << b << ", " << a << "]");
        VTHROWS(ac::BadArgumentException<X>, d.setMaxSupport(lo), "empty support");
        VTHROWS(ac::BadArgumentException<X>, d.setMinSupport(hi), "empty support");
      }
    }
    check1(s, d, lo, hi, "after setters");
    for (int k = 0; k < 5; ++k) { X v = d.getSample(); VCHECK(v >= lo && v <= hi, "sample " << v << " outside [" << lo << ", " << hi << "]"); }
  }
  std::ostringstream o;
  o << d;
  VCHECK(!o.str().empty(), "streams something");
}
CLAUSE(univariateReal, 3000, 100000, "the support does not start at 0") { one<double>(s); }
CLAUSE(univariateFloat, 1500, 30000, "the support does not start at 0") { one<float>(s); }
CLAUSE(univariateInt, 3000, 100000, "the support does not start at 0") { one<int>(s); }
CLAUSE(univariateSize, 1500, 30000, "the support does not start at 0") { one<size_t>(s); }

template <typename X, int M> struct Mv {
  typedef ac::UniformDistribution<X, M> U;
  typedef Eigen::Matrix<X, M, 1> V;
  static std::string show(const V& v) { std::ostringstream o; o << v.transpose(); return o.str(); }
  static void check(vpt::Src& s, const U& d, const V& lo, const V& hi, const std::string& how) {
    const int n = (int)lo.size();
    VCHECK(d.getMinSupport() == lo && d.getMaxSupport() == hi, how << " support");
    double area = 1;
    for (int i = 0; i < n; ++i) area *= extent(lo(i), hi(i));
    VCLOSE((double)d.getSupportArea(), area, 1e-11, 0, how << " support area");
    Eigen::Matrix<double, M, 1> m = d.getMean(), md = d.getMedian();
    Eigen::Matrix<double, M, M> c = d.getCovariance();
    VEQ((int)m.size(), n, how);
    VEQ((int)c.rows(), n, how);
    VEQ((int)c.cols(), n, how);
    for (int i = 0; i < n; ++i) {
      const double e = ((double)lo(i) + (double)hi(i)) / 2, sc = std::fabs((double)lo(i)) + std::fabs((double)hi(i));
      VCLOSE(m(i), e, 1e-12, 1e-12 * sc, how << " mean " << i);
      VCLOSE(md(i), e, 1e-12, 1e-12 * sc, how << " median " << i);
      for (int j = 0; j < n; ++j) VCLOSE(c(i, j), i == j ? var(lo(i), hi(i)) : 0.0, 1e-9, 0, how << " covariance " << i << "," << j << " of [" << show(lo) << "; " << show(hi) << "]");
    }
    VTHROWS(ac::InvalidOperationException, d.getMode(), how);
    for (int k = 0; k < 5; ++k) {
      V v(n);
      bool in = true;
      const bool mostly = s.flip();
      for (int i = 0; i < n; ++i) {
        v(i) = mostly ? (std::is_integral<X>::value ? (X)s.range((int64_t)lo(i), (int64_t)hi(i)) : std::min(hi(i), std::max(lo(i), (X)s.real(lo(i), hi(i))))) : around(s, lo(i), hi(i));
        in = in && v(i) >= lo(i) && v(i) <= hi(i);
      }
      VCLOSE(d.pdf(v), in ? 1 / area : 0.0, 1e-10, 0, how << " density at " << show(v));
      VEQ(d.pmf(v), d.pdf(v), how);
      VEQ(d(v), d.pdf(v), how << " as a function");
      V x = d.getSample();
      VEQ((int)x.size(), n, how);
      VCHECK((x.array() >= lo.array()).all() && (x.array() <= hi.array()).all(), how << " sample " << show(x) << " outside the support");
    }
  }
  static void support(vpt::Src& s, int n, V& lo, V& hi) {
    lo.resize(n); hi.resize(n);
    for (int i = 0; i < n; ++i) { lo(i) = drawValue<X>(s); hi(i) = std::is_integral<X>::value ? (X)(lo(i) + s.range(1, 12)) : drawAbove<X>(s, lo(i)); }
  }
  static void run(vpt::Src& s, int n) {
    V lo, hi;
    support(s, n, lo, hi);
    s.note([&](std::ostream& o) { o << "support [" << show(lo) << "; " << show(hi) << "]"; });
    s.nontrivial(n > 1);
    U d(lo, hi);
    check(s, d, lo, hi, "constructed");
    U c(d);
    check(s, c, lo, hi, "copy");
    V lo2, hi2;
    support(s, n, lo2, hi2);
    U e(lo2, hi2);
    e = d;
    check(s, e, lo, hi, "assigned");
    e = *&e;
    int k = (int)s.range(1, 4);
    for (int i = 0; i < k; ++i) {
      support(s, n, lo2, hi2);
      switch (s.choice(4)) {
        case 0: lo = lo2; hi = hi2; d.setSupport(lo, hi); break;
        case 1: if ((lo2.array() < hi.array()).all()) { lo = lo2; d.setMinSupport(lo); } else VTHROWS(ac::BadArgumentException<V>, d.setMinSupport(lo2), show(lo2) << " against " << show(hi)); break;
        case 2: if ((lo.array() < hi2.array()).all()) { hi = hi2; d.setMaxSupport(hi); } else VTHROWS(ac::BadArgumentException<V>, d.setMaxSupport(hi2), show(hi2) << " against " << show(lo)); break;
        default: {
          // a single offending dimension is enough
          const int b = (int)s.index(n);
          hi2(b) = s.flip() || !std::is_signed<X>::value ? lo2(b) : (X)(lo2(b) - 1);
          s.label("refused support");
          VTHROWS(ac::BadArgumentException<V>, d.setSupport(lo2, hi2), show(lo2) << "; " << show(hi2));
          VTHROWS(ac::BadArgumentException<V>, U(lo2, hi2), show(lo2) << "; " << show(hi2));
        }
      }
      check(s, d, lo, hi, "after setters");
    }
    std::ostringstream o;
    o << d;
    VCHECK(!o.str().empty(), "streams something");
  }
};
CLAUSE(multivariateReal2, 1200, 40000, "more than one dimension") { Mv<double, 2>::run(s, 2); }
CLAUSE(multivariateInt3, 1200, 40000, "more than one dimension") { Mv<int, 3>::run(s, 3); }
CLAUSE(multivariateRealDynamic, 1200, 40000, "more than one dimension") { Mv<double, Eigen::Dynamic>::run(s, (int)s.range(1, 5)); }
CLAUSE(multivariateIntDynamic, 1200, 40000, "more than one dimension") { Mv<int, Eigen::Dynamic>::run(s, (int)s.range(1, 5)); }

static void seed(vpt::Src& s) { ac::Randomizer<double> r(1); r.setSeed((double)s.range(1, 2000000000)); }
template <typename X> static void chi2(const std::vector<X>& x, X lo, X hi, const std::string& how) {
  std::vector<double> c((size_t)(hi - lo) + 1, 0.0);
  for (X v : x) { VCHECK(v >= lo && v <= hi, how << " sample " << v << " outside [" << lo << ", " << hi << "]"); c[(size_t)(v - lo)]++; }
  const double e = (double)x.size() / c.size();
  double q = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    q += (c[i] - e) * (c[i] - e) / e;
    VCHECK(std::fabs(c[i] - e) < 7 * std::sqrt(e) + 1, how << " value " << (long)lo + (long)i << " of [" << lo << ", " << hi << "] drawn " << c[i] << " times of " << x.size() << ", expected about " << e);
  }
  const double k = (double)c.size() - 1;
  VCHECK(q < k + 8 * std::sqrt(2 * k) + 40, how << " chi-square " << q << " with " << k << " degrees of freedom");
}
CLAUSE(samplesInt, 60, 1200, "more than two values") {
  seed(s);
  int lo = (int)s.range(-20, 20), hi = lo + (int)s.range(1, 15);
  s.note([&](std::ostream& o) { o << "support [" << lo << ", " << hi << "]"; });
  s.nontrivial(hi - lo > 1);
  std::vector<int> x;
  ac::UniformDistribution<int>(lo, hi).getSamples(x, 4000);
  VEQ(x.size(), (size_t)4000, "number of samples");
  chi2(x, lo, hi, "univariate");
  Eigen::VectorXi l(2), h(2);
  l << lo, (int)s.range(-5, 5);
  h << hi, l(1) + (int)s.range(1, 4);
  ac::UniformDistribution<int, Eigen::Dynamic> d(l, h);
  std::vector<int> a(4000), b(4000);
  for (int i = 0; i < 4000; ++i) { Eigen::VectorXi v = d.getSample(); a[i] = v(0); b[i] = v(1); }
  chi2(a, l(0), h(0), "first coordinate");
  chi2(b, l(1), h(1), "second coordinate");
}
CLAUSE(samplesReal, 60, 1200, "always") {
  seed(s);
  double lo = s.any(50), hi = drawAbove<double>(s, lo);
  s.note([&](std::ostream& o) { o << "support [" << lo << ", " << hi << "]"; });
  s.nontrivial();
  std::vector<double> x;
  const size_t n = 4000;
  ac::UniformDistribution<double>(lo, hi).getSamples(x, n);
  double D = st::ksStat(x, [&](double v) { return (v - lo) / (hi - lo); });
  VCHECK(st::ksTail(std::sqrt((double)n) * D) > 1e-10, "Kolmogorov-Smirnov distance " << D);
  Eigen::Vector2d l(lo, s.any(5)), h(hi, 0);
  h(1) = drawAbove<double>(s, l(1));
  ac::UniformDistribution<double, 2> d(l, h);
  std::vector<double> y[2];
  double cr = 0;
  for (size_t i = 0; i < n; ++i) {
    Eigen::Vector2d v = d.getSample();
    for (int k = 0; k < 2; ++k) y[k].push_back(v(k));
    cr += ((v(0) - l(0)) / (h(0) - l(0)) - 0.5) * ((v(1) - l(1)) / (h(1) - l(1)) - 0.5) * 12;
  }
  for (int k = 0; k < 2; ++k) {
    D = st::ksStat(y[k], [&](double v) { return (v - l(k)) / (h(k) - l(k)); });
    VCHECK(st::ksTail(std::sqrt((double)n) * D) > 1e-10, "coordinate " << k << ": Kolmogorov-Smirnov distance " << D);
  }
  VCHECK(std::fabs(cr) < 8 * std::sqrt((double)n), "coordinates are correlated: " << cr / n);
}
