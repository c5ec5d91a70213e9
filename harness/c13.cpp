// C13: a histogram counts what it is given and summarizes what it counted
#include "vpt.hpp"
#include <Eigen/Core>
#include <limits>
#include <vector>
#include <sstream>
#include <aslam/calibration/statistics/Histogram.h>
namespace ac = aslam::calibration;

// T = double or int; everything on an eighth lattice so that cells are exact
template <typename T> static void uni(vpt::Src& s, double unit) {
  typedef ac::Histogram<T, 1> H;
  int res = 1 + (int)s.index(5), lo = (int)s.range(-20, 20), cells = 1 + (int)s.index(8), part = s.flip() ? 0 : (int)s.index(res);
  int w = cells * res + part;
  bool integer = std::numeric_limits<T>::is_integer;
  int n = integer ? w / res + 1 : cells + (part ? 1 : 0);
  H h((T)(lo * unit), (T)((lo + w) * unit), (T)(res * unit));
  VEQ(h.getNumCellsTot(), (size_t)n, "number of bins");
  std::vector<double> count(n, 0), centre(n);
  for (int k = 0; k < n; ++k) centre[k] = integer ? lo + (double)(T)((k + 0.5) * res) : (lo + (k + 0.5) * res) * unit;
  std::vector<T> batch;
  size_t m = s.index(25), out = 0;
  for (size_t k = 0; k < m; ++k) {
    int p = s.chance(1, 6) ? (int)s.range(lo - 4, lo + w + 4) : lo + (int)s.index(w + 1);
    if (s.chance(1, 8)) p = lo + w;
    T v = (T)(p * unit);
    if (p < lo || p > lo + w) out++;
    else count[p == lo + w ? n - 1 : (p - lo) / res]++;
    if (s.flip()) h.addSample(v); else batch.push_back(v);
  }
  h.addSamples(batch);
  if (!std::numeric_limits<T>::is_integer) h.addSample(std::numeric_limits<T>::quiet_NaN());
  s.note([&](std::ostream& o) { o << "bins from " << lo * unit << " width " << res * unit << " counts"; for (double c : count) o << " " << c; o << " outside " << out << "\n"; });
  double sum = 0;
  for (double c : count) sum += c;
  VEQ(h.getSum(), sum, "number of samples in range");
  for (int k = 0; k < n; ++k) VEQ(h.getCells()[k], count[k], "bin " << k);
  if (sum > 0) {
    double mean = 0, var = 0, cum = 0, median = 0; int mode = 0;
    for (int k = 0; k < n; ++k) mean += centre[k] * count[k] / sum;
    for (int k = 0; k < n; ++k) { var += (centre[k] - mean) * (centre[k] - mean) * count[k]; if (count[k] > count[mode]) mode = k; }
    bool found = false;
    for (int k = 0; k < n && !found; ++k) { cum += count[k]; if (cum >= sum / 2) { median = centre[k]; found = true; } }
    VCLOSE(h.getMean(), mean, 1e-9, 1e-9, "mean");
    VEQ(h.getMode(), centre[mode], "mode");
    VEQ(h.getMedian(), median, "median");
    if (sum > 1) VCLOSE(h.getVariance(), var / (sum - 1), 1e-9, 1e-9, "variance");
    H z = h.getNormalized();
    VCLOSE(z.getSum(), 1.0, 1e-9, 0, "normalized sum");
    VEQ(z.getNumCellsTot(), h.getNumCellsTot(), "normalized bins");
    for (int k = 0; k < n; ++k) { VCLOSE(z.getCells()[k], count[k] / sum, 1e-12, 0, "normalized bin " << k); VEQ(h.getCells()[k], count[k], "normalizing changed bin " << k); }
    VCLOSE(z.getMean(), mean, 1e-9, 1e-9, "mean of the normalized histogram");
  }
  H c(h);
  c.addSample((T)(lo * unit));
  VEQ(h.getSum(), sum, "adding to a copy"); VEQ(c.getSum(), sum + 1, "copy");
  H d((T)0, (T)4, (T)1);
  d = h;
  d = *&d;
  VCHECK(d.getCells() == h.getCells() && d.getSum() == sum && d.getMinimum() == h.getMinimum() && d.getMaximum() == h.getMaximum() && d.getResolution() == h.getResolution() && d.getNumCells() == h.getNumCells(), "assignment over a histogram of another geometry");
  h.reset();
  VEQ(h.getSum(), 0.0, "reset"); VEQ(d.getSum(), sum, "reset of the source");
  s.nontrivial(n > 2 && sum >= 3);
}
CLAUSE(univariate, 40000, 800000, "three or more bins and samples") {
  switch (s.index(3)) { case 0: uni<double>(s, 0.125); break; case 1: uni<int>(s, 1); break; default: uni<float>(s, 0.25); }
}

template <typename T, int M> static void multi(vpt::Src& s, int d, double unit) {
  typedef ac::Histogram<T, M> H;
  typedef typename H::Coordinate C; typedef typename H::Index Index;
  C lo(d), hi(d), res(d);
  Eigen::VectorXi l(d), w(d), r(d), n(d);
  const bool integer = std::numeric_limits<T>::is_integer;
  for (int i = 0; i < d; ++i) {
    r[i] = 1 + (int)s.index(3); l[i] = (int)s.range(-6, 6);
    int cells = 1 + (int)s.index(4), part = s.flip() ? 0 : (int)s.index(r[i]);
    w[i] = cells * r[i] + part; n[i] = integer ? w[i] / r[i] + 1 : cells + (part ? 1 : 0);
    lo(i) = (T)(l[i] * unit); hi(i) = (T)((l[i] + w[i]) * unit); res(i) = (T)(r[i] * unit);
  }
  H h(lo, hi, res);
  std::map<std::vector<int>, double> count;
  std::vector<C> batch;
  double sum = 0;
  size_t m = s.index(20);
  for (size_t k = 0; k < m; ++k) {
    C p(d); std::vector<int> at; bool in = true;
    for (int i = 0; i < d; ++i) {
      int q = s.chance(1, 12) ? (int)s.range(-3, w[i] + 3) : (int)s.index(w[i] + 1);
      in = in && q >= 0 && q <= w[i];
      at.push_back(q == w[i] ? n[i] - 1 : q / r[i]);
      p(i) = (T)((l[i] + q) * unit);
    }
    if (in) { count[at]++; sum++; }
    if (s.flip()) h.addSample(p); else batch.push_back(p);
  }
  h.addSamples(batch);
  VEQ(h.getSum(), sum, "samples in range");
  auto centre = [&](const std::vector<int>& at) { Eigen::VectorXd c(d); for (int i = 0; i < d; ++i) c[i] = integer ? l[i] + (double)(T)((at[i] + 0.5) * r[i]) : (l[i] + (at[i] + 0.5) * r[i]) * unit; return c; };
  for (auto& kv : count) { Index i(d); for (int k = 0; k < d; ++k) i(k) = kv.first[k]; VEQ(h.getCell(i), kv.second, "bin " << i.transpose()); }
  if (sum > 0) {
    Eigen::VectorXd mean = Eigen::VectorXd::Zero(d); double top = 0;
    for (auto& kv : count) { mean += centre(kv.first) * kv.second / sum; top = std::max(top, kv.second); }
    Eigen::VectorXd got = h.getMean();
    VCHECK((got - mean).norm() <= 1e-9 * (1 + mean.norm()), "mean " << got.transpose() << " expected " << mean.transpose());
    Eigen::VectorXd mode = h.getMode();
    bool hit = false;
    for (auto& kv : count) hit = hit || (kv.second == top && (centre(kv.first) - mode).norm() < 1e-9);
    VCHECK(hit, "mode " << mode.transpose() << " is not the centre of a fullest bin");
    if (sum > 1) {
      Eigen::MatrixXd cov = Eigen::MatrixXd::Zero(d, d);
      for (auto& kv : count) cov += (centre(kv.first) - mean) * (centre(kv.first) - mean).transpose() * kv.second / (sum - 1);
      Eigen::MatrixXd gc = h.getCovariance();
      VCHECK((gc - cov).norm() <= 1e-9 * (1 + cov.norm()), "covariance\n" << gc << "\nexpected\n" << cov);
    }
    H z = h.getNormalized();
    VCLOSE(z.getSum(), 1.0, 1e-9, 0, "normalized sum");
    VEQ(h.getSum(), sum, "normalizing changed the histogram");
  }
  H c(h);
  c.addSample(lo);
  VEQ(h.getSum(), sum, "adding to a copy"); VEQ(c.getSum(), sum + 1, "copy");
  C zero(d), seven(d), one(d);
  for (int i = 0; i < d; ++i) { zero(i) = 0; seven(i) = 7; one(i) = 1; }
  H f(zero, seven, one);
  f = h;
  f = *&f;
  VCHECK(f.getCells() == h.getCells() && f.getMinimum() == h.getMinimum() && f.getResolution() == h.getResolution() && f.getNumCells() == h.getNumCells(), "assignment over a histogram of another geometry");
  f.addSample(lo);
  VEQ(h.getSum(), sum, "adding to an assigned histogram"); VEQ(f.getSum(), sum + 1, "assigned histogram");
  s.nontrivial(d > 1 && count.size() > 2);
}
CLAUSE(multivariate, 25000, 500000, "two or more dimensions and three or more distinct bins hit") {
  switch (s.index(4)) {
    case 0: multi<double, 2>(s, 2, 0.125); break;
    case 1: multi<double, 3>(s, 3, 0.25); break;
    case 2: multi<double, Eigen::Dynamic>(s, 1 + (int)s.index(3), 0.5); break;
    default: multi<int, 2>(s, 2, 1);
  }
}

CLAUSE(large, 40, 1000, "more than 1000 bins and 10000 samples") {
  typedef ac::Histogram<double, 1> H;
  const int n = 2 + (int)s.index(3000), m = (int)s.index(40000);
  const double lo = (double)s.range(-4000, 4000) / 8, res = (1 + s.index(9)) / 8.0;
  uint64_t x = s.choice(0);
  const bool skewed = s.flip();
  s.desc() << n << " bins of width " << res << " from " << lo << ", " << m << " samples\n";
  H h(lo, lo + n * res, res);
  VEQ(h.getNumCellsTot(), (size_t)n, "number of bins");
  std::vector<double> count(n, 0), batch;
  for (int k = 0; k < m; ++k) {
    double u = (vpt::splitmix(x) >> 11) / 9007199254740992.0;
    int b = std::min(n - 1, (int)((skewed ? u * u * u : u) * n));
    double v = lo + (b + 0.5) * res;
    count[b]++;
    if (vpt::splitmix(x) & 1) h.addSample(v); else batch.push_back(v);
    if ((vpt::splitmix(x) & 63) == 0) h.addSample(lo - res * (1 + (vpt::splitmix(x) & 3)));
  }
  h.addSamples(batch);
  VEQ(h.getSum(), (double)m, "number of samples in range");
  for (int k = 0; k < n; ++k) VEQ(h.getCells()[k], count[k], "bin " << k);
  if (m > 1) {
    long double mean = 0, var = 0;
    auto c = [&](int k) { return lo + (k + 0.5) * res; };
    for (int k = 0; k < n; ++k) mean += (long double)c(k) * count[k] / m;
    int mode = 0;
    for (int k = 0; k < n; ++k) { var += (c(k) - mean) * (c(k) - mean) * count[k]; if (count[k] > count[mode]) mode = k; }
    double cum = 0, median = 0;
    bool found = false;
    for (int k = 0; k < n && !found; ++k) { cum += count[k]; if (cum >= m / 2.0) { median = c(k); found = true; } }
    VCLOSE(h.getMean(), (double)mean, 1e-10, 1e-9 * (1 + std::fabs(lo)), "mean");
    VEQ(h.getMode(), c(mode), "mode");
    VEQ(h.getMedian(), median, "median");
    VCLOSE(h.getVariance(), (double)(var / (m - 1)), 1e-9, 1e-9, "variance");
    H z = h.getNormalized();
    VCLOSE(z.getSum(), 1.0, 1e-9, 0, "normalized sum");
    for (int k = 0; k < n; ++k) VCLOSE(z.getCells()[k], count[k] / m, 1e-12, 0, "normalized bin " << k);
  }
  s.nontrivial(n > 1000 && m > 10000);
}
