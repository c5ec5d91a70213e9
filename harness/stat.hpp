// Reference statistics, independent of the code under test (long double, textbook formulas).
#pragma once
#include "vpt.hpp"
#include <Eigen/Core>
#include <cmath>
#include <vector>
namespace st {
typedef long double L;
const L PI = 3.141592653589793238462643383279502884L;

// Cholesky in long double; false when not positive definite
inline bool chol(const Eigen::MatrixXd& a, std::vector<std::vector<L> >& l) {
  const int n = (int)a.rows();
  l.assign(n, std::vector<L>(n, 0));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) {
      L s = a(i, j);
      for (int k = 0; k < j; ++k) s -= l[i][k] * l[j][k];
      if (i == j) { if (!(s > 0)) return false; l[i][i] = sqrtl(s); }
      else l[i][j] = s / l[j][j];
    }
  return true;
}
inline std::vector<L> solveLower(const std::vector<std::vector<L> >& l, const std::vector<L>& b) {
  std::vector<L> y(b.size());
  for (size_t i = 0; i < b.size(); ++i) { L s = b[i]; for (size_t k = 0; k < i; ++k) s -= l[i][k] * y[k]; y[i] = s / l[i][i]; }
  return y;
}
inline std::vector<L> solveLowerT(const std::vector<std::vector<L> >& l, const std::vector<L>& b) {
  const int n = (int)b.size();
  std::vector<L> y(n);
  for (int i = n - 1; i >= 0; --i) { L s = b[i]; for (int k = i + 1; k < n; ++k) s -= l[k][i] * y[k]; y[i] = s / l[i][i]; }
  return y;
}
// Kolmogorov distribution tail, P(sqrt(n) D > x), asymptotic
inline double ksTail(double x) { double p = 0; for (int k = 1; k < 50; ++k) p += (k % 2 ? 2 : -2) * std::exp(-2.0 * k * k * x * x); return std::min(1.0, std::max(0.0, p)); }
// D statistic of a sample against a continuous cdf
template <typename F> double ksStat(std::vector<double> x, F cdf) {
  std::sort(x.begin(), x.end());
  double d = 0;
  const double n = (double)x.size();
  for (size_t i = 0; i < x.size(); ++i) { const double c = cdf(x[i]); d = std::max(d, std::max(std::fabs(c - i / n), std::fabs((i + 1) / n - c))); }
  return d;
}
// adaptive Simpson in long double
template <typename F> L simpson(F f, L a, L b, L fa, L fm, L fb, L whole, L eps, int depth) {
  const L m = (a + b) / 2, lm = (a + m) / 2, rm = (m + b) / 2, flm = f(lm), frm = f(rm);
  const L left = (m - a) / 6 * (fa + 4 * flm + fm), right = (b - m) / 6 * (fm + 4 * frm + fb);
  if (depth <= 0 || fabsl(left + right - whole) <= 15 * eps) return left + right + (left + right - whole) / 15;
  return simpson(f, a, m, fa, flm, fm, left, eps / 2, depth - 1) + simpson(f, m, b, fm, frm, fb, right, eps / 2, depth - 1);
}
template <typename F> L integrate(F f, L a, L b, L eps, int pieces = 16) {
  L s = 0;
  for (int i = 0; i < pieces; ++i) {
    const L x = a + (b - a) * i / pieces, y = a + (b - a) * (i + 1) / pieces, m = (x + y) / 2;
    const L fx = f(x), fm = f(m), fy = f(y);
    s += simpson(f, x, y, fx, fm, fy, (y - x) / 6 * (fx + 4 * fm + fy), eps / pieces, 24);
  }
  return s;
}
// lower regularised incomplete gamma P(a, x), by series or continued fraction
inline L gammaP(L a, L x) {
  if (x <= 0) return 0;
  if (x < a + 1) {
    L t = 1 / a, s = t;
    for (int n = 1; n < 200000; ++n) { t *= x / (a + n); s += t; if (t < s * 1e-21L) break; }
    return s * expl(-x + a * logl(x) - lgammal(a));
  }
  L b = x + 1 - a, c = 1e300L, d = 1 / b, h = d;
  for (int i = 1; i < 200000; ++i) {
    const L an = -i * (i - a);
    b += 2; d = an * d + b; if (fabsl(d) < 1e-300L) d = 1e-300L;
    c = b + an / c; if (fabsl(c) < 1e-300L) c = 1e-300L;
    d = 1 / d; const L del = d * c; h *= del;
    if (fabsl(del - 1) < 1e-20L) break;
  }
  return 1 - expl(-x + a * logl(x) - lgammal(a)) * h;
}
inline L digamma(L x) {
  L r = 0;
  if (x <= 0) { r -= PI / tanl(PI * x); x = 1 - x; }
  while (x < 20) { r -= 1 / x; x += 1; }
  const L i = 1 / (x * x);
  return r + logl(x) - 1 / (2 * x) - i * (1.0L / 12 - i * (1.0L / 120 - i * (1.0L / 252 - i * (1.0L / 240 - i * (1.0L / 132 - i * 691.0L / 32760)))));
}
}  // namespace st
