// C17: the special functions equal the mathematical functions they are named after
#include "stat.hpp"
#include <sstream>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
namespace ac = aslam::calibration;
using st::L;

template <typename F, typename X> static double value(const F& f, X x) {
  const double v = f.getValue(x);
  VEQ(f(x), v, "both ways of evaluating agree at " << x);
  VEQ(f.getNumVariables(), (size_t)1, "number of variables");
  return v;
}

CLAUSE(logFactorial, 3000, 60000, "the argument is more than 2") {
  const size_t n = s.chance(1, 3) ? (size_t)s.range(0, 5) : s.chance(1, 2) ? (size_t)s.range(0, 200) : (size_t)s.range(0, 3000);
  s.note([&](std::ostream& o) { o << "argument " << n; });
  s.nontrivial(n > 2);
  ac::LogFactorialFunction f;
  ac::LogGammaFunction<size_t> g;
  L ref = 0;
  for (size_t i = 2; i <= n; ++i) ref += logl((L)i);
  VCLOSE(value(f, n), (double)ref, 1e-12, 0, "log " << n << "!");
  VCLOSE(value(f, n + 1) - value(f, n), std::log((double)n + 1), 1e-9, 1e-11 * (1 + (double)ref), "recurrence at " << n);
  if (n > 0) {
    VCLOSE(value(g, n), (double)(ref - logl((L)n)), 1e-12, 1e-12, "log gamma of " << n);
    VEQ(value(g, n), value(f, n - 1), "log gamma(n) is log (n-1)!");
  }
  VTHROWS(ac::BadArgumentException<size_t>, g(0), "log gamma of 0");
  VTHROWS(ac::BadArgumentException<size_t>, g.getValue(0), "log gamma of 0");
}

template <typename X> static void logGamma(vpt::Src& s) {
  const size_t dim = (size_t)s.range(1, 6);
  const double base = 0.5 * (double)(dim - 1);
  X x = std::is_integral<X>::value ? (X)(std::floor(base) + 1 + (double)s.range(0, 100)) : (X)(base + (s.chance(1, 3) ? (double)s.range(1, 20) * 0.5 : s.logReal(1e-3, 1e4)));
  s.note([&](std::ostream& o) { o << "dimension " << dim << " argument " << x; });
  s.nontrivial(dim > 1);
  ac::LogGammaFunction<X> f(dim), one;
  VEQ(f.getDim(), dim, "dimension");
  VEQ(one.getDim(), (size_t)1, "default dimension");
  auto ref = [](size_t d, double a) { L r = (L)(d * (d - 1)) / 4 * logl(st::PI); for (size_t j = 1; j <= d; ++j) r += lgammal((L)a + (1 - (L)j) / 2); return (double)r; };
  auto mag = [](size_t d, double a) { double r = 1; for (size_t j = 1; j <= d; ++j) r += std::fabs(std::lgamma(a + (1 - (double)j) / 2)); return r; };
  const double eps = std::is_same<X, float>::value ? 1e-5 : 1e-12;
  // the log-gamma of a float loses its last bits near the poles
  VCLOSE(value(f, x), ref(dim, (double)x), eps, eps * mag(dim, (double)x), "multivariate log gamma");
  VCLOSE(value(one, x), (double)lgammal((L)x), eps, eps * mag(1, (double)x), "log gamma");
  const size_t d2 = (size_t)s.range(1, dim);
  ac::LogGammaFunction<X> c(f), a;
  a = f;
  f.setDim(d2);
  VEQ(f.getDim(), d2, "dimension");
  VCLOSE(value(f, x), ref(d2, (double)x), eps, eps * mag(d2, (double)x), "after changing the dimension");
  VCLOSE(value(c, x), ref(dim, (double)x), eps, eps * mag(dim, (double)x), "copy");
  VCLOSE(value(a, x), ref(dim, (double)x), eps, eps * mag(dim, (double)x), "assigned");
  VEQ(a.getDim(), dim, "assigned");
  std::ostringstream o;
  o << f;
  VCHECK(!o.str().empty(), "streams something");
}
CLAUSE(logGammaReal, 4000, 100000, "more than one dimension") { logGamma<double>(s); }
CLAUSE(logGammaFloat, 1000, 20000, "more than one dimension") { logGamma<float>(s); }
CLAUSE(logGammaInt, 1000, 20000, "more than one dimension") { logGamma<int>(s); }

CLAUSE(digamma, 4000, 100000, "the argument is not an integer") {
  double x = s.chance(1, 4) ? (double)s.range(1, 50) : s.chance(1, 4) ? -(double)s.range(0, 20) - s.real(0.05, 0.95) : s.logReal(1e-4, 1e5);
  s.note([&](std::ostream& o) { o << "argument " << x; });
  s.nontrivial(x != std::floor(x));
  ac::DigammaFunction<double> f;
  VCLOSE(value(f, x), (double)st::digamma(x), 1e-11, 1e-11, "digamma of " << x);
  VCLOSE(value(f, x + 1), value(f, x) + 1 / x, 1e-9, 1e-9 * (1 + std::fabs(1 / x)), "recurrence at " << x);
  const size_t n = (size_t)s.range(1, 60);
  L h = -0.577215664901532860606512090082402431L;
  for (size_t i = 1; i < n; ++i) h += 1 / (L)i;
  ac::DigammaFunction<size_t> g;
  VCLOSE(value(g, n), (double)h, 1e-12, 1e-13, "digamma of the integer " << n);
  ac::DigammaFunction<float> q;
  if (x > 0.01) VCLOSE(value(q, (float)x), (double)st::digamma((L)(float)x), 1e-4, 1e-4, "digamma of the float " << x);
}

CLAUSE(incompleteGamma, 5000, 150000, "neither value is within 1e-6 of an end") {
  double a = s.chance(1, 3) ? 0.5 * (double)s.range(1, 40) : s.logReal(0.01, 500);
  double x = s.chance(1, 10) ? 0.0 : s.chance(1, 3) ? s.logReal(1e-6, 1e3) : std::max(0.0, a + std::sqrt(a) * s.real(-4, 6));
  s.note([&](std::ostream& o) { o << "alpha " << a << " argument " << x; });
  ac::IncompleteGammaPFunction p(a);
  ac::IncompleteGammaQFunction q(a);
  VEQ(p.getAlpha(), a, "alpha");
  VEQ(q.getAlpha(), a, "alpha");
  L ref = st::gammaP(a, x);
  s.nontrivial(ref > 1e-6 && ref < 1 - 1e-6);
  VCLOSE(value(p, x), (double)ref, 1e-9, 1e-12, "P");
  VCLOSE(value(q, x), (double)(1 - ref), 1e-9, 1e-12, "Q");
  VCLOSE(value(p, x) + value(q, x), 1.0, 1e-12, 0, "P + Q");
  // recurrence in alpha
  const double b = a + 1;
  ac::IncompleteGammaPFunction pc(p), pa(b + 3);
  ac::IncompleteGammaQFunction qc(q), qa(b + 3);
  pa = p; qa = q;
  p.setAlpha(b);
  q.setAlpha(b);
  VEQ(p.getAlpha(), b, "alpha");
  VEQ(q.getAlpha(), b, "alpha");
  ref = st::gammaP(b, x);
  VCLOSE(value(p, x), (double)ref, 1e-9, 1e-12, "P after changing alpha");
  VCLOSE(value(q, x), (double)(1 - ref), 1e-9, 1e-12, "Q after changing alpha");
  if (x > 0) VCLOSE(value(pc, x) - value(p, x), (double)expl((L)a * logl(x) - x - lgammal(b)), 1e-6, 1e-12, "recurrence in alpha");
  VEQ(pc.getAlpha(), a, "copy");
  VEQ(qc.getAlpha(), a, "copy");
  VEQ(pa.getAlpha(), a, "assigned");
  VEQ(qa.getAlpha(), a, "assigned");
  VEQ(value(pa, x), value(pc, x), "copies agree");
  VEQ(value(qa, x), value(qc, x), "copies agree");
  std::ostringstream o;
  o << p << q;
  VCHECK(!o.str().empty(), "streams something");
}
