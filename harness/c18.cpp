// C18: the random sampler draws from the distributions it names, reproducibly for a seed
#include "stat.hpp"
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
namespace ac = aslam::calibration;

static uint64_t drawSeed(vpt::Src& s) { return (uint64_t)s.range(1, 2000000000); }
template <typename F> static void ks(const std::vector<double>& x, F cdf, const std::string& what) {
  const double D = st::ksStat(x, cdf);
  VCHECK(st::ksTail(std::sqrt((double)x.size()) * D) > 1e-10, what << ": Kolmogorov-Smirnov distance " << D << " of " << x.size() << " samples");
}
// counts of the outcomes 0..k-1 (anything above is pooled in the last one) against their probabilities
static void counts(const std::vector<size_t>& x, const std::vector<double>& p, const std::string& what) {
  std::vector<double> c(p.size(), 0.0);
  for (size_t v : x) c[std::min(v, p.size() - 1)]++;
  const double n = (double)x.size();
  double q = 0, k = -1, po = 0, pc = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const double e = n * p[i];
    VCHECK(std::fabs(c[i] - e) <= 7 * std::sqrt(e * (1 - p[i])) + (p[i] > 0 ? 14 : 0), what << ": outcome " << i << " drawn " << c[i] << " times of " << n << ", expected " << e);
    po += e; pc += c[i];
    if (po >= 8) { q += (pc - po) * (pc - po) / po; k++; po = pc = 0; }
  }
  if (k > 0) VCHECK(q < k + 9 * std::sqrt(2 * k) + 50, what << ": chi-square " << q << " with " << k << " degrees of freedom");
}
// most cases draw a few thousand samples; some many more, to see small deviations
static size_t drawN(vpt::Src& s) { return s.chance(1, 5) ? 80000 : 3000; }

CLAUSE(uniformReal, 80, 1500, "the support is not the unit interval") {
  const size_t N = drawN(s);
  ac::Randomizer<double> r((double)drawSeed(s));
  r.setSeed((double)drawSeed(s));
  double lo = s.any(100), hi = lo + s.logReal(1e-3, 1e3);
  s.note([&](std::ostream& o) { o << "[" << lo << ", " << hi << "]"; });
  s.nontrivial();
  std::vector<double> x(N), y(N);
  for (auto& v : x) { v = r.sampleUniform(lo, hi); VCHECK(v >= lo && v <= hi, "sample " << v << " outside [" << lo << ", " << hi << "]"); }
  for (auto& v : y) { v = r.sampleUniform(); VCHECK(v >= 0 && v <= 1, "sample " << v << " outside the unit interval"); }
  ks(x, [&](double v) { return (v - lo) / (hi - lo); }, "uniform");
  ks(y, [&](double v) { return v; }, "unit interval");
  VTHROWS(ac::BadArgumentException<double>, r.sampleUniform(hi, lo), "reversed support");
  VTHROWS(ac::BadArgumentException<double>, r.sampleUniform(lo, lo), "empty support");
  ac::Randomizer<float> f(1.f);
  for (auto& v : x) { v = f.sampleUniform((float)lo, (float)lo + 2.f); VCHECK(v >= (float)lo && v <= (float)lo + 2.f, "float sample " << v); }
  ks(x, [&](double v) { return (v - (double)(float)lo) / 2; }, "float");
}
CLAUSE(uniformInt, 80, 1500, "more than two values") {
  const size_t N = drawN(s);
  ac::Randomizer<int> r(1);
  r.setSeed((int)drawSeed(s));
  int lo = (int)s.range(-30, 30), hi = lo + (int)s.range(1, 20);
  s.note([&](std::ostream& o) { o << "[" << lo << ", " << hi << "]"; });
  s.nontrivial(hi - lo > 1);
  std::vector<size_t> x(N);
  for (auto& v : x) { int k = r.sampleUniform(lo, hi); VCHECK(k >= lo && k <= hi, "sample " << k << " outside [" << lo << ", " << hi << "]"); v = (size_t)(k - lo); }
  counts(x, std::vector<double>((size_t)(hi - lo) + 1, 1.0 / (hi - lo + 1)), "uniform");
  for (auto& v : x) { int k = r.sampleUniform(); VCHECK(k == 0 || k == 1, "sample " << k); v = (size_t)k; }
  counts(x, {0.5, 0.5}, "default support");
  VTHROWS(ac::BadArgumentException<int>, r.sampleUniform(hi, lo), "reversed support");
  VTHROWS(ac::BadArgumentException<int>, r.sampleUniform(lo, lo), "empty support");
  ac::Randomizer<size_t> u(1);
  const size_t a = (size_t)s.range(0, 9), b = a + (size_t)s.range(1, 9);
  for (auto& v : x) { size_t k = u.sampleUniform(a, b); VCHECK(k >= a && k <= b, "sample " << k << " outside [" << a << ", " << b << "]"); v = k - a; }
  counts(x, std::vector<double>(b - a + 1, 1.0 / (b - a + 1)), "unsigned");
  // intervals far wider than the number of samples, up to the whole type
  const int64_t half = s.chance(1, 4) ? 2147483647ll : s.range(1000, 2000000000), mid = s.chance(1, 2) ? 0 : s.range(0, 2147483647ll - half) * (s.flip() ? 1 : -1);
  const int wl = (int)(mid - half), wh = (int)(mid + half);
  const double width = (double)wh - wl + 1;
  for (auto& v : x) { int k = r.sampleUniform(wl, wh); VCHECK(k >= wl && k <= wh, "sample " << k << " outside [" << wl << ", " << wh << "]"); v = std::min<size_t>(15, (size_t)(((double)k - wl) / width * 16)); }
  std::vector<double> wp(16);
  for (int i = 0; i < 16; ++i) wp[i] = (std::ceil(width * (i + 1) / 16) - std::ceil(width * i / 16)) / width;
  counts(x, wp, "wide interval");
}
CLAUSE(normal, 80, 1500, "always") {
  const size_t N = drawN(s);
  ac::Randomizer<double> r(1);
  r.setSeed((double)drawSeed(s));
  double mu = s.any(100), var = s.logReal(1e-4, 1e4);
  s.note([&](std::ostream& o) { o << "mean " << mu << " variance " << var; });
  s.nontrivial();
  std::vector<double> x(N);
  double lag = 0;
  for (auto& v : x) v = r.sampleNormal(mu, var);
  auto phi = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); };
  ks(x, [&](double v) { return phi((v - mu) / std::sqrt(var)); }, "normal");
  for (size_t i = 1; i < N; ++i) lag += (x[i] - mu) * (x[i - 1] - mu) / var;
  VCHECK(std::fabs(lag) < 8 * std::sqrt((double)N), "successive samples are correlated: " << lag / N);
  for (auto& v : x) v = r.sampleNormal();
  ks(x, phi, "standard normal");
  const double bad = s.flip() ? 0 : -s.logReal(1e-6, 1e3);
  VTHROWS(ac::BadArgumentException<double>, r.sampleNormal(mu, bad), "variance " << bad);
  // integer samples are the rounded normal
  ac::Randomizer<int> q(1);
  const int m = (int)s.range(-20, 20), w = (int)s.range(1, 30);
  const int half = 8 * (int)std::ceil(std::sqrt((double)w)) + 1;
  std::vector<size_t> k(N);
  for (auto& v : k) { int t = q.sampleNormal(m, w); VCHECK(std::abs(t - m) <= half, "sample " << t << " of mean " << m << " variance " << w); v = (size_t)(t - m + half); }
  std::vector<double> p(2 * half + 1);
  for (int i = -half; i <= half; ++i) p[i + half] = phi((i + 0.5) / std::sqrt((double)w)) - phi((i - 0.5) / std::sqrt((double)w));
  counts(k, p, "integer normal");
  VTHROWS(ac::BadArgumentException<int>, q.sampleNormal(m, 0), "variance 0");
}
template <typename R, typename V> static void categorical(vpt::Src& s, R& r, V p, const std::string& how) {
  const size_t N = drawN(s);
  const int k = (int)p.size();
  double sum = 0;
  for (int i = 0; i < k; ++i) { p(i) = s.chance(1, 5) ? 0.0 : s.chance(1, 3) ? 1.0 : s.logReal(1e-3, 1); sum += p(i); }
  if (sum == 0) { p(k - 1) = 1; sum = 1; }
  p /= sum;
  s.note([&](std::ostream& o) { o << how << " probabilities " << p.transpose(); });
  s.nontrivial(k > 2);
  std::vector<size_t> x(N);
  for (auto& v : x) { v = r.sampleCategorical(p); VCHECK(v < (size_t)k, how << " sample " << v << " of " << k << " categories"); VCHECK(p(v) > 0, how << " category " << v << " has probability 0"); }
  counts(x, std::vector<double>(p.data(), p.data() + k), how);
  V bad = p;
  const int i = (int)s.index(k);
  if (s.flip() || k == 1) bad(i) += (s.flip() ? 1 : -1) * s.logReal(1e-9, 0.5);
  else { bad(i) = -0.1 - bad(i); bad((i + 1) % k) += p(i) - bad(i); }
  VTHROWS(ac::BadArgumentException<V>, r.sampleCategorical(bad), how << " probabilities " << bad.transpose());
}
CLAUSE(categorical, 120, 2000, "more than two categories") {
  ac::Randomizer<double, 4> a(1);
  ac::Randomizer<double, Eigen::Dynamic> b(1);
  ac::Randomizer<int, 3> c(1);
  ac::Randomizer<double> one(1);
  a.setSeed((double)drawSeed(s));
  switch (s.choice(3)) {
    case 0: categorical(s, a, Eigen::Vector4d(), "fixed size"); break;
    case 1: categorical(s, b, Eigen::VectorXd(s.range(1, 9)), "dynamic size"); break;
    default: categorical(s, c, Eigen::Vector3d(), "integer sampler");
  }
  std::vector<size_t> x(drawN(s));
  for (auto& v : x) { v = a.sampleCategorical(); VCHECK(v < 4, "sample " << v); }
  counts(x, {0.25, 0.25, 0.25, 0.25}, "default probabilities");
  VEQ(one.sampleCategorical(), (size_t)0, "a single category");
}
template <typename R> static void discrete(vpt::Src& s, R& r, const std::string& how) {
  std::vector<size_t> x(drawN(s));
  {
    const double m = s.chance(1, 3) ? s.logReal(0.01, 1) : s.logReal(0.5, 60);
    s.note([&](std::ostream& o) { o << how << " Poisson mean " << m; });
    for (auto& v : x) v = r.samplePoisson(m);
    std::vector<double> p;
    double tail = 1;
    for (size_t k = 0; k < 400 && tail > 1e-9; ++k) { p.push_back(std::exp(k * std::log(m) - m - std::lgamma(k + 1.0))); tail -= p.back(); }
    p.push_back(std::max(tail, 1e-12));
    counts(x, p, how + " Poisson");
    const double bad = s.flip() ? 0 : -s.logReal(1e-6, 1e3);
    VTHROWS(ac::BadArgumentException<double>, r.samplePoisson(bad), "mean " << bad);
  }
  {
    const double q = s.chance(1, 10) ? 1.0 : s.chance(1, 3) ? s.real(0.6, 0.999) : s.real(0.02, 0.6);
    s.note([&](std::ostream& o) { o << " geometric probability " << q; });
    for (auto& v : x) v = r.sampleGeometric(q);
    std::vector<double> p;
    double tail = 1;
    for (size_t k = 0; k < 2000 && tail > 1e-9; ++k) { p.push_back(tail * q); tail *= 1 - q; }
    p.push_back(std::max(tail, 1e-12));
    counts(x, p, how + " geometric");
    const double bad = s.flip() ? 0 : s.flip() ? -s.logReal(1e-6, 1e3) : 1 + s.logReal(1e-6, 10);
    VTHROWS(ac::BadArgumentException<double>, r.sampleGeometric(bad), "probability " << bad);
  }
}
CLAUSE(discrete, 80, 1500, "always") {
  s.nontrivial();
  ac::Randomizer<double> r(1);
  r.setSeed((double)drawSeed(s));
  if (s.chance(1, 3)) { ac::Randomizer<int> q(1); discrete(s, q, "integer sampler"); }
  else discrete(s, r, "real sampler");
}
CLAUSE(poissonLarge, 40, 600, "the mean is above 745") {
  ac::Randomizer<double> r(1);
  r.setSeed((double)drawSeed(s));
  const double m = s.logReal(60, 3000);
  s.note([&](std::ostream& o) { o << "mean " << m; });
  s.nontrivial(m > 745);
  const size_t n = 150;
  double a = 0, b = 0;
  for (size_t i = 0; i < n; ++i) { const double z = ((double)r.samplePoisson(m) - m) / std::sqrt(m); a += z; b += z * z; }
  VCHECK(std::fabs(a) < 7.5 * std::sqrt((double)n), "mean of " << n << " samples is off by " << a / n << " standard deviations");
  VCHECK(std::fabs(b - n) < 9 * std::sqrt(2.0 * n), "variance of " << n << " samples is " << b / n << " times the expected one");
}
template <typename R> static void continuous(vpt::Src& s, R& r, const std::string& how) {
  std::vector<double> x(drawN(s));
  const double rate = s.logReal(1e-3, 1e3);
  s.note([&](std::ostream& o) { o << how << " rate " << rate; });
  for (auto& v : x) { v = r.sampleExponential(rate); VCHECK(v >= 0 && std::isfinite(v), "sample " << v); }
  ks(x, [&](double v) { return -std::expm1(-v * rate); }, how + " exponential");
  const double shape = s.chance(1, 3) ? (double)s.range(1, 12) : s.chance(1, 2) ? s.real(0.15, 1) : s.real(1, 25), b = s.logReal(1e-3, 1e3);
  s.note([&](std::ostream& o) { o << " gamma shape " << shape << " inverse scale " << b; });
  for (auto& v : x) { v = r.sampleGamma(shape, b); VCHECK(v >= 0 && std::isfinite(v), "sample " << v); }
  ks(x, [&](double v) { return (double)st::gammaP(shape, (st::L)v * b); }, how + " gamma");
  const double bad = s.flip() ? 0 : -s.logReal(1e-6, 1e3);
  VTHROWS(ac::BadArgumentException<double>, r.sampleExponential(bad), "rate " << bad);
  VTHROWS(ac::BadArgumentException<double>, r.sampleGamma(bad, b), "shape " << bad);
  VTHROWS(ac::BadArgumentException<double>, r.sampleGamma(shape, bad), "inverse scale " << bad);
}
CLAUSE(continuous, 80, 1500, "always") {
  s.nontrivial();
  ac::Randomizer<double> r(1);
  r.setSeed((double)drawSeed(s));
  if (s.chance(1, 3)) { ac::Randomizer<int> q(1); continuous(s, q, "integer sampler"); }
  else continuous(s, r, "real sampler");
}

template <typename T> static std::vector<double> play(ac::Randomizer<T>& r, const std::vector<int>& prog) {
  std::vector<double> out;
  for (int c : prog) switch (c) {
    case 0: out.push_back((double)r.sampleUniform()); break;
    case 1: out.push_back((double)r.sampleNormal()); break;
    case 2: out.push_back((double)r.samplePoisson(3)); break;
    case 3: out.push_back(r.sampleExponential()); break;
    case 4: out.push_back((double)r.sampleGeometric()); break;
    case 5: out.push_back(r.sampleGamma(2.5, 2)); break;
    default: out.push_back((double)r.sampleUniform(T(-5), T(9)));
  }
  return out;
}
template <typename T> static void repro(vpt::Src& s) {
  std::vector<int> prog(s.range(1, 30));
  for (auto& c : prog) c = (int)s.choice(7);
  const T a = (T)s.range(1, 10000000), b = (T)s.range(1, 10000000);
  s.note([&](std::ostream& o) { o << "seeds " << a << " " << b << " program"; for (int c : prog) o << " " << c; });
  ac::Randomizer<T> r(a), q(b);
  r.setSeed(a);
  const auto x = play(r, prog);
  play(r, prog);
  r.setSeed(a);
  VCHECK(play(r, prog) == x, "the same seed reproduces the sequence");
  // another sampler seeded alike draws the same
  q.setSeed(a);
  ac::Randomizer<T> c(q);
  VCHECK(play(c, prog) == x, "another sampler with the same seed draws the same sequence");
  if (a != b) {
    std::vector<int> big(40, 6);
    q.setSeed(a);
    const auto u = play(q, big);
    q.setSeed(b);
    VCHECK(play(q, big) != u, "seeds " << a << " and " << b << " give the same sequence");
    s.nontrivial(prog.size() > 3);
  }
  std::ostringstream o, o2;
  o << r;
  o2 << a;
  VCHECK(o.str().find(o2.str()) != std::string::npos, "the printed sampler shows its seed: " << o.str());
}
CLAUSE(reproducible, 800, 20000, "two different seeds and more than three draws") { if (s.flip()) repro<double>(s); else repro<int>(s); }
