// C10: permutation of containers and matrix helpers
#include "vpt.hpp"
#include <memory>
#include <string>
#include <aslam/calibration/algorithms/matrixOperations.h>
#include <aslam/calibration/algorithms/permute.h>
#include <aslam/calibration/utils/OuterProduct.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
namespace ac = aslam::calibration;

template <typename T> T makeElem(size_t k);
template <> int makeElem<int>(size_t k) { return 100 + (int)k; }
template <> double makeElem<double>(size_t k) { return k + 0.5; }
template <> std::string makeElem<std::string>(size_t k) { return std::string(1 + k % 40, 'a' + k % 26) + std::to_string(k); }
template <> std::shared_ptr<int> makeElem<std::shared_ptr<int> >(size_t k) { return std::make_shared<int>((int)k); }
template <> std::vector<int> makeElem<std::vector<int> >(size_t k) { return std::vector<int>(k % 5, (int)k); }

template <typename T, typename I> static void gather(vpt::Src& s, size_t n) {
  std::vector<T> in, dup;
  bool repeated = s.chance(1, 4);  // equal elements
  for (size_t k = 0; k < n; ++k) in.push_back(makeElem<T>(repeated ? k / 2 : k));
  auto p0 = s.permutation(n);
  std::vector<I> p(p0.begin(), p0.end());
  if (n > 3 && s.chance(1, 4)) {  // one long cycle
    for (size_t k = 0; k < n; ++k) p[k] = (I)((k + 1 + s.index(1)) % n);
  }
  s.note([&](std::ostream& o) { o << "permutation"; for (auto i : p) o << " " << (long)i; o << "\n"; });
  const std::vector<I> keep = p;
  std::vector<T> out = in;
  VNOTHROW(ac::permute(out, p), "a valid permutation");
  VEQ(out.size(), n, "size");
  for (size_t k = 0; k < n; ++k) VCHECK(out[k] == in[(size_t)p[k]], "element " << k << " is not the one at " << (long)p[k]);
  VCHECK(p == keep, "the permutation itself was changed");
  // the inverse brings the container back
  std::vector<I> inv(n);
  for (size_t k = 0; k < n; ++k) inv[(size_t)p[k]] = (I)k;
  ac::permute(out, inv);
  VCHECK(out == in, "the inverse permutation does not restore the container");
  // two in a row are their composition
  auto q0 = s.permutation(n);
  std::vector<I> q(q0.begin(), q0.end()), pq(n);
  for (size_t k = 0; k < n; ++k) pq[k] = p[(size_t)q[k]];
  std::vector<T> two = in, one = in;
  ac::permute(two, p); ac::permute(two, q);
  ac::permute(one, pq);
  VCHECK(one == two, "composition");
  // cycles longer than two are where an in-place algorithm can go wrong
  size_t longest = 0;
  std::vector<bool> seen(n, false);
  for (size_t k = 0; k < n; ++k) { size_t l = 0; for (size_t j = k; !seen[j]; j = (size_t)p[j]) seen[j] = true, l++; longest = std::max(longest, l); }
  s.nontrivial(longest >= 3);
}

CLAUSE(permutation, 60000, 1500000, "the permutation has a cycle of three or more elements") {
  size_t n = s.chance(1, 20) ? 100 + s.index(155) : s.index(13);
  if (n > 120) n = 120;  // an index type of 8 signed bits has to hold it
  switch (s.index(6)) {
    case 0: gather<int, size_t>(s, n); break;
    case 1: gather<std::string, size_t>(s, n); break;
    case 2: gather<std::shared_ptr<int>, unsigned>(s, n); break;
    case 3: gather<double, int>(s, n); break;
    case 4: gather<std::vector<int>, long>(s, n); break;
    default: gather<int, unsigned short>(s, n);
  }
}

template <typename T, typename I> static void refuse(vpt::Src& s) {
  size_t n = s.index(9);
  std::vector<T> in;
  for (size_t k = 0; k < n; ++k) in.push_back(makeElem<T>(k));
  auto p0 = s.permutation(n);
  std::vector<I> p(p0.begin(), p0.end());
  const char* kind;
  switch (s.index(5)) {
    case 0: kind = "too short"; if (n) { p.pop_back(); break; }  // fall through
    case 1: kind = "too long"; p.push_back(s.flip() ? (I)n : (I)0); break;
    case 2: kind = "index beyond the container"; if (!n) throw vpt::Discard(); p[s.index(n)] = (I)(n + (s.flip() ? 0 : s.index(100))); break;
    case 3: kind = "negative index"; if (!n || (I)-1 > 0) throw vpt::Discard(); p[s.index(n)] = (I)(-1 - (int)s.index(5)); break;
    default: { kind = "repeated index"; if (n < 2) throw vpt::Discard(); size_t a = s.index(n), b = (a + 1 + s.index(n - 1)) % n; p[a] = p[b]; s.nontrivial(); }
  }
  s.note([&](std::ostream& o) { o << kind << ":"; for (auto i : p) o << " " << (long)i; o << "\n"; });
  std::vector<T> out = in;
  VTHROWS(ac::OutOfBoundException<I>, ac::permute(out, p), kind);
  VCHECK(out == in, "the container was changed by a refused permutation (" << kind << ")");
  s.label(kind);
  s.nontrivial();
}
CLAUSE(refused, 20000, 500000, "the permutation vector is invalid") {
  switch (s.index(3)) {
    case 0: refuse<int, size_t>(s); break;
    case 1: refuse<std::string, int>(s); break;
    default: refuse<std::shared_ptr<int>, long>(s);
  }
}

CLAUSE(sum_log, 30000, 600000, "several diagonal entries, one of them negative or zero") {
  int n = 2 + (int)s.index(9), m = n + (int)s.index(3);
  Eigen::MatrixXd R(m, n);
  bool special = false;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) R(i, j) = (double)s.range(0, 40) - 20;
  for (int i = 0; i < n; ++i) {
    switch (s.index(6)) {
      case 0: R(i, i) = 0; special = true; break;
      case 1: R(i, i) = -s.logReal(1e-10, 1e10); special = true; break;
      case 2: R(i, i) = 1e-17; special = true; break;   // below the rounding threshold: counts as zero
      case 3: R(i, i) = s.flip() ? 1e300 : 1e-14; break;
      default: R(i, i) = s.logReal(1e-6, 1e6);
    }
  }
  size_t b = s.index(n - 1), e = b + 1 + s.index(n - 1 - b);
  s.note([&](std::ostream& o) { o << "columns " << b << ".." << e << " diagonal"; for (int i = 0; i < n; ++i) o << " " << R(i, i); o << "\n"; });
  double want = 0;
  for (size_t i = b; i <= e; ++i) if (std::fabs(R(i, i)) > 1e-15) want += std::log2(std::fabs(R(i, i)));
  VCLOSE(ac::computeSumLogDiagR(R, b, e), want, 1e-12, 1e-9, "sum over the columns, both ends included");
  Eigen::MatrixXf F = R.cwiseMin(1e30).cast<float>();
  double wf = 0;
  for (size_t i = b; i <= e; ++i) if (std::fabs((double)F(i, i)) > 1e-15) wf += std::log2(std::fabs((double)F(i, i)));
  VCLOSE(ac::computeSumLogDiagR(F, b, e), wf, 1e-12, 1e-9, "single precision matrix");
  // additive in the range, blind to what is off the diagonal
  if (b + 2 < e) { size_t k = b + 1 + s.index(e - b - 2); if (k > b && k + 1 < e) VCLOSE(ac::computeSumLogDiagR(R, b, k) + ac::computeSumLogDiagR(R, k + 1, e), want, 1e-12, 1e-9, "additivity at " << k); }
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m, n);
  D.diagonal() = R.diagonal();
  VEQ(ac::computeSumLogDiagR(D, b, e), ac::computeSumLogDiagR(R, b, e), "off-diagonal entries matter");
  s.nontrivial(special && e > b + 1);
}

CLAUSE(column_range, 20000, 300000, "the column range is invalid") {
  int n = 1 + (int)s.index(8);
  Eigen::MatrixXd R = Eigen::MatrixXd::Identity(n, n) * 2;
  size_t b = s.index(12), e = s.chance(1, 20) ? (size_t)-1 : s.index(12);
  s.desc() << n << " columns, range " << b << ".." << e << "\n";
  bool ok = b < e && e < (size_t)n;
  if (ok) { VNOTHROW(ac::checkColumnIndices(R, b, e), "valid range"); VCLOSE(ac::computeSumLogDiagR(R, b, e), (double)(e - b + 1), 1e-12, 0, "identity times two"); }
  else { VTHROWS(ac::OutOfBoundException<size_t>, ac::checkColumnIndices(R, b, e), "invalid range"); VTHROWS(ac::OutOfBoundException<size_t>, ac::computeSumLogDiagR(R, b, e), "invalid range"); }
  s.nontrivial(!ok);
}

template <size_t M, size_t N> static void outer(vpt::Src& s) {
  Eigen::Matrix<double, M, 1> a; Eigen::Matrix<double, N, 1> b;
  for (size_t i = 0; i < M; ++i) a[i] = s.real(-10, 10);
  for (size_t i = 0; i < N; ++i) b[i] = s.real(-10, 10);
  Eigen::Matrix<double, M, N> P = OuterProduct::compute<double, M, N>(a, b);
  for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) VEQ(P(i, j), a[i] * b[j], "outer product " << i << "," << j);
  Eigen::Matrix<double, M, M> S = OuterProduct::compute<double, M>(a);
  for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) VEQ(S(i, j), a[i] * a[j], "self outer product " << i << "," << j);
}
CLAUSE(outer_product, 5000, 100000, "vectors of two or more elements") {
  switch (s.index(4)) {
    case 0: outer<1, 3>(s); break;
    case 1: outer<2, 2>(s); s.nontrivial(); break;
    case 2: outer<3, 5>(s); s.nontrivial(); break;
    default: outer<6, 4>(s); s.nontrivial();
  }
}

CLAUSE(large, 60, 1200, "more than 65535 elements") {
  const size_t n = s.chance(1, 3) ? 65530 + s.index(12) : 250 + s.index(s.flip() ? 20 : 90000);
  const uint64_t seed = s.choice(0), form = s.index(4);
  s.desc() << n << " elements, permutation " << form << " of seed " << seed << "\n";
  uint64_t x = seed;
  std::vector<size_t> p(n);
  for (size_t k = 0; k < n; ++k) p[k] = form == 1 ? (k + 1 + seed % n) % n : form == 2 ? n - 1 - k : k;
  if (form == 0 || form == 3) for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[vpt::splitmix(x) % k]);
  std::vector<double> in(n);
  for (size_t k = 0; k < n; ++k) in[k] = form == 3 ? (double)(k % 7) : k + 0.5;
  std::vector<double> out = in;
  VNOTHROW(ac::permute(out, p), "a valid permutation");
  VEQ(out.size(), n, "size");
  for (size_t k = 0; k < n; ++k) VCHECK(out[k] == in[p[k]], "element " << k << " is not the one at " << p[k]);
  if (s.flip()) {
    std::vector<unsigned> q(p.begin(), p.end());
    std::vector<std::string> a(n), b;
    for (size_t k = 0; k < n; ++k) a[k] = std::to_string(k);
    b = a;
    VNOTHROW(ac::permute(b, q), "a valid permutation of strings");
    for (size_t k = 0; k < n; ++k) VCHECK(b[k] == a[q[k]], "string " << k << " is not the one at " << q[k]);
  }
  // one wrong entry anywhere
  size_t i = s.index(n), j = (i + 1 + s.index(n - 1)) % n;
  std::vector<size_t> bad = p;
  bad[i] = s.flip() ? p[j] : n + (s.flip() ? 0 : (s.flip() ? ((size_t)1 << 32) - n + p[i] : s.index(1000)));
  out = in;
  VTHROWS(ac::OutOfBoundException<size_t>, ac::permute(out, bad), "entry " << i << " is " << bad[i] << " of " << n);
  VCHECK(out == in, "a refused permutation changed the container");
  s.nontrivial(n > 65535);
}
