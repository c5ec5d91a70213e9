// C12: a grid partitions its domain: every point in range has exactly one cell, every valid index exactly one slot
#include "vpt.hpp"
#include <Eigen/Core>
#include <set>
#include <sstream>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
namespace ac = aslam::calibration;

template <typename V> std::string show(const V& v) { std::ostringstream o; o << v.transpose(); return o.str(); }

template <typename G> static void slots(vpt::Src& s, G& g, const typename G::Index& n) {
  typedef typename G::Index Index;
  const int d = (int)n.size();
  size_t tot = 1;
  for (int i = 0; i < d; ++i) tot *= n(i);
  VEQ(g.getNumCellsTot(), tot, "total number of cells");
  VEQ(g.getCells().size(), tot, "cells");
  VEQ((size_t)std::distance(g.getCellBegin(), g.getCellEnd()), tot, "cells between the iterators");
  VCHECK(g.getNumCells() == n, "cells per dimension " << show(g.getNumCells()));
  // every valid index is visited once, and has a slot of its own
  const G& cg = g;
  std::set<std::vector<int> > seen;
  std::set<size_t> lin;
  std::set<const int*> addr;
  Index i = Index::Zero(d);
  for (size_t k = 0; k < tot; ++k) {
    std::vector<int> key(i.data(), i.data() + d);
    VCHECK(g.isValidIndex(i), "index " << show(i) << " met while incrementing");
    VCHECK(seen.insert(key).second, "index " << show(i) << " visited twice");
    size_t l = g.computeLinearIndex(i);
    VCHECK(l < tot && lin.insert(l).second, "linear index " << l << " of " << show(i));
    VCHECK(addr.insert(&g.getCell(i)).second, "cell of " << show(i) << " is shared");
    VCHECK(&g.getCell(i) == &g[i] && &cg.getCell(i) == &g.getCell(i) && &cg[i] == &g[i] && &g.getCells()[l] == &g[i], "access paths to " << show(i));
    g[i] = (int)k + 1;
    VCHECK(&g.incrementIndex(i) == &i, "incrementIndex returns its argument");
  }
  VCHECK(i == n, "the end of the iteration is " << show(i) << ", expected " << show(n));
  i = Index::Zero(d);
  for (size_t k = 0; k < tot; ++k, g.incrementIndex(i)) VEQ(g[i], (int)k + 1, "content of " << show(i));
  // printed: the cells in their order, last
  if (s.chance(1, 8)) {
    std::ostringstream o;
    o << g;
    std::istringstream in(o.str());
    std::vector<double> num;
    std::string w;
    while (in >> w) { char* e = 0; double x = std::strtod(w.c_str(), &e); if (e && !*e) num.push_back(x); }
    VCHECK(num.size() >= tot, "printed as " << o.str());
    for (size_t k = 0; k < tot; ++k) VEQ(num[num.size() - tot + k], (double)g.getCells()[k], "printed cell " << k << " of\n" << o.str());
  }
  // indices outside
  for (int t = 0; t < 3; ++t) {
    Index j(d);
    for (int k = 0; k < d; ++k) j(k) = (int)s.range(-2, n(k) + 1);
    bool ok = true;
    for (int k = 0; k < d; ++k) ok = ok && j(k) >= 0 && j(k) < n(k);
    VEQ(g.isValidIndex(j), ok, "validity of " << show(j));
    if (!ok) {
      VTHROWS(ac::OutOfBoundException<Index>, g.getCell(j), "index " << show(j));
      VTHROWS(ac::OutOfBoundException<Index>, cg.getCell(j), "index " << show(j));
      VTHROWS(ac::OutOfBoundException<Index>, g[j], "index " << show(j));
      VTHROWS(ac::OutOfBoundException<Index>, cg.getCoordinates(j), "index " << show(j));
    }
  }
  // copies are independent, reset clears
  G c(g);
  Index z = Index::Zero(d);
  c[z] = -5;
  VEQ(g[z], 1, "a copy shares cells with the original");
  g.reset();
  for (auto it = g.getCellBegin(); it != g.getCellEnd(); ++it) VEQ(*it, 0, "after reset");
  VEQ(c[z], -5, "resetting the original resets the copy");
  g = c;
  VCHECK(g.getCells() == c.getCells() && g.getNumCells() == c.getNumCells() && g.getMinimum() == c.getMinimum() && g.getMaximum() == c.getMaximum() && g.getResolution() == c.getResolution() && g.getNumCellsTot() == c.getNumCellsTot(), "assignment");
  g = *&g;
  VEQ(g[z], -5, "self assignment");
  {
    typename G::Coordinate one(d), big(d), unit(d);
    for (int k = 0; k < d; ++k) { one(k) = 0; big(k) = 35; unit(k) = 7; }
    G f(one, big, unit);
    f = c;
    VCHECK(f.getCells() == c.getCells() && f.getNumCells() == c.getNumCells() && f.getMinimum() == c.getMinimum() && f.getMaximum() == c.getMaximum() && f.getResolution() == c.getResolution() && f.getNumCellsTot() == c.getNumCellsTot(), "assignment to a grid of another geometry");
    Index q = Index::Zero(d);
    for (size_t k = 0; k < tot; ++k, f.incrementIndex(q)) VCHECK(f.isValidIndex(q) && f[q] == c[q] && f.getCoordinates(q) == c.getCoordinates(q), "cell " << show(q) << " of a grid assigned over another geometry");
  }
  Index last = n.array() - 1;
  g[last] = 17;
  VCHECK(tot == 1 || c[last] != 17, "assigned grid shares cells");
}

// one point: its index is valid, its cell contains it, all access paths agree
template <typename G, typename T> static typename G::Index located(G& g, const typename G::Coordinate& p) {
  typedef typename G::Index Index;
  const G& cg = g;
  Index i;
  try { i = g.getIndex(p); } catch (const std::exception& e) { VFAIL("point " << show(p) << " in range has no index: " << e.what()); }
  VCHECK(g.isValidIndex(i), "index " << show(i) << " of the point " << show(p) << " in range is not valid");
  VNOTHROW(g(p), "access to the point " << show(p));
  VCHECK(&g(p) == &g[i] && &cg(p) == &cg[i], "cell of the point " << show(p));
  return i;
}

// parameters that floating point represents exactly: the cell is known exactly
template <typename T, int M> static void exact(vpt::Src& s, int d) {
  typedef ac::Grid<T, int, M> G;
  typedef typename G::Coordinate C; typedef typename G::Index Index;
  C lo(d), hi(d), res(d);
  Index n(d);
  Eigen::VectorXi r8(d), l8(d), w8(d);  // in eighths
  for (int i = 0; i < d; ++i) {
    r8[i] = 1 + (int)s.index(12); l8[i] = (int)s.range(-40, 40);
    int cells = 1 + (int)s.index(d > 2 ? 3 : 6);
    int part = s.flip() ? 0 : (int)s.index(r8[i]);
    w8[i] = cells * r8[i] + part;
    n(i) = cells + (part ? 1 : 0);
    lo(i) = T(l8[i]) / 8; res(i) = T(r8[i]) / 8; hi(i) = T(l8[i] + w8[i]) / 8;
  }
  s.note([&](std::ostream& o) { o << "min " << show(lo) << " max " << show(hi) << " resolution " << show(res) << "\n"; });
  G g(lo, hi, res);
  VCHECK(g.getMinimum() == lo && g.getMaximum() == hi && g.getResolution() == res, "parameters");
  slots(s, g, n);
  bool inside = false;
  for (int t = 0; t < 6; ++t) {
    C p(d); Index want(d); bool ok = true;
    for (int i = 0; i < d; ++i) {
      int k;
      switch (s.index(5)) {
        case 0: k = 0; break;
        case 1: k = w8[i]; break;
        case 2: k = r8[i] * (int)s.index(w8[i] / r8[i] + 1); break;
        case 3: k = (int)s.range(-r8[i], w8[i] + r8[i]); break;
        default: k = (int)s.index(w8[i] + 1);
      }
      p(i) = T(l8[i] + k) / 8;
      ok = ok && k >= 0 && k <= w8[i];
      want(i) = k == w8[i] ? n(i) - 1 : k / r8[i];
    }
    VEQ(g.isInRange(p), ok, "range of " << show(p));
    if (!ok) { VTHROWS(ac::OutOfBoundException<C>, g.getIndex(p), "point " << show(p)); VTHROWS_ANY(g(p), "point " << show(p)); continue; }
    Index i = located<G, T>(g, p);
    VCHECK(i == want, "index of " << show(p) << " is " << show(i) << ", expected " << show(want));
    C c = g.getCoordinates(i);
    for (int k = 0; k < d; ++k) VEQ(c(k), lo(k) + (i(k) + T(0.5)) * res(k), "centre of " << show(i));
    if (g.isInRange(c)) VCHECK(g.getIndex(c) == i, "the centre of " << show(i) << " lies in " << show(g.getIndex(c)));
    inside = true;
  }
  s.nontrivial(inside && n.maxCoeff() > 1);
}

// arbitrary parameters: rounding decides near the borders, but a point in range always has a cell
template <typename T, int M> static void rounded(vpt::Src& s, int d) {
  typedef ac::Grid<T, int, M> G;
  typedef typename G::Coordinate C; typedef typename G::Index Index;
  C lo(d), hi(d), res(d);
  for (int i = 0; i < d; ++i) {
    lo(i) = (T)s.real(-100, 100);
    res(i) = (T)s.logReal(1e-3, 1e3);
    double cells = s.flip() ? 1 + (double)s.index(6) : s.real(1.001, 6);
    hi(i) = lo(i) + (T)cells * res(i);
    if (!(hi(i) - lo(i) >= res(i))) hi(i) = lo(i) + res(i) * T(1.5);
    if (!(hi(i) > lo(i)) || res(i) > hi(i) - lo(i)) throw vpt::Discard();
  }
  s.note([&](std::ostream& o) { o.precision(17); o << "min " << show(lo) << " max " << show(hi) << " resolution " << show(res) << "\n"; });
  G g(lo, hi, res);
  const double eps = std::numeric_limits<T>::epsilon();
  for (int i = 0; i < d; ++i) {
    double q = ((double)hi(i) - (double)lo(i)) / (double)res(i), slack = 64 * eps * (1 + (std::fabs((double)hi(i)) + std::fabs((double)lo(i))) / (double)res(i));
    VCHECK(g.getNumCells()(i) >= std::ceil(q - slack) && g.getNumCells()(i) <= std::ceil(q + slack), "cells " << g.getNumCells()(i) << " for " << q << " resolutions");
  }
  bool border = false;
  for (int t = 0; t < 8; ++t) {
    C p(d);
    for (int i = 0; i < d; ++i) {
      T v;
      switch (s.index(4)) {
        case 0: v = hi(i); for (size_t k = s.index(3); k--;) v = std::nextafter(v, lo(i)); border = true; break;
        case 1: v = lo(i); for (size_t k = s.index(3); k--;) v = std::nextafter(v, hi(i)); break;
        case 2: v = lo(i) + (T)s.index(7) * res(i); break;
        default: v = lo(i) + (T)s.unit() * (hi(i) - lo(i));
      }
      p(i) = v;
    }
    bool ok = true;
    for (int i = 0; i < d; ++i) ok = ok && p(i) >= lo(i) && p(i) <= hi(i);
    VEQ(g.isInRange(p), ok, "range of " << show(p));
    if (!ok) { VTHROWS(ac::OutOfBoundException<C>, g.getIndex(p), "point " << show(p)); continue; }
    Index i = located<G, T>(g, p);
    for (int k = 0; k < d; ++k) {
      double a = (double)lo(k) + (double)i(k) * (double)res(k), b = a + (double)res(k), tol = 64 * eps * ((double)res(k) * (1 + i(k)) + std::fabs((double)lo(k)) + std::fabs((double)hi(k)));
      VCHECK((double)p(k) >= a - tol && (double)p(k) <= b + tol, "point " << show(p) << " lies in cell " << show(i) << " that covers " << a << ".." << b << " in dimension " << k);
    }
  }
  s.nontrivial(border);
}

CLAUSE(exact, 25000, 500000, "more than one cell in some dimension and a point in range") {
  switch (s.index(7)) {
    case 0: exact<double, 1>(s, 1); break;
    case 1: exact<double, 2>(s, 2); break;
    case 2: exact<double, 3>(s, 3); break;
    case 3: exact<double, Eigen::Dynamic>(s, 1 + (int)s.index(3)); break;
    case 4: exact<float, 2>(s, 2); break;
    default: exact<double, 2>(s, 2);
  }
}
CLAUSE(rounding, 40000, 800000, "a point at or within two floating-point steps of the maximum") {
  switch (s.index(5)) {
    case 0: rounded<double, 1>(s, 1); break;
    case 1: rounded<double, 2>(s, 2); break;
    case 2: rounded<float, 1>(s, 1); break;
    case 3: rounded<double, Eigen::Dynamic>(s, 1 + (int)s.index(3)); break;
    default: rounded<float, 3>(s, 3);
  }
}

// integer grids: the maximum belongs to the domain
CLAUSE(integers, 20000, 400000, "a resolution above one") {
  typedef ac::Grid<int, int, 2> G;
  G::Coordinate lo, hi, res; G::Index n;
  for (int i = 0; i < 2; ++i) { lo(i) = (int)s.range(-20, 20); res(i) = 1 + (int)s.index(5); hi(i) = lo(i) + res(i) + (int)s.index(20); n(i) = (hi(i) - lo(i)) / res(i) + 1; }
  s.desc() << "min " << show(lo) << " max " << show(hi) << " resolution " << show(res) << "\n";
  G g(lo, hi, res);
  slots(s, g, n);
  for (int t = 0; t < 6; ++t) {
    G::Coordinate p((int)s.range(lo(0) - 3, hi(0) + 3), (int)s.range(lo(1) - 3, hi(1) + 3));
    bool ok = (p.array() >= lo.array()).all() && (p.array() <= hi.array()).all();
    VEQ(g.isInRange(p), ok, "range of " << show(p));
    if (!ok) { VTHROWS(ac::OutOfBoundException<G::Coordinate>, g.getIndex(p), "point " << show(p)); continue; }
    G::Index i = located<G, int>(g, p);
    for (int k = 0; k < 2; ++k) VEQ(i(k), (p(k) - lo(k)) / res(k), "index of " << show(p) << " in dimension " << k);
    VCHECK(g.getIndex(g.getCoordinates(i).cwiseMin(hi)) == i, "the centre of " << show(i) << " lies elsewhere");
  }
  s.nontrivial(res.maxCoeff() > 1);
}

CLAUSE(parameters, 20000, 200000, "the parameters are invalid") {
  typedef ac::Grid<double, int, 2> G;
  Eigen::Vector2d lo, hi, res;
  for (int i = 0; i < 2; ++i) { lo(i) = (double)s.range(-3, 3); hi(i) = lo(i) + (double)s.range(-2, 6); res(i) = (double)s.range(-2, 6) * 0.5; }
  s.desc() << "min " << show(lo) << " max " << show(hi) << " resolution " << show(res) << "\n";
  bool ok = (res.array() > 0).all() && (lo.array() < hi.array()).all() && (res.array() <= (hi - lo).array()).all();
  if (ok) VNOTHROW(G(lo, hi, res), "valid parameters");
  else VTHROWS(ac::BadArgumentException<Eigen::Vector2d>, G(lo, hi, res), "invalid parameters");
  s.nontrivial(!ok);
}

// many cells
template <typename T, int M> static void many(vpt::Src& s) {
  typedef ac::Grid<T, int, M> G;
  typename G::Coordinate lo, hi, res;
  typename G::Index n;
  static const size_t most[] = {0, 200000, 600, 60};
  size_t tot = 1;
  for (int i = 0; i < M; ++i) {
    n(i) = 1 + (int)s.index(most[M]);
    res(i) = (T)(1 + s.index(3)) * (std::numeric_limits<T>::is_integer ? T(2) : T(0.25));
    lo(i) = (T)((double)s.range(-100000, 100000) / (std::numeric_limits<T>::is_integer ? 1 : 4));
    hi(i) = lo(i) + res(i) * (T)n(i);
    if (std::numeric_limits<T>::is_integer) n(i)++;
    tot *= n(i);
  }
  s.desc() << "min " << show(lo) << " max " << show(hi) << " resolution " << show(res) << " cells " << show(n) << "\n";
  G g(lo, hi, res);
  VEQ(g.getNumCellsTot(), tot, "total number of cells");
  VEQ(g.getCells().size(), tot, "cells");
  VCHECK(g.getNumCells() == n, "cells per dimension " << show(g.getNumCells()));
  std::vector<bool> hit(tot, false);
  typename G::Index i = G::Index::Zero();
  for (size_t k = 0; k < tot; ++k, g.incrementIndex(i)) {
    size_t l = g.computeLinearIndex(i);
    VCHECK(l < tot && !hit[l], "linear index " << l << " of " << show(i));
    hit[l] = true;
    VCHECK(&g.getCell(i) == &g.getCells()[l], "cell of " << show(i));
    g[i] = (int)k + 1;
  }
  VCHECK(i == n, "the end of the iteration is " << show(i));
  for (int t = 0; t < 200; ++t) {
    typename G::Index j;
    typename G::Coordinate p;
    int64_t order = 0;
    for (int k = 0; k < M; ++k) { j(k) = s.chance(1, 6) ? n(k) - 1 : (int)s.index(n(k)); order = order * n(k) + j(k); p(k) = lo(k) + (T)j(k) * res(k) + (std::numeric_limits<T>::is_integer ? T(s.index(2)) : res(k) / 2); p(k) = std::min(p(k), hi(k)); }
    VCHECK(g.getIndex(p) == j, "point " << show(p) << " is in " << show(g.getIndex(p)) << ", expected " << show(j));
    VCHECK(&g(p) == &g[j], "cell at " << show(p));
    int was = g[j];
    g(p) = -was;
    VEQ(g[j], -was, "written at " << show(p));
    g(p) = was;
    VCHECK(was == order + 1 || was == g.getCells()[g.computeLinearIndex(j)], "content of " << show(j));
    typename G::Index bad = j;
    int k = (int)s.index(M);
    static const int off[] = {std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), -1, -65536};
    size_t q = s.index(5);
    bad(k) = q == 4 ? n(k) : off[q];
    VCHECK(!g.isValidIndex(bad), "index " << show(bad) << " is valid");
    VTHROWS(ac::OutOfBoundException<typename G::Index>, g.getCell(bad), "index " << show(bad));
    VTHROWS(ac::OutOfBoundException<typename G::Index>, g.getCoordinates(bad), "index " << show(bad));
  }
  s.nontrivial(tot > 65536);
}
CLAUSE(large, 40, 1000, "more than 65536 cells") {
  switch (s.index(5)) {
    case 0: many<double, 1>(s); break;
    case 1: many<int, 1>(s); break;
    case 2: many<double, 2>(s); break;
    case 3: many<int, 2>(s); break;
    default: many<double, 3>(s);
  }
}
