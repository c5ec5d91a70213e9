// scenario generator and dense oracle for the incremental estimator
#pragma once
#include "core.hpp"
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <sm/PropertyTree.hpp>

#include "oracle.hpp"

namespace est {
using namespace core;
typedef ac::IncrementalEstimator Est;
typedef Est::ReturnValue Ret;
typedef ac::OptimizationProblem Batch;
typedef boost::shared_ptr<Batch> BatchSP;

struct Cauchyish : public ab::MEstimator {
  double getWeight(double e2) const override { return 1.0 / (1.0 + e2 / 9.0); }
};

// the specification of a batch, from which any number of identical copies can be built
struct Spec {
  struct Term { std::vector<size_t> v; std::vector<std::vector<double> > A; double b, w, curv; bool robust; };
  std::vector<size_t> vars;  // indices of world variables, in insertion order
  std::vector<Term> terms;
};
struct World {
  size_t marg;
  struct V { int dim; size_t group; bool active; std::vector<double> x0; };
  std::vector<V> vars;
  size_t nTheta;
  std::vector<Spec> batches;
  bool linear;
};
// one instance of the world: its own variables and batches
struct Inst {
  std::vector<VarSP> vars;
  std::vector<BatchSP> batches;
  std::vector<std::vector<LinSP> > terms;
};

struct Cfg {
  bool fullRank = false;    // every variable gets its own measurement in every batch that contains it
  bool linear = true;
  bool zeroResidual = false;
  bool robust = false;
  size_t maxBatches = 5;
};

inline World makeWorld(vpt::Src& s, const Cfg& c) {
  World w;
  static const size_t margs[] = {2, 0, 1, 7};
  w.marg = margs[s.index(4)];
  w.linear = c.linear;
  auto vec = [&](int n) { std::vector<double> r; for (int i = 0; i < n; ++i) r.push_back((double)s.range(0, 6) - (s.flip() ? 6 : 0)); return r; };
  const bool big = s.chance(1, 40);
  if (big) s.label("large world");
  w.nTheta = 1 + s.index(big ? 12 : 3);
  bool anyActive = false;
  for (size_t i = 0; i < w.nTheta; ++i) {
    World::V v; v.dim = 1 + (int)s.index(3); v.group = w.marg; v.active = !s.chance(1, 6); v.x0 = vec(v.dim);
    anyActive = anyActive || v.active;
    w.vars.push_back(v);
  }
  if (!anyActive) w.vars[0].active = true;
  auto psi = [&](size_t g) { World::V v; v.dim = 1 + (int)s.index(2); v.group = g == w.marg ? g + 20 : g; v.active = !s.chance(1, 8); v.x0 = vec(v.dim); w.vars.push_back(v); return w.vars.size() - 1; };
  std::vector<size_t> shared;
  for (size_t n = s.index(big ? 12 : 3); n--;) shared.push_back(psi(4));
  size_t nb = 1 + s.index(big ? 5 * c.maxBatches : c.maxBatches);
  for (size_t b = 0; b < nb; ++b) {
    Spec sp;
    std::vector<size_t> th;
    for (size_t i = 0; i < w.nTheta; ++i) if (b == 0 || !s.chance(1, 4)) th.push_back(i);
    if (b == 0) { bool act = false; for (size_t i : th) act = act || w.vars[i].active; if (!act) for (size_t i = 0; i < w.nTheta; ++i) if (!std::count(th.begin(), th.end(), i)) th.push_back(i); }
    std::vector<size_t> ps;
    for (size_t i : shared) if (s.flip()) ps.push_back(i);
    for (size_t n = s.index(big && s.flip() ? 10 : 3); n--;) ps.push_back(psi(s.flip() ? 5 : 100 + b));
    // insertion order interleaved: which group comes first in the batch varies
    if (s.flip()) { sp.vars = th; sp.vars.insert(sp.vars.end(), ps.begin(), ps.end()); }
    else { sp.vars = ps; sp.vars.insert(sp.vars.end(), th.begin(), th.end()); }
    if (sp.vars.empty()) sp.vars.push_back(0);
    size_t nt = 1 + s.index(big ? 20 : 6);
    auto coef = [&](int d) { std::vector<double> r; for (int k = 0; k < d; ++k) r.push_back((double)s.range(0, 3) * (s.flip() ? -1 : 1)); return r; };
    auto finish = [&](Spec::Term& t) {
      static const double ws[] = {1, 4, 0.25, 9};
      t.w = ws[s.index(4)];
      t.curv = c.linear ? 0 : (s.flip() ? 0.002 : 0);
      t.robust = c.robust && s.flip();
      double val = 0;
      for (size_t k = 0; k < t.v.size(); ++k) for (size_t j = 0; j < t.A[k].size(); ++j) val += t.A[k][j] * w.vars[t.v[k]].x0[j];
      t.b = c.zeroResidual ? val : val + (double)s.range(0, 8) - 4;
    };
    if (b == 0) {  // something is known about the calibration variables
      Spec::Term t;
      for (size_t i : th) if (w.vars[i].active && t.v.empty()) { t.v.push_back(i); t.A.push_back(coef(w.vars[i].dim)); t.A[0][0] += t.A[0][0] < 0 ? -1 : 1; }
      finish(t);
      sp.terms.push_back(t);
    }
    for (size_t k = 0; k < nt; ++k) {
      Spec::Term t;
      auto perm = s.permutation(sp.vars.size());
      size_t n = 1 + s.index(std::min<size_t>(3, perm.size()));
      for (size_t j = 0; j < n; ++j) { t.v.push_back(sp.vars[perm[j]]); t.A.push_back(coef(w.vars[t.v.back()].dim)); }
      finish(t);
      sp.terms.push_back(t);
    }
    if (c.fullRank) for (size_t i : sp.vars) for (int d = 0; d < w.vars[i].dim; ++d) {
      Spec::Term t; t.v = {i};
      std::vector<double> a(w.vars[i].dim, 0.0); a[d] = 1; t.A = {a};
      finish(t);
      t.robust = false;
      sp.terms.push_back(t);
    }
    w.batches.push_back(sp);
  }
  s.note([&](std::ostream& o) {
    o << "marg=" << w.marg << " vars:";
    for (auto& v : w.vars) o << " (g" << v.group << " d" << v.dim << (v.active ? "" : " inactive") << ")";
    for (auto& b : w.batches) {
      o << "\n batch vars " << seq(b.vars) << " terms:";
      for (auto& t : b.terms) { o << " [b=" << t.b << " w=" << t.w; for (size_t k = 0; k < t.v.size(); ++k) o << " v" << t.v[k] << "*" << seq(t.A[k]); o << "]"; }
    }
    o << "\n";
  });
  return w;
}

inline Inst instantiate(const World& w) {
  Inst in;
  for (size_t i = 0; i < w.vars.size(); ++i) {
    auto v = boost::make_shared<Var>(w.vars[i].dim, (int)i);
    for (int k = 0; k < w.vars[i].dim; ++k) v->x[k] = w.vars[i].x0[k];
    v->setActive(w.vars[i].active);
    in.vars.push_back(v);
  }
  auto robust = boost::make_shared<Cauchyish>();
  for (auto& sp : w.batches) {
    auto b = boost::make_shared<Batch>();
    for (size_t i : sp.vars) b->addDesignVariable(in.vars[i], w.vars[i].group);
    std::vector<LinSP> ts;
    for (auto& t : sp.terms) {
      std::vector<Var*> vs; std::vector<Eigen::RowVectorXd> A;
      for (size_t k = 0; k < t.v.size(); ++k) { vs.push_back(in.vars[t.v[k]].get()); A.push_back(Eigen::Map<const Eigen::RowVectorXd>(t.A[k].data(), t.A[k].size())); }
      auto e = boost::make_shared<Lin>(vs, A, t.b, t.w, t.curv);
      if (t.robust) e->setMEstimatorPolicy(robust);
      b->addErrorTerm(e);
      ts.push_back(e);
    }
    in.batches.push_back(b);
    in.terms.push_back(ts);
  }
  return in;
}

// everything below is recomputed from the batches, independently of the estimator
struct Dense {
  Eigen::MatrixXd J;                 // weighted Jacobian, columns in the problem's order
  std::ptrdiff_t margStart = 0;
  double cost = 0;
};
inline Dense dense(const ac::IncrementalOptimizationProblem& p, size_t marg) {
  Dense d;
  std::map<const ab::DesignVariable*, int> col;
  int c = 0;
  for (size_t g : p.getGroupsOrdering()) {
    if (g == marg) d.margStart = c;
    for (auto v : p.getDesignVariablesGroup(g)) if (v->isActive()) { col[v] = c; c += v->minimalDimensions(); }
  }
  std::vector<const Lin*> ts;
  for (auto& b : p.getOptimizationProblems()) for (auto& e : b->getErrorTerms()) ts.push_back(static_cast<const Lin*>(e.get()));
  d.J = Eigen::MatrixXd::Zero(ts.size(), c);
  for (size_t r = 0; r < ts.size(); ++r) {
    double l = ts[r]->lin(), e = ts[r]->value(), sq = ts[r]->w * e * e, wt = ts[r]->weight(sq);
    d.cost += wt * sq;
    double f = std::sqrt(ts[r]->w * wt) * (1 + 3 * ts[r]->curvature * l * l);
    for (size_t k = 0; k < ts[r]->v.size(); ++k) {
      auto it = col.find(ts[r]->v[k]);
      if (it != col.end()) d.J.row(r).segment(it->second, ts[r]->A[k].size()) += f * ts[r]->A[k];
    }
  }
  return d;
}
inline Info analyse(const Dense& d) { return analyse(d.J, d.margStart); }
inline Eigen::MatrixXd scaleColumns(Eigen::MatrixXd J) { for (int c = 0; c < J.cols(); ++c) { double n = J.col(c).norm(); J.col(c) *= n > 1e-12 ? 1.0 / n : 0.0; } return J; }
inline Eigen::MatrixXd exposedJ(const Est& e) {
  const auto& c = e.getJacobianTranspose();
  return c.toDense().transpose();
}
inline ac::LinearSolverOptions solverOptions(bool scaling) {
  ac::LinearSolverOptions o;
  o.columnScaling = scaling;
  o.epsSVD = 1e-12; o.epsQR = 1e-12;
  return o;
}
inline Est::OptimizerOptions optimizerOptions(int maxIt) { Est::OptimizerOptions o; o.maxIterations = maxIt; o.convergenceDeltaJ = 1e-9; o.convergenceDeltaX = 1e-9; return o; }

#define VMAT(a, b, rel, expr) VMATF(a, b, rel, 1e-9, expr)
#define VMATF(a, b, rel, floor_, expr) do { const Eigen::MatrixXd a_ = (a), b_ = (b); \
  if (a_.rows() != b_.rows() || a_.cols() != b_.cols()) VFAIL(#a " has size " << a_.rows() << "x" << a_.cols() << ", expected " << b_.rows() << "x" << b_.cols() << " :: " << expr); \
  const double sc_ = b_.size() ? b_.cwiseAbs().maxCoeff() : 0; \
  if (a_.size() && !((a_ - b_).cwiseAbs().maxCoeff() <= (rel) * (sc_ + (floor_)))) VFAIL(#a " ~ " #b " :: got\n" << a_ << "\nexpected\n" << b_ << " :: " << expr); } while (0)

// the published statistics as one comparable record
struct Stats {
  double gain, svdTol, qrTol, flops, j0, j1;
  std::ptrdiff_t rt, rtd, rp, rpd;
  size_t peak, mem;
  Eigen::MatrixXd m[8];
  Eigen::VectorXd sv[2];
};
inline Stats snap(const Est& e) {
  Stats r;
  r.gain = e.getInformationGain(); r.svdTol = e.getSVDTolerance(); r.qrTol = e.getQRTolerance(); r.flops = e.getNumFlops();
  r.j0 = e.getInitialCost(); r.j1 = e.getFinalCost();
  r.rt = e.getRankTheta(); r.rtd = e.getRankThetaDeficiency(); r.rp = e.getRankPsi(); r.rpd = e.getRankPsiDeficiency();
  r.peak = e.getPeakMemoryUsage(); r.mem = e.getMemoryUsage();
  for (int k = 0; k < 2; ++k) { r.m[4 * k] = e.getNobsBasis(k); r.m[4 * k + 1] = e.getObsBasis(k); r.m[4 * k + 2] = e.getSigma2Theta(k); r.m[4 * k + 3] = e.getSigma2ThetaObs(k); r.sv[k] = e.getSingularValues(k); }
  return r;
}
inline void sameStats(const Stats& a, const Stats& b, const std::string& at) {
  VCHECK(a.gain == b.gain, "information gain " << a.gain << " was " << b.gain << " " << at);
  VCHECK(a.svdTol == b.svdTol && a.qrTol == b.qrTol, "tolerances " << at);
  VCHECK(a.flops == b.flops && a.peak == b.peak && a.mem == b.mem, "resource figures " << at);
  VCHECK(a.j0 == b.j0 && a.j1 == b.j1, "costs " << a.j0 << "," << a.j1 << " were " << b.j0 << "," << b.j1 << " " << at);
  VCHECK(a.rt == b.rt && a.rtd == b.rtd && a.rp == b.rp && a.rpd == b.rpd, "ranks " << at);
  for (int k = 0; k < 8; ++k) VCHECK(same(a.m[k], b.m[k]), "statistic matrix " << k << " " << at);
  for (int k = 0; k < 2; ++k) VCHECK(same(a.sv[k], b.sv[k]), "singular values " << k << " " << at);
}
// whether the batches of `ids` leave the optimizer something to estimate
inline bool usable(const World& w, const std::vector<size_t>& ids) {
  for (size_t i : ids) for (size_t v : w.batches[i].vars) if (w.vars[v].group == w.marg && w.vars[v].active) return true;
  return false;
}
inline std::vector<Eigen::MatrixXd> values(const Inst& in) { std::vector<Eigen::MatrixXd> r; for (auto& v : in.vars) r.push_back(v->x); return r; }
inline void margLast(const Est& e, const std::string& at) {
  const auto& o = e.getProblem()->getGroupsOrdering();
  VCHECK(!o.empty() && o.back() == e.getMargGroupId(), "marginalized group " << e.getMargGroupId() << " is not last in " << seq(o) << " " << at);
}
}  // namespace est
