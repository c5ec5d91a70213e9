// C06: what the estimator knows depends on the batches it holds, not on the way it got there
#include "est.hpp"
using namespace est;

// estimator holding `ids` (in this order), each forced in
static void fill(Est& e, Inst& in, const std::vector<size_t>& ids) { for (size_t i : ids) e.addBatch(in.batches[i], true); }

static Eigen::MatrixXd thetaMatrix(const Est& e, const World& w, const Inst& in, const Eigen::MatrixXd& m) {
  // rows/columns reordered by world variable index, so that two estimators are comparable
  std::map<const ab::DesignVariable*, int> col;
  int c = 0;
  for (auto v : e.getProblem()->getDesignVariablesGroup(w.marg)) if (v->isActive()) { col[v] = c; c += v->minimalDimensions(); }
  std::vector<int> idx;
  for (auto& v : in.vars) { auto it = col.find(v.get()); if (it != col.end()) for (int k = 0; k < v->minimalDimensions(); ++k) idx.push_back(it->second + k); }
  VCHECK((int)idx.size() == c && m.rows() == c && m.cols() == c, "covariance of the calibration variables is " << m.rows() << "x" << m.cols() << " for " << c << " dimensions");
  Eigen::MatrixXd r(c, c);
  for (int i = 0; i < c; ++i) for (int j = 0; j < c; ++j) r(i, j) = m(idx[i], idx[j]);
  return r;
}

CLAUSE(history, 2500, 50000, "a batch was removed or re-added while others remained, and two or more batches are held at the end") {
  Cfg c;
  c.fullRank = true;
  c.maxBatches = 5;
  World w = makeWorld(s, c);
  Inst a = instantiate(w), b = instantiate(w);
  bool scaling = s.chance(1, 4);
  Est e(w.marg, Est::Options(), solverOptions(scaling), optimizerOptions(20));
  std::vector<size_t> held;
  bool moved = false;
  std::set<size_t> toggled;
  size_t steps = w.batches.size() + s.index(8);
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    size_t i = s.index(w.batches.size());
    bool in = std::count(held.begin(), held.end(), i);
    if (k < w.batches.size() && !in) i = k, in = std::count(held.begin(), held.end(), i);
    if (!in) {
      bool hasMarg = !held.empty() && e.getProblem()->isGroupInProblem(w.marg);
      for (size_t v : w.batches[i].vars) hasMarg = hasMarg || w.vars[v].group == w.marg;
      if (!hasMarg) continue;
      bool force = !s.chance(1, 3);
      Ret r;
      try { r = e.addBatch(a.batches[i], force); } catch (const std::exception&) { continue; }  // nothing active yet
      op << "add " << i << (force ? " forced" : "") << (r.batchAccepted ? "" : " (rejected)");
      if (r.batchAccepted) held.push_back(i);
      VCHECK(r.batchAccepted || !force, "a forced batch is always kept");
    } else if (held.size() > 1 && s.flip()) {
      // keep the marginalized group in the problem
      bool ok = false;
      for (size_t j : held) if (j != i) for (size_t v : w.batches[j].vars) ok = ok || (w.vars[v].group == w.marg && w.vars[v].active);
      if (!ok) continue;
      size_t pos = std::find(held.begin(), held.end(), i) - held.begin();
      if (s.flip()) { e.removeBatch(a.batches[i]); op << "remove " << i; }
      else { e.removeBatch(pos); op << "remove by index " << pos; }
      held.erase(held.begin() + pos);
      moved = true;
      VEQ(e.getInformationGain(), 0.0, "after a removal");
    } else if (!held.empty()) {
      // a variable may be fixed or released in between
      if (s.chance(1, 3)) {
        size_t v = s.index(w.vars.size());
        w.vars[v].active = !w.vars[v].active;
        if (::est::usable(w, held)) { a.vars[v]->setActive(w.vars[v].active); toggled.insert(v); op << "variable " << v << (w.vars[v].active ? " activated, " : " deactivated, "); }
        else w.vars[v].active = !w.vars[v].active;
      }
      e.reoptimize();
      op << "reoptimize";
    }
    s.desc() << op.str() << "; ";
    VEQ(e.getNumBatches(), held.size(), "after " << op.str());
    for (size_t p = 0; p < held.size(); ++p) VCHECK(e.getProblem()->getOptimizationProblems()[p] == a.batches[held[p]], "batch " << p << " after " << op.str());
    if (!held.empty()) {
      margLast(e, "after " + op.str());
      int next = -1;
      for (size_t d = 0; d < e.getProblem()->numDesignVariables(); ++d) {
        bool m = e.getProblem()->getGroupId(e.getProblem()->designVariable(d)) == w.marg;
        VCHECK(m || next < 0, "a variable outside the marginalized group comes after it, after " << op.str());
        if (m) next = 1;
      }
    }
  }
  if (held.empty()) throw vpt::Discard();
  e.reoptimize();  // converged, whatever came last
  // a fresh estimator over the same batches, in an order of its own
  std::vector<size_t> order = permuted(held, s.permutation(held.size()));
  auto usable = [&](size_t i) { for (size_t v : w.batches[i].vars) if (w.vars[v].group == w.marg && w.vars[v].active) return true; return false; };
  auto first = std::find_if(order.begin(), order.end(), usable);
  if (first == order.end()) throw vpt::Discard();
  std::iter_swap(order.begin(), first);
  for (size_t v : toggled) { b.vars[v]->setActive(w.vars[v].active); if (!w.vars[v].active) b.vars[v]->x = a.vars[v]->x; }
  Est f(w.marg, Est::Options(), solverOptions(scaling), optimizerOptions(20));
  fill(f, b, order);
  f.reoptimize();
  s.desc() << "\nfresh order " << seq(order) << "\n";
  Info x = analyse(dense(*e.getProblem(), w.marg));
  if (x.ambiguous) throw vpt::Discard();
  std::set<size_t> used;
  for (size_t i : held) for (size_t v : w.batches[i].vars) used.insert(v);
  for (size_t v = 0; v < w.vars.size(); ++v) {
    if (used.count(v)) VMATF(a.vars[v]->x, b.vars[v]->x, 1e-6, 1, "estimate of variable " << v << " (group " << w.vars[v].group << ")");
    if (!w.vars[v].active && !toggled.count(v)) VCHECK(same(a.vars[v]->x, instantiate(w).vars[v]->x), "inactive variable " << v << " moved");
  }
  VEQ(e.getRankTheta(), x.rank, "rank");
  VEQ(f.getRankTheta(), x.rank, "rank of the fresh estimator");
  VEQ(e.getRankPsi(), f.getRankPsi(), "rank of the other variables");
  VEQ(e.getRankPsi(), x.psiRank, "rank of the other variables");
  VMAT(e.getSingularValues(), x.sv, 1e-6, "singular values");
  VMAT(e.getSingularValues(), f.getSingularValues(), 1e-6, "singular values");
  VMAT(thetaMatrix(e, w, a, e.getSigma2Theta()), thetaMatrix(f, w, b, f.getSigma2Theta()), 1e-5, "covariance of the calibration variables");
  VCLOSE(e.getFinalCost(), f.getFinalCost(), 1e-6, 1e-6, "cost");
  s.nontrivial(moved && held.size() >= 2);
}

// the estimate is the weighted least-squares solution over everything held
CLAUSE(optimum, 2500, 50000, "two or more batches, with variables outside the marginalized group") {
  Cfg c;
  c.fullRank = true;
  c.maxBatches = 4;
  World w = makeWorld(s, c);
  Inst in = instantiate(w);
  Est e(w.marg, Est::Options(), solverOptions(s.chance(1, 4)), optimizerOptions(20));
  for (size_t i = 0; i < in.batches.size(); ++i) { try { e.addBatch(in.batches[i], true); } catch (const std::exception&) { throw vpt::Discard(); } }
  // r(x) = J x - y with the weights folded in, over the active variables; the terms are linear
  Inst z = instantiate(w);
  ac::IncrementalOptimizationProblem p;
  for (auto& b : z.batches) p.add(b);
  auto ord = p.getGroupsOrdering();
  std::swap(*std::find(ord.begin(), ord.end(), w.marg), ord.back());
  p.setGroupsOrdering(ord);
  Dense d = dense(p, w.marg);
  Eigen::VectorXd r(d.J.rows());
  size_t k = 0;
  for (auto& ts : z.terms) for (auto& t : ts) r[k++] = std::sqrt(t->w) * t->value();
  Eigen::VectorXd dx = leastSquares(d.J, -r);
  int col = 0;
  for (size_t i = 0; i < p.numDesignVariables(); ++i) {
    auto v = static_cast<Var*>(p.designVariable(i));
    if (!v->isActive()) { VCHECK(same(in.vars[v->id]->x, v->x), "inactive variable " << v->id << " moved"); continue; }
    Eigen::VectorXd want = v->x + dx.segment(col, v->x.size());
    col += v->x.size();
    VMATF(in.vars[v->id]->x, want, 1e-6, 1, "estimate of variable " << v->id);
  }
  VCLOSE(e.getFinalCost(), (r + d.J * dx).squaredNorm(), 1e-6, 1e-6, "final cost");
  s.nontrivial(in.batches.size() >= 2 && d.margStart > 0);
}

// emptying the estimator brings it back to its initial state
CLAUSE(emptied, 1500, 30000, "all batches were removed and one was added again") {
  Cfg c;
  c.fullRank = s.flip();
  c.maxBatches = 3;
  World w = makeWorld(s, c);
  Inst a = instantiate(w), b = instantiate(w);
  bool scaling = s.flip();
  Est e(w.marg, Est::Options(), solverOptions(scaling), optimizerOptions(20)), f(w.marg, Est::Options(), solverOptions(scaling), optimizerOptions(20));
  std::vector<size_t> ids;
  for (size_t i = 0; i < a.batches.size(); ++i) if (i == 0 || s.flip()) { e.addBatch(a.batches[i], true); ids.push_back(i); }
  while (!ids.empty()) {
    size_t k = s.index(ids.size());
    // the last batch to go is one that keeps something to estimate until then (the first one does)
    if (ids.size() > 1 && ids[k] == 0) k = (k + 1) % ids.size();
    if (s.flip()) e.removeBatch(k); else e.removeBatch(a.batches[ids[k]]);
    ids.erase(ids.begin() + k);
    VEQ(e.getNumBatches(), ids.size(), "after a removal");
  }
  VEQ(e.getProblem()->numDesignVariables(), 0u, "after removing everything");
  VEQ(e.getProblem()->getNumGroups(), 0u, "after removing everything");
  sameStats(snap(e), snap(f), "estimator emptied compared to a new one");
  for (size_t i = 0; i < a.vars.size(); ++i) a.vars[i]->x = b.vars[i]->x;
  Ret r = e.addBatch(a.batches[0]), q = f.addBatch(b.batches[0]);
  VEQ(r.batchAccepted, q.batchAccepted, "first batch after emptying");
  VEQ(r.informationGain, q.informationGain, "first batch after emptying");
  sameStats(snap(e), snap(f), "first batch after emptying");
  s.nontrivial();
}

CLAUSE(refused_removal, 1500, 30000, "a batch was held") {
  Cfg c;
  c.maxBatches = 3;
  World w = makeWorld(s, c);
  Inst a = instantiate(w);
  Est e(w.marg, Est::Options(), solverOptions(false), optimizerOptions(20));
  size_t n = 0;
  for (auto& b : a.batches) if (n == 0 || s.flip()) { try { e.addBatch(b, true); n++; } catch (const std::exception&) {} }
  if (!n) throw vpt::Discard();
  Stats st = snap(e);
  auto vals = values(a);
  VTHROWS(OOB, e.removeBatch(n + s.index(4)), "index beyond the held batches");
  VNOTHROW(e.removeBatch(boost::make_shared<Batch>()), "a batch that is not held");
  VEQ(e.getNumBatches(), n, "after refused removals");
  sameStats(snap(e), st, "after refused removals");
  auto now = values(a);
  for (size_t i = 0; i < now.size(); ++i) VCHECK(same(now[i], vals[i]), "variable " << i << " moved by a refused removal");
  s.nontrivial();
}
