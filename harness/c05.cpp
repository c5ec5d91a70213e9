// C05: a batch that is rejected, refused or fails leaves no trace in the estimator
#include "est.hpp"
using namespace est;

struct Snapshot {
  std::vector<Eigen::MatrixXd> vals;
  Stats st;
  std::vector<size_t> order;
  std::vector<const ab::DesignVariable*> dvs;
  std::vector<BatchSP> batches;
  size_t nEt;
};
static Snapshot take(const Est& e, const Inst& in) {
  Snapshot r;
  r.vals = values(in);
  r.st = snap(e);
  r.order = e.getProblem()->getGroupsOrdering();
  for (size_t i = 0; i < e.getProblem()->numDesignVariables(); ++i) r.dvs.push_back(e.getProblem()->designVariable(i));
  r.batches = e.getProblem()->getOptimizationProblems();
  r.nEt = e.getProblem()->numErrorTerms();
  return r;
}
static void unchanged(const Est& e, const Inst& in, const World& w, const Snapshot& b, bool solver, const std::string& at) {
  Snapshot a = take(e, in);
  for (size_t i = 0; i < a.vals.size(); ++i) VCHECK(same(a.vals[i], b.vals[i]), "variable " << i << " (group " << w.vars[i].group << ") is " << a.vals[i].transpose() << ", was " << b.vals[i].transpose() << " " << at);
  sameStats(a.st, b.st, at);
  VCHECK(a.order == b.order, "group ordering " << seq(a.order) << " was " << seq(b.order) << " " << at);
  VCHECK(a.dvs == b.dvs, "design variables of the problem " << at);
  VCHECK(a.batches == b.batches, "batches of the problem " << at);
  VEQ(a.nEt, b.nEt, "error terms " << at);
  VEQ(e.getNumBatches(), b.batches.size(), at);
  if (!b.batches.empty() && solver && e.getProblem()->isGroupInProblem(w.marg)) {
    margLast(e, at);
    Dense d = dense(*e.getProblem(), w.marg);
    VMAT(exposedJ(e), d.J, 1e-9, "exposed Jacobian is that of the remaining batches at the restored values " << at);
    auto ls = const_cast<Est&>(e).getOptimizer().getSolver<ac::LinearSolver>();
    VEQ(ls->getMargStartIndex(), d.margStart, "first calibration column of the linear system " << at);
    int c = 0, blk = 0;
    for (size_t i = 0; i < e.getProblem()->numDesignVariables(); ++i) {
      auto v = e.getProblem()->designVariable(i);
      if (!v->isActive()) continue;
      VCHECK(v->columnBase() == c && v->blockIndex() == blk, "column of a remaining variable: base " << v->columnBase() << " expected " << c << " block " << v->blockIndex() << " expected " << blk << " " << at);
      c += v->minimalDimensions(); blk++;
    }
    size_t row = 0;
    for (size_t i = 0; i < e.getProblem()->numErrorTerms(); ++i) {
      auto t = e.getProblem()->errorTerm(i);
      VEQ(t->rowBase(), row, "row of a remaining error term " << at);
      row += t->dimension();
    }
  }
}

CLAUSE(trace, 3000, 60000, "a non-forced batch was rejected while other batches were held, or a batch failed") {
  Cfg c;
  c.linear = !s.chance(1, 3);
  c.robust = s.chance(1, 4);
  c.fullRank = s.chance(1, 2);
  c.maxBatches = 5;
  World w = makeWorld(s, c);
  Inst in = instantiate(w);
  Est::Options o;
  o.infoGainDelta = s.flip() ? 1e9 : 0.5;
  o.checkValidity = s.chance(1, 4);
  Est e(w.marg, o, solverOptions(s.chance(1, 4)), optimizerOptions(1 + (int)s.index(8)));
  s.desc() << "delta=" << o.infoGainDelta << " checkValidity=" << o.checkValidity << "\n";
  std::vector<bool> held(in.batches.size(), false);
  for (size_t k = 0; k < 2 + 2 * w.batches.size(); ++k) {
    size_t b = k < w.batches.size() ? k : s.index(w.batches.size());
    if (held[b]) {
      // a batch already held cannot be added again
      if (!s.chance(1, 3)) continue;
      Snapshot before = take(e, in);
      VTHROWS(InvalidOp, e.addBatch(in.batches[b], s.flip()), "a batch already held");
      unchanged(e, in, w, before, false, "after a batch already held was refused");
      continue;
    }
    bool any = std::count(held.begin(), held.end(), true) > 0;
    Snapshot before = take(e, in);
    size_t mode = s.choice(8);
    std::ostringstream at;
    if (mode == 0) {
      // an error term of the batch cannot be evaluated
      auto t = in.terms[b][s.index(in.terms[b].size())];
      t->explode = true;
      bool force = s.flip();
      at << "batch " << b << " with a failing error term" << (force ? ", forced" : "");
      VTHROWS_ANY(e.addBatch(in.batches[b], force), at.str());
      t->explode = false;
      unchanged(e, in, w, before, any, "after " + at.str());
      s.nontrivial(any);
      s.label("failed");
      s.desc() << at.str() << "\n";
      continue;
    }
    if (mode == 1) {
      // a variable of the problem under another group id
      auto bad = boost::make_shared<Batch>();
      bad->addDesignVariable(boost::make_shared<Var>(2, -1), 999);
      size_t v = s.index(w.vars.size());
      bad->addDesignVariable(in.vars[v], 998);
      if (!e.getProblem()->isDesignVariableInProblem(in.vars[v].get())) continue;
      VTHROWS(InvalidOp, e.addBatch(bad, s.flip()), "group mismatch");
      unchanged(e, in, w, before, false, "after a group mismatch");
      s.label("mismatch");
      continue;
    }
    if (mode == 2 && !any) {
      // the marginalized group is absent
      auto bad = boost::make_shared<Batch>();
      auto v = boost::make_shared<Var>(2, -1);
      bad->addDesignVariable(v, w.marg + 1000);
      VTHROWS_ANY(e.addBatch(bad, s.flip()), "no marginalized group");
      unchanged(e, in, w, before, false, "after a batch without the marginalized group");
      s.label("no-marg");
      s.nontrivial();
      continue;
    }
    bool force = s.chance(1, 4);
    at << "batch " << b << (force ? " forced" : "");
    Ret r;
    try { r = e.addBatch(in.batches[b], force); }
    catch (const std::exception& x) {  // no marginalized group, or nothing to optimize
      bool active = false, marg = e.getProblem()->isGroupInProblem(w.marg);
      for (size_t i : w.batches[b].vars) { active = active || w.vars[i].active; marg = marg || w.vars[i].group == w.marg; }
      for (size_t i = 0; i < e.getProblem()->numDesignVariables(); ++i) active = active || e.getProblem()->designVariable(i)->isActive();
      VCHECK(!active || !marg, "unexpected exception " << x.what() << " " << at.str());
      unchanged(e, in, w, before, any, "after a refused " + at.str());
      s.label("refused");
      continue;
    }
    s.desc() << at.str() << (r.batchAccepted ? " accepted\n" : " rejected\n");
    if (r.batchAccepted) { held[b] = true; margLast(e, at.str()); }
    else {
      unchanged(e, in, w, before, any, "after the rejection of " + at.str());
      s.label(any ? "rejected-with-others" : "rejected-first");
      s.nontrivial(any);
    }
  }
}

// an estimator that saw rejected batches in between behaves from then on like one that never saw them
CLAUSE(twin, 2500, 50000, "at least one batch was rejected before a later operation") {
  Cfg c;
  c.linear = !s.chance(1, 3);
  c.fullRank = true;
  c.maxBatches = 5;
  World w = makeWorld(s, c);
  Inst a = instantiate(w), b = instantiate(w);
  bool scaling = s.chance(1, 4);
  int maxIt = 1 + (int)s.index(8);
  Est::Options o;
  Est ea(w.marg, o, solverOptions(scaling), optimizerOptions(maxIt)), eb(w.marg, o, solverOptions(scaling), optimizerOptions(maxIt));
  bool rejected = false, later = false;
  std::vector<size_t> held;
  for (size_t k = 0; k < w.batches.size(); ++k) {
    bool reject = !held.empty() && s.flip();
    if (reject) {
      auto t = a.terms[k][s.index(a.terms[k].size())];
      bool fail = s.chance(1, 4);
      t->explode = fail;
      ea.getOptions().checkValidity = true;
      ea.getOptions().infoGainDelta = 1e300;
      int keep = ea.getOptimizerOptions().maxIterations;
      if (fail) { VTHROWS_ANY(ea.addBatch(a.batches[k], s.flip()), "failing term"); rejected = true; }
      else {
        Ret r = ea.addBatch(a.batches[k]);
        if (r.batchAccepted) {  // the rank rose
          eb.getOptions() = ea.getOptions();
          Ret q = eb.addBatch(b.batches[k]);
          VCHECK(q.batchAccepted, "twin");
          held.push_back(k);
        } else rejected = true;
      }
      t->explode = false;
      (void)keep;
      ea.getOptions() = o; eb.getOptions() = o;
      s.desc() << "batch " << k << " offered to one only\n";
    } else {
      bool force = s.flip();
      Ret r = ea.addBatch(a.batches[k], force), q = eb.addBatch(b.batches[k], force);
      VEQ(r.batchAccepted, q.batchAccepted, "batch " << k);
      VEQ(r.informationGain, q.informationGain, "batch " << k);
      VEQ(r.JStart, q.JStart, "batch " << k);
      VEQ(r.numIterations, q.numIterations, "batch " << k);
      if (r.batchAccepted) held.push_back(k);
      later = later || rejected;
      s.desc() << "batch " << k << (r.batchAccepted ? " accepted by both\n" : " rejected by both\n");
    }
    if (!held.empty() && s.chance(1, 4)) { Ret r = ea.reoptimize(), q = eb.reoptimize(); VEQ(r.JFinal, q.JFinal, "reoptimize"); later = later || rejected; s.desc() << "reoptimize\n"; }
    for (size_t i = 0; i < a.vars.size(); ++i) VCHECK(same(a.vars[i]->x, b.vars[i]->x) , "variable " << i << " " << a.vars[i]->x.transpose() << " and " << b.vars[i]->x.transpose());
    sameStats(snap(ea), snap(eb), "after batch " + std::to_string(k));
    VCHECK(ea.getProblem()->getGroupsOrdering() == eb.getProblem()->getGroupsOrdering(), "ordering after batch " << k);
  }
  s.nontrivial(rejected && later);
}
