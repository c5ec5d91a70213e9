// C44: what is held lives exactly as long as it is held
#include <boost/weak_ptr.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "est.hpp"
using namespace est;
typedef ab::AslamTruncatedSvdSolver Solver;
typedef boost::weak_ptr<void> Weak;

static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
// the same work over and over: what is allocated settles
template <typename F> static void settles(F work, const std::string& what) {
  size_t b[6];
  for (int k = 0; k < 6; ++k) { work(); b[k] = bytes(); }
  VCHECK(b[5] <= b[4] || b[4] <= b[3] || b[3] <= b[2], what << ": " << b[3] - b[2] << ", " << b[4] - b[3] << ", " << b[5] - b[4] << " more bytes after each repetition");
}

// ---- one batch ----
CLAUSE(batch, 15000, 300000, "something was cleared, refused or dropped while held") {
  boost::shared_ptr<Batch> p = boost::make_shared<Batch>();
  std::vector<Weak> vw, tw;                       // everything ever offered
  std::vector<ab::DesignVariable*> raw;
  std::vector<char> vh, th;                       // held by the batch
  std::vector<VarSP> keep;                        // references of the caller
  std::vector<TouchSP> keepT;
  std::vector<int> rc;                            // number of references of the caller
  std::vector<int> tc;
  std::ostringstream h;
  size_t n = 4 + s.index(14);
  auto offer = [&](const VarSP& v) { vw.push_back(v); raw.push_back(v.get()); vh.push_back(0); keep.push_back(v); };
  for (size_t k = 0; k < n; ++k) {
    switch (s.choice(7)) {
      case 0: case 1: { VarSP v = boost::make_shared<Var>(1 + (int)s.index(3), (int)k); offer(v); p->addDesignVariable(v, s.index(3)); vh.back() = 1; h << "add variable " << vw.size() - 1; break; }
      case 2: {  // an error term on held variables
        std::vector<ab::DesignVariable*> d;
        for (size_t i = 0; i < raw.size(); ++i) if (vh[i] && s.flip()) d.push_back(raw[i]);
        TouchSP t = boost::make_shared<Touch>(d); tw.push_back(t); th.push_back(1); keepT.push_back(t); p->addErrorTerm(t); h << "add term " << tw.size() - 1; break;
      }
      case 3: {  // refused: on a foreign variable
        VarSP v = boost::make_shared<Var>(1, 99); TouchSP t = boost::make_shared<Touch>(std::vector<ab::DesignVariable*>{v.get()});
        tw.push_back(t); th.push_back(0); keepT.push_back(TouchSP());
        VTHROWS(InvalidOp, p->addErrorTerm(t), "a term on a foreign variable");
        offer(v); h << "refused term"; s.nontrivial(true); break;
      }
      case 4: if (!keep.empty()) { keep[s.index(keep.size())].reset(); if (!keepT.empty()) keepT[s.index(keepT.size())].reset(); h << "drop references"; s.nontrivial(true); } break;
      case 5: if (s.chance(1, 3)) { p->clear(); std::fill(vh.begin(), vh.end(), 0); std::fill(th.begin(), th.end(), 0); h << "clear"; s.nontrivial(true); } break;
      default: p->saveDesignVariables(); if (s.flip()) p->restoreDesignVariables(); h << "save"; 
    }
    h << "; ";
    for (size_t i = 0; i < vw.size(); ++i) VEQ(!vw[i].expired(), vh[i] || keep[i], "variable " << i << " alive after " << h.str());
    for (size_t i = 0; i < tw.size(); ++i) VEQ(!tw[i].expired(), th[i] || keepT[i], "error term " << i << " alive after " << h.str());
  }
  keep.clear(); keepT.clear();
  for (size_t i = 0; i < vw.size(); ++i) VEQ(!vw[i].expired(), (bool)vh[i], "variable " << i << " alive by the batch alone after " << h.str());
  for (size_t i = 0; i < tw.size(); ++i) VEQ(!tw[i].expired(), (bool)th[i], "error term " << i << " alive by the batch alone after " << h.str());
  p.reset();
  for (size_t i = 0; i < vw.size(); ++i) VCHECK(vw[i].expired(), "variable " << i << " outlives its batch after " << h.str());
  for (size_t i = 0; i < tw.size(); ++i) VCHECK(tw[i].expired(), "error term " << i << " outlives its batch after " << h.str());
  s.desc() << h.str();
}

// a world of which only the holder under test keeps the batches
struct Watched {
  std::vector<Weak> vars; std::vector<std::vector<Weak> > terms; std::vector<Weak> batches;
  explicit Watched(const Inst& in) {
    for (auto& v : in.vars) vars.push_back(v);
    for (auto& b : in.batches) batches.push_back(b);
    for (auto& t : in.terms) { terms.emplace_back(); for (auto& e : t) terms.back().push_back(e); }
  }
  void check(const World& w, const std::vector<char>& alive, const std::string& at) const {
    std::vector<char> va(vars.size(), 0);
    for (size_t b = 0; b < batches.size(); ++b) {
      VEQ(!batches[b].expired(), (bool)alive[b], "batch " << b << " alive " << at);
      for (size_t t = 0; t < terms[b].size(); ++t) VEQ(!terms[b][t].expired(), (bool)alive[b], "error term " << t << " of batch " << b << " alive " << at);
      if (alive[b]) for (size_t v : w.batches[b].vars) va[v] = 1;
    }
    for (size_t v = 0; v < vars.size(); ++v) VEQ(!vars[v].expired(), (bool)va[v], "variable " << v << " alive " << at);
  }
};

// ---- the merged problem ----
CLAUSE(merged, 8000, 160000, "a batch was removed or refused while others were held") {
  World w = makeWorld(s, Cfg());
  Inst in = instantiate(w);
  Watched watch(in);
  std::vector<BatchSP> mine = in.batches;  // the caller's references
  std::vector<char> held(mine.size(), 0);
  auto p = boost::make_shared<ac::IncrementalOptimizationProblem>();
  in = Inst();
  std::vector<BatchSP> lend(mine);
  std::vector<size_t> order;
  std::ostringstream h;
  auto alive = [&] { std::vector<char> a(held); for (size_t b = 0; b < a.size(); ++b) a[b] = a[b] || lend[b]; return a; };
  mine.clear();
  for (size_t k = 0, n = 3 + s.index(12); k < n; ++k) {
    size_t b = s.index(held.size());
    switch (s.choice(6)) {
      case 0: case 1:
        if (!lend[b]) break;
        if (held[b]) { VTHROWS(InvalidOp, p->add(lend[b]), "a batch held already"); h << "refuse " << b; }
        else { p->add(lend[b]); held[b] = 1; order.push_back(b); h << "add " << b; }
        break;
      case 2: lend[b].reset(); h << "drop reference to " << b; break;
      case 3: {
        if (order.empty()) break;
        size_t i = s.index(order.size()); b = order[i];
        switch (lend[b] ? s.index(3) : s.index(2)) { case 0: p->remove(i); break; case 1: p->remove(const_cast<ac::IncrementalOptimizationProblem::OptimizationProblemsSP&>(p->getOptimizationProblems()).begin() + i); break; default: p->remove(lend[b]); }
        order.erase(order.begin() + i); held[b] = 0; h << "remove " << b;
        s.nontrivial(!order.empty());
        break;
      }
      case 4: p->saveDesignVariables(); if (s.flip()) p->restoreDesignVariables(); h << "save"; break;
      default: if (s.chance(1, 4)) { p->clear(); order.clear(); std::fill(held.begin(), held.end(), 0); h << "clear"; } else { p->permuteOptimizationProblems(s.permutation(order.size())); std::vector<size_t> o(order.size());
        for (size_t i = 0; i < o.size(); ++i) for (size_t x = 0; x < held.size(); ++x) if (held[x] && watch.batches[x].lock().get() == p->getOptimizationProblem(i)) o[i] = x;
        order = o; h << "permute"; }
    }
    h << "; ";
    watch.check(w, alive(), "after " + h.str());
  }
  std::fill(lend.begin(), lend.end(), BatchSP());
  watch.check(w, held, "held by the merged problem alone after " + h.str());
  p.reset();
  watch.check(w, std::vector<char>(held.size(), 0), "after the end of the merged problem");
  s.desc() << h.str();
}

// ---- the estimator ----
CLAUSE(estimator, 2500, 50000, "a batch was rejected, failed or removed") {
  Cfg c; c.linear = !s.chance(1, 3); c.fullRank = s.flip(); c.robust = s.chance(1, 4);
  World w = makeWorld(s, c);
  Inst in = instantiate(w);
  Watched watch(in);
  std::vector<BatchSP> lend = in.batches;
  std::vector<std::vector<Lin*> > lin;
  for (auto& t : in.terms) { lin.emplace_back(); for (auto& e : t) lin.back().push_back(e.get()); }
  in = Inst();
  Est::Options o;
  o.infoGainDelta = s.flip() ? 0.5 : s.flip() ? 1e9 : -1e18;
  o.checkValidity = s.chance(1, 4);
  auto e = boost::make_shared<Est>(w.marg, o, solverOptions(s.chance(1, 3)), optimizerOptions(1 + (int)s.index(5)));
  std::vector<char> held(lend.size(), 0);
  std::vector<size_t> order;
  std::ostringstream h;
  auto alive = [&] { std::vector<char> a(held); for (size_t b = 0; b < a.size(); ++b) a[b] = a[b] || lend[b]; return a; };
  for (size_t k = 0, n = 2 + s.index(8); k < n; ++k) {
    size_t b = s.index(held.size());
    switch (s.choice(7)) {
      case 0: case 1: case 2: {
        if (!lend[b] || held[b]) break;
        std::vector<size_t> ids(order); ids.push_back(b);
        if (!usable(w, ids)) break;
        bool fail = s.chance(1, 6);
        if (fail) { lin[b].back()->explode = true; VTHROWS(std::runtime_error, e->addBatch(lend[b], s.flip()), "an error term fails"); lin[b].back()->explode = false; h << "fail " << b; s.nontrivial(true); }
        else {
          Ret r = e->addBatch(lend[b], s.chance(1, 4));
          if (r.batchAccepted) { held[b] = 1; order.push_back(b); h << "add " << b; }
          else { h << "reject " << b; s.nontrivial(true); }
        }
        break;
      }
      case 3: lend[b].reset(); h << "drop reference to " << b; break;
      case 4: {
        if (order.empty()) break;
        size_t i = s.index(order.size()); b = order[i];
        std::vector<size_t> left(order); left.erase(left.begin() + i);
        if (!left.empty() && !usable(w, left)) break;
        if (lend[b] && s.flip()) e->removeBatch(lend[b]); else e->removeBatch(i);
        order = left; held[b] = 0; h << "remove " << b; s.nontrivial(true);
        break;
      }
      case 5: if (!order.empty() && usable(w, order)) { e->reoptimize(); h << "reoptimize"; } break;
      default: break;
    }
    h << "; ";
    watch.check(w, alive(), "after " + h.str());
    VEQ(e->getNumBatches(), order.size(), "batches after " << h.str());
  }
  std::fill(lend.begin(), lend.end(), BatchSP());
  watch.check(w, held, "held by the estimator alone after " + h.str());
  // still usable when nobody else refers to the batches
  if (!order.empty() && usable(w, order)) { e->reoptimize(); watch.check(w, held, "after a last optimization, " + h.str()); }
  e.reset();
  watch.check(w, std::vector<char>(held.size(), 0), "after the end of the estimator, " + h.str());
  s.desc() << h.str();
}

// ---- memory ----
CLAUSE(solverMemory, 600, 12000, "the system has three or more columns") {
  size_t nv = 1 + s.index(4);
  std::vector<VarSP> vars; std::vector<LinSP> terms; std::vector<ab::DesignVariable*> dvs; std::vector<ab::ErrorTerm*> ets;
  int cols = 0;
  for (size_t i = 0; i < nv; ++i) { auto v = boost::make_shared<Var>(1 + (int)s.index(3), (int)i); v->setBlockIndex((int)i); v->setColumnBase(cols); cols += (int)v->x.size(); vars.push_back(v); dvs.push_back(v.get()); }
  for (size_t k = 0, n = 1 + s.index(9); k < n; ++k) {
    std::vector<Var*> vs; std::vector<Eigen::RowVectorXd> A;
    auto p = s.permutation(nv);
    for (size_t j = 0, m = 1 + s.index(nv); j < m; ++j) { vs.push_back(vars[p[j]].get()); Eigen::RowVectorXd a(vs.back()->x.size()); for (int i = 0; i < a.size(); ++i) a[i] = (double)s.range(-4, 4); A.push_back(a); }
    auto t = boost::make_shared<Lin>(vs, A, (double)s.range(-4, 4), 1 + (double)s.index(4)); t->setRowBase(k); terms.push_back(t); ets.push_back(t.get());
  }
  ac::LinearSolverOptions o = solverOptions(s.flip());
  const std::ptrdiff_t m = s.range(0, cols - 1);
  const bool marginal = s.chance(2, 3), solve = !marginal || s.chance(3, 4), fresh = s.flip(), again = s.flip();
  boost::shared_ptr<Solver> sol;
  auto start = [&] { sol = boost::make_shared<Solver>(o); sol->initMatrixStructure(dvs, ets, false); sol->setMargStartIndex(m); };
  start();
  s.nontrivial(cols >= 3);
  s.desc() << ets.size() << "x" << cols << " marg " << m << " solve " << solve << " analyse " << marginal << " fresh " << fresh;
  settles([&] {
    if (fresh) start(); else if (again) { sol->initMatrixStructure(dvs, ets, false); sol->setMargStartIndex(m); }
    sol->evaluateError(1, false); sol->buildSystem(1, false);
    if (solve) { Eigen::VectorXd dx; sol->solveSystem(dx); }
    if (marginal) sol->analyzeMarginal();
  }, "solving a system");
}
CLAUSE(estimatorMemory, 300, 6000, "batches are added and removed again") {
  Cfg c; c.fullRank = s.flip(); c.maxBatches = 3;
  World w = makeWorld(s, c);
  Est::Options o;
  o.infoGainDelta = s.flip() ? 0.5 : s.flip() ? 1e9 : -1e18; o.checkValidity = false;
  const bool scaling = s.flip(), live = s.flip(), force = s.flip();
  std::vector<size_t> ids; for (size_t b = 0; b < w.batches.size(); ++b) ids.push_back(b);
  for (size_t n = 1; n <= ids.size(); ++n) if (!usable(w, std::vector<size_t>(ids.begin(), ids.begin() + n))) throw vpt::Discard();
  s.desc() << "scaling " << scaling << " live " << live << " delta " << o.infoGainDelta << " force " << force;
  Inst in = instantiate(w);
  boost::shared_ptr<Est> e;
  settles([&] {
    if (!live) in = instantiate(w);
    else for (size_t i = 0; i < in.vars.size(); ++i) for (int k = 0; k < in.vars[i]->x.size(); ++k) in.vars[i]->x[k] = w.vars[i].x0[k];
    if (!live || !e) e = boost::make_shared<Est>(w.marg, o, solverOptions(scaling), optimizerOptions(2));
    for (auto& b : in.batches) { e->addBatch(b, force); }
    if (e->getNumBatches()) e->reoptimize();
    while (e->getNumBatches()) e->removeBatch(e->getNumBatches() - 1);
    s.nontrivial(true);
  }, live ? "adding and removing batches" : "a whole calibration");
}
