// C04: a batch is kept exactly when the documented rule says so, and the information gain is what it claims to be
#include "est.hpp"
using namespace est;

static void adopt(const Est& e, Info& ref, const std::string& at) {
  ref = analyse(dense(*e.getProblem(), e.getMargGroupId()));
  if (ref.ambiguous) throw vpt::Discard();
}

CLAUSE(rule, 4000, 90000, "both an accepted and a rejected batch occurred after the first one") {
  Cfg c;
  c.fullRank = s.chance(1, 3);
  c.zeroResidual = s.chance(1, 5);
  c.maxBatches = 6;
  World w = makeWorld(s, c);
  Inst in = instantiate(w);
  Est::Options o;
  static const double deltas[] = {0.2, 0.0, 0.5, 1.0, 2.0, -1.0, 1e9};
  o.infoGainDelta = deltas[s.index(7)];
  o.checkValidity = s.chance(1, 2);
  const int maxIt = s.chance(1, 2) ? 20 : 1 + (int)s.index(3);
  bool scaling = s.chance(1, 4);
  Est e(w.marg, o, solverOptions(scaling), optimizerOptions(maxIt));
  s.desc() << "infoGainDelta=" << o.infoGainDelta << " checkValidity=" << o.checkValidity << " maxIterations=" << maxIt << " scaling=" << scaling << "\n";
  double refLog = 0;
  std::ptrdiff_t refRank = -1;
  bool acc = false, rej = false;
  size_t inside = 0;
  std::vector<bool> held(in.batches.size(), false);
  const size_t steps = w.batches.size() + s.index(3);
  for (size_t k = 0; k < steps; ++k) {
    size_t b = k < w.batches.size() ? k : s.index(w.batches.size());
    if (held[b]) continue;
    // the information the batch would leave, from the batches alone (the terms are linear)
    bool force = s.chance(1, 8);
    std::ostringstream at; at << "batch " << b << (force ? " forced" : "");
    std::vector<BatchSP> with;
    for (size_t j = 0; j < in.batches.size(); ++j) if (held[j]) with.push_back(in.batches[j]);
    with.push_back(in.batches[b]);
    Info x;
    {
      ac::IncrementalOptimizationProblem p;
      for (auto& q : with) p.add(q);
      if (!p.isGroupInProblem(w.marg)) continue;
      auto ord = p.getGroupsOrdering();
      std::swap(*std::find(ord.begin(), ord.end(), w.marg), ord.back());
      p.setGroupsOrdering(ord);
      if (p.getGroupDim(w.marg) == 0) continue;
      x = analyse(dense(p, w.marg));
    }
    if (x.ambiguous) throw vpt::Discard();
    Ret r;
    VNOTHROW(r = e.addBatch(in.batches[b], force), at.str());
    VEQ(r.rankTheta, x.rank, "rank of the calibration information " << at.str());
    VEQ(r.rankThetaDeficiency, (std::ptrdiff_t)x.sv.size() - x.rank, at.str());
    VCLOSE(r.informationGain, 0.5 * (x.log2 - refLog), 1e-6, 1e-6, "information gain relative to the last accepted state " << at.str());
    bool valid = !(o.checkValidity && (r.numIterations == (size_t)maxIt || r.JFinal >= r.JStart));
    bool expect = ((r.informationGain > o.infoGainDelta || x.rank > refRank) && valid) || force;
    VEQ(r.batchAccepted, expect, "acceptance: gain " << r.informationGain << " delta " << o.infoGainDelta << " rank " << x.rank << " previous rank " << refRank << " iterations " << r.numIterations << " of " << maxIt << " cost " << r.JStart << " -> " << r.JFinal << " " << at.str());
    if (expect) { held[b] = true; inside++; refLog = x.log2; refRank = x.rank; }
    VEQ(e.getNumBatches(), inside, at.str());
    bool member = false;
    for (auto& q : e.getProblem()->getOptimizationProblems()) member = member || q == in.batches[b];
    VEQ(member, expect, "membership of the batch after the decision " << at.str());
    VEQ(e.getInformationGain() == r.informationGain, expect || e.getInformationGain() == r.informationGain, at.str());
    if (k > 0) (expect ? acc : rej) = true;
    s.desc() << at.str() << (expect ? " accepted" : " rejected") << " gain " << r.informationGain << " rank " << x.rank << "\n";
    // a reoptimization or a removal moves the reference the next gain is measured against
    if (inside > 1 && s.chance(1, 6)) {
      std::vector<size_t> in2; for (size_t j = 0; j < held.size(); ++j) if (held[j]) in2.push_back(j);
      size_t gone = in2[s.index(in2.size())];
      ac::IncrementalOptimizationProblem p;
      for (size_t j : in2) if (j != gone) p.add(in.batches[j]);
      if (p.isGroupInProblem(w.marg) && p.getGroupDim(w.marg) > 0) {
        VNOTHROW(e.removeBatch(in.batches[gone]), "removing batch " << gone);
        held[gone] = false; inside--;
        Info i; adopt(e, i, "");
        refLog = i.log2; refRank = i.rank;
        VEQ(e.getInformationGain(), 0.0, "information gain after a removal");
        VEQ(e.getRankTheta(), refRank, "rank after a removal");
        s.desc() << "removed batch " << gone << "\n";
      }
    } else if (inside > 0 && s.chance(1, 8)) {
      Ret q;
      VNOTHROW(q = e.reoptimize(), "reoptimize");
      Info i; adopt(e, i, "");
      refLog = i.log2; refRank = i.rank;
      VCHECK(q.batchAccepted && q.informationGain == 0.0 && e.getInformationGain() == 0.0, "reoptimize reports no gain");
      s.desc() << "reoptimized\n";
    }
  }
  s.nontrivial(acc && rej);
}

CLAUSE(threshold, 2500, 50000, "a batch with a finite gain was offered twice around its exact gain") {
  Cfg c;
  c.fullRank = true;
  c.maxBatches = 4;
  World w = makeWorld(s, c);
  if (w.batches.size() < 2) throw vpt::Discard();
  Inst in = instantiate(w);
  Est::Options o;
  o.infoGainDelta = 0.2;
  Est e(w.marg, o, solverOptions(s.chance(1, 4)), optimizerOptions(20));
  // the first batch holds every active calibration variable here, so that the rank cannot rise afterwards
  Ret first = e.addBatch(in.batches[0], true);
  size_t dim = 0;
  for (size_t i = 0; i < w.nTheta; ++i) if (w.vars[i].active) dim += w.vars[i].dim;
  if ((size_t)first.rankTheta != dim) throw vpt::Discard();
  for (size_t b = 1; b < in.batches.size(); ++b) {
    e.getOptions().infoGainDelta = 1e300;
    Ret a = e.addBatch(in.batches[b]);
    VCHECK(!a.batchAccepted, "a threshold no gain can reach");
    const double g = a.informationGain;
    e.getOptions().infoGainDelta = g;
    Ret q = e.addBatch(in.batches[b]);
    VEQ(q.informationGain, g, "the same batch offered again after a rejection has the same gain");
    VCHECK(!q.batchAccepted, "a gain equal to the threshold is not above it");
    VEQ(q.JStart, a.JStart, "the second offer starts from the same state");
    e.getOptions().infoGainDelta = std::nextafter(g, -1e300);
    Ret z = e.addBatch(in.batches[b]);
    VCHECK(z.batchAccepted, "a gain above the threshold is accepted: " << z.informationGain << " > " << e.getOptions().infoGainDelta);
    VEQ(e.getInformationGain(), z.informationGain, "published gain");
    s.nontrivial(std::isfinite(g));
  }
}

// the tolerance of the decomposition is relative, so that a batch much stronger than the others can hide what was known:
// the rank then goes down, and gain and rank are measured against that state from then on
CLAUSE(rankDown, 3000, 60000, "the rank went down with an accepted batch and another batch was offered afterwards") {
  Cfg c;
  c.fullRank = s.chance(3, 4);
  c.maxBatches = 6;
  World w = makeWorld(s, c);
  if (w.batches.size() < 2) throw vpt::Discard();
  static const double boosts[] = {1e5, 1e7, 1e9, 1};
  for (size_t b = 1; b < w.batches.size(); ++b) if (s.chance(1, 2)) w.batches[b].terms[s.index(w.batches[b].terms.size())].w *= boosts[s.index(4)];
  Inst in = instantiate(w);
  Est::Options o;
  static const double deltas[] = {0.2, 0.0, 1.0, -20.0};
  o.infoGainDelta = deltas[s.index(4)];
  o.checkValidity = s.chance(1, 3);
  o.verbose = s.chance(1, 4);
  ac::LinearSolverOptions so = solverOptions(false);
  static const double epss[] = {1e-4, 1e-5, 1e-3};
  so.epsSVD = epss[s.index(3)];
  const int maxIt = 20;
  Est e(w.marg, o, so, optimizerOptions(maxIt));
  s.desc() << "infoGainDelta=" << o.infoGainDelta << " checkValidity=" << o.checkValidity << " verbose=" << o.verbose << " epsSVD=" << so.epsSVD << "\n";
  std::ostringstream out, err;
  struct Redirect {
    std::ostream& o; std::streambuf* b;
    Redirect(std::ostream& o, std::ostream& to) : o(o), b(o.rdbuf(to.rdbuf())) {}
    ~Redirect() { o.rdbuf(b); }
  } ro(std::cout, out), re(std::cerr, err);
  double refLog = 0;
  std::ptrdiff_t refRank = -1;
  bool down = false;
  std::vector<bool> held(in.batches.size(), false);
  std::vector<size_t> order;
  for (size_t k = 0; k < in.batches.size(); ++k) order.push_back(k);
  for (size_t n = s.index(3); n--;) order.push_back(s.index(in.batches.size()));
  for (size_t b : order) {
    if (held[b]) continue;
    const bool force = s.chance(1, 2);
    std::ostringstream at; at << "batch " << b << (force ? " forced" : "");
    Info x;
    {
      ac::IncrementalOptimizationProblem p;
      for (size_t j = 0; j < held.size(); ++j) if (held[j]) p.add(in.batches[j]);
      p.add(in.batches[b]);
      if (!p.isGroupInProblem(w.marg) || p.getGroupDim(w.marg) == 0) continue;
      auto ord = p.getGroupsOrdering();
      std::swap(*std::find(ord.begin(), ord.end(), w.marg), ord.back());
      p.setGroupsOrdering(ord);
      x = analyse(dense(p, w.marg));
    }
    const double tol = 20.0 * x.sv.size() * so.epsSVD * x.sv[0];
    std::ptrdiff_t rank = 0;
    double log2 = 0;
    for (int i = 0; i < x.sv.size(); ++i) {
      if (x.sv[i] > 0.5 * tol && x.sv[i] < 2 * tol) throw vpt::Discard();
      if (x.sv[i] > tol) { rank++; log2 += std::log2(x.sv[i]); }
    }
    if (x.ambiguous && rank == x.rank) throw vpt::Discard();
    Ret r;
    VNOTHROW(r = e.addBatch(in.batches[b], force), at.str());
    VEQ(r.rankTheta, rank, "rank at the tolerance of the options " << at.str());
    VEQ(r.rankThetaDeficiency, (std::ptrdiff_t)x.sv.size() - rank, at.str());
    VCLOSE(r.informationGain, 0.5 * (log2 - refLog), 1e-5, 1e-5, "information gain relative to the last accepted state " << at.str());
    bool valid = !(o.checkValidity && (r.numIterations == (size_t)maxIt || r.JFinal >= r.JStart));
    bool expect = ((r.informationGain > o.infoGainDelta || rank > refRank) && valid) || force;
    VEQ(r.batchAccepted, expect, "acceptance: gain " << r.informationGain << " rank " << rank << " previous rank " << refRank << " " << at.str());
    if (down) s.nontrivial();
    if (expect) {
      if (rank < refRank) { down = true; s.label(force ? "rank down, forced" : "rank down, gained"); }
      held[b] = true; refLog = log2; refRank = rank;
      VEQ(e.getInformationGain(), r.informationGain, "published gain " << at.str());
    }
    VEQ(e.getRankTheta(), refRank, "published rank " << at.str());
    VEQ(e.getNumBatches(), (size_t)std::count(held.begin(), held.end(), true), at.str());
    s.desc() << at.str() << (expect ? " accepted" : " rejected") << " gain " << r.informationGain << " rank " << rank << "\n";
  }
  if (!o.verbose) VCHECK(out.str().empty() && err.str().empty(), "nothing is printed unless asked for");
}
