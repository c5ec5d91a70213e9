// C07: the published statistics describe the system the estimator exposes
#include "est.hpp"
using namespace est;

static void orthonormal(const Eigen::MatrixXd& B, const std::string& what) {
  if (B.size()) VMAT(B.transpose() * B, Eigen::MatrixXd::Identity(B.cols(), B.cols()), 1e-8, what << " is not orthonormal");
}

// statistics of the system with Jacobian J, first calibration column m
static void describes(const Eigen::MatrixXd& J, std::ptrdiff_t m, const Eigen::VectorXd& sv, const Eigen::MatrixXd& nobs, const Eigen::MatrixXd& obs, const Eigen::MatrixXd& sigma, const Eigen::MatrixXd& sigmaObs, const std::string& at) {
  Info x = analyse(J, m);
  if (x.ambiguous) throw vpt::Discard();
  const std::ptrdiff_t n = x.sv.size();
  VMAT(sv, x.sv, 1e-7, "singular values " << at);
  VCHECK(nobs.cols() == n - x.rank && (nobs.cols() == 0 || nobs.rows() == n), "unobservable basis is " << nobs.rows() << "x" << nobs.cols() << " for rank " << x.rank << " of " << n << " " << at);
  VCHECK(obs.cols() == x.rank && (obs.cols() == 0 || obs.rows() == n), "observable basis is " << obs.rows() << "x" << obs.cols() << " " << at);
  orthonormal(nobs, "unobservable basis " + at);
  orthonormal(obs, "observable basis " + at);
  double top = n ? x.sv[0] : 0;
  if (nobs.size()) VCHECK((x.Omega * nobs).cwiseAbs().maxCoeff() <= 1e-7 * top + 1e-12, "information along the unobservable basis " << at);
  if (nobs.size() && obs.size()) VCHECK((nobs.transpose() * obs).cwiseAbs().maxCoeff() <= 1e-7, "bases are not complementary " << at);
  VMAT(sigma, pinvSym(x), 1e-5, "covariance is not the inverse information on the observable subspace " << at);
  VCHECK(sigmaObs.rows() == x.rank && sigmaObs.cols() == x.rank, "observable covariance is " << sigmaObs.rows() << "x" << sigmaObs.cols() << " " << at);
  if (x.rank) VMAT(obs * sigmaObs * obs.transpose(), pinvSym(x), 1e-5, "covariance in the observable basis " << at);
}

static void returned(const Est& e, const Ret& r, const std::string& at) {
  VEQ(e.getInformationGain(), r.informationGain, at);
  VEQ(e.getRankTheta(), r.rankTheta, at); VEQ(e.getRankThetaDeficiency(), r.rankThetaDeficiency, at);
  VEQ(e.getRankPsi(), r.rankPsi, at); VEQ(e.getRankPsiDeficiency(), r.rankPsiDeficiency, at);
  VEQ(e.getSVDTolerance(), r.svdTolerance, at); VEQ(e.getQRTolerance(), r.qrTolerance, at);
  VEQ(e.getInitialCost(), r.JStart, at); VEQ(e.getFinalCost(), r.JFinal, at);
  VCHECK(same(e.getNobsBasis(), r.nobsBasis) && same(e.getNobsBasis(true), r.nobsBasisScaled), "unobservable basis " << at);
  VCHECK(same(e.getObsBasis(), r.obsBasis) && same(e.getObsBasis(true), r.obsBasisScaled), "observable basis " << at);
  VCHECK(same(e.getSigma2Theta(), r.sigma2Theta) && same(e.getSigma2Theta(true), r.sigma2ThetaScaled), "covariance " << at);
  VCHECK(same(e.getSigma2ThetaObs(), r.sigma2ThetaObs) && same(e.getSigma2ThetaObs(true), r.sigma2ThetaObsScaled), "observable covariance " << at);
  VCHECK(same(e.getSingularValues(), r.singularValues) && same(e.getSingularValues(true), r.singularValuesScaled), "singular values " << at);
  VCHECK(std::isfinite(r.elapsedTime) && r.elapsedTime >= 0 && r.elapsedTime < 3600, "elapsed time " << r.elapsedTime << " " << at);
}

static void published(const Est& e, const World& w, bool scaling, const std::string& at) {
  Eigen::MatrixXd J = exposedJ(e);
  Dense d = dense(*e.getProblem(), w.marg);
  VEQ(J.rows(), d.J.rows(), "rows of the exposed Jacobian " << at);
  VEQ(J.cols(), d.J.cols(), "columns of the exposed Jacobian " << at);
  if (w.linear) VMAT(J, d.J, 1e-9, "exposed Jacobian " << at);
  VCLOSE(e.getFinalCost(), d.cost, 1e-9, 1e-9, "final cost is the cost at the published estimate " << at);
  Info x = analyse(J, d.margStart);
  if (x.ambiguous) throw vpt::Discard();
  VEQ(e.getRankTheta(), x.rank, at);
  VEQ(e.getRankThetaDeficiency(), (std::ptrdiff_t)x.sv.size() - x.rank, at);
  VEQ(e.getRankPsi(), x.psiRank, at);
  VEQ(e.getRankPsiDeficiency(), d.margStart - x.psiRank, at);
  describes(J, d.margStart, e.getSingularValues(), e.getNobsBasis(), e.getObsBasis(), e.getSigma2Theta(), e.getSigma2ThetaObs(), "unscaled " + at);
  if (scaling) describes(scaleColumns(J), d.margStart, e.getSingularValues(true), e.getNobsBasis(true), e.getObsBasis(true), e.getSigma2Theta(true), e.getSigma2ThetaObs(true), "scaled " + at);
  else VCHECK(e.getSingularValues(true).size() == 0 && e.getNobsBasis(true).size() == 0 && e.getObsBasis(true).size() == 0 && e.getSigma2Theta(true).size() == 0 && e.getSigma2ThetaObs(true).size() == 0, "scaled statistics without column scaling " << at);
  double t = e.getSVDTolerance();
  for (std::ptrdiff_t i = 0; i < x.sv.size(); ++i) VEQ(e.getSingularValues()[i] > t, i < x.rank, "the published tolerance " << t << " separates the singular values at the published rank " << at);
  VCHECK(e.getPeakMemoryUsage() >= e.getMemoryUsage() && e.getMemoryUsage() > 0 && e.getNumFlops() > 0, "resource figures " << at);
}

CLAUSE(published, 3000, 60000, "the calibration information was rank deficient or scaled, with other variables present") {
  Cfg c;
  c.linear = !s.chance(1, 4);
  c.fullRank = s.chance(1, 3);
  c.maxBatches = 4;
  World w = makeWorld(s, c);
  Inst in = instantiate(w);
  bool scaling = s.flip();
  Est::Options o;
  o.infoGainDelta = s.flip() ? 0.2 : 5.0;
  Est e(w.marg, o, solverOptions(scaling), optimizerOptions(1 + (int)s.index(6)));
  const Est& ce = e;
  s.desc() << "scaling=" << scaling << "\n";
  for (int k = 0; k < 2; ++k) VCHECK(e.getSingularValues(k).size() == 0 && e.getNobsBasis(k).size() == 0 && e.getObsBasis(k).size() == 0 && e.getSigma2Theta(k).size() == 0 && e.getSigma2ThetaObs(k).size() == 0, "a new estimator publishes nothing");
  VEQ(e.getRankTheta(), -1, "a new estimator"); VEQ(e.getRankPsi(), -1, "a new estimator"); VEQ(e.getInformationGain(), 0.0, "a new estimator");
  VEQ(ce.getMargGroupId(), w.marg, "marginalized group");
  std::vector<size_t> held;
  for (size_t b = 0; b < in.batches.size(); ++b) {
    Stats before = snap(e);
    double start = 0;
    {
      ac::IncrementalOptimizationProblem p;
      for (auto& q : e.getProblem()->getOptimizationProblems()) p.add(q);
      p.add(in.batches[b]);
      start = dense(p, w.marg).cost;
    }
    Ret r;
    try { r = e.addBatch(in.batches[b], s.chance(1, 3)); } catch (const std::exception&) { continue; }
    VCLOSE(r.JStart, start, 1e-9, 1e-9, "initial cost is the cost before the batch was optimized, batch " << b);
    std::string at = "after batch " + std::to_string(b) + (r.batchAccepted ? " accepted" : " rejected");
    s.desc() << at << "\n";
    if (r.batchAccepted) {
      held.push_back(b);
      returned(e, r, at);
      published(e, w, scaling, at);
      if (r.rankTheta < r.singularValues.size() || scaling) s.nontrivial(r.rankPsi > 0);
      s.label(r.rankThetaDeficiency > 0 ? "deficient" : "full rank");
    } else {
      sameStats(snap(e), before, at);
      if (!scaling) VCHECK(r.singularValuesScaled.size() == 0 && r.nobsBasisScaled.size() == 0 && r.obsBasisScaled.size() == 0 && r.sigma2ThetaScaled.size() == 0 && r.sigma2ThetaObsScaled.size() == 0, "scaled statistics of a rejected batch without scaling");
    }
    if (!held.empty() && s.chance(1, 4)) {
      if (s.chance(1, 3)) { scaling = !scaling; e.getLinearSolverOptions().columnScaling = scaling; s.desc() << "scaling switched to " << scaling << "\n"; }
      // a user may hold variables fixed, or release them, before optimizing again
      for (size_t n = s.chance(1, 3) ? 1 + s.index(2) : 0; n--;) {
        size_t v = s.index(w.vars.size());
        w.vars[v].active = !w.vars[v].active;
        if (!usable(w, held)) { w.vars[v].active = !w.vars[v].active; continue; }
        in.vars[v]->setActive(w.vars[v].active);
        s.desc() << "variable " << v << (w.vars[v].active ? " activated\n" : " deactivated\n");
      }
      Ret q = e.reoptimize();
      returned(e, q, "after reoptimize");
      VCHECK(q.batchAccepted, "reoptimize");
      published(e, w, scaling, "after reoptimize");
    }
    if (held.size() > 1 && s.chance(1, 5)) {
      size_t gone = s.index(held.size());
      std::vector<size_t> rest = held;
      rest.erase(rest.begin() + gone);
      if (!usable(w, rest)) continue;
      e.removeBatch(gone);
      held = rest;
      published(e, w, scaling, "after a removal");
    }
  }
}
