// C28, C30 and C32: the spline batches and spline files of the example calibrators (the same interface in all three)
#pragma once
#include "cal.hpp"
#include <boost/make_shared.hpp>
namespace ac = aslam::calibration;
namespace ab = aslam::backend;
using cal::Ns; using cal::V3; using cal::V4; using cal::M3;
typedef ac::OptimizationProblemSpline SB;

struct Pair { boost::shared_ptr<SB::TranslationSpline> T; boost::shared_ptr<SB::RotationSpline> Q; };
static Pair splines(vpt::Src& s, Ns t0, Ns len) {
  typedef bsplines::EuclideanBSpline<Eigen::Dynamic, 3, bsplines::NsecTimePolicy>::CONF TC;
  typedef bsplines::UnitQuaternionBSpline<Eigen::Dynamic, bsplines::NsecTimePolicy>::CONF QC;
  const size_t n = 2 + s.index(6);
  std::vector<Ns> t = cal::times(s, t0, (double)len * 1e-9, n); t.back() = t0 + len;
  std::vector<V3> p; std::vector<V4> q; V3 a(s.real(-3, 3), s.real(-1, 1), s.real(-3, 3));
  for (size_t i = 0; i < n; ++i) { p.push_back(V3(s.real(-9, 9), s.real(-9, 9), s.real(-9, 9))); a += V3(s.real(-0.4, 0.4), s.real(-0.1, 0.1), s.real(-0.4, 0.4)); V4 x = sm::kinematics::r2quat(cal::fromYpr(a)); if (!q.empty() && x.dot(q.back()) < 0) x = -x; q.push_back(x); }
  Pair r;
  r.T = boost::make_shared<SB::TranslationSpline>(TC(TC::ManifoldConf(3), 3 + (int)s.index(3)));
  r.Q = boost::make_shared<SB::RotationSpline>(QC(QC::ManifoldConf(), 3 + (int)s.index(3)));
  r.T->fit(t, p, 1 + (int)s.index(4), 1e-3); r.Q->fit(t, q, 1 + (int)s.index(4), 1e-3);
  return r;
}
template <typename S> static void inBatch(const SB& b, S& sp, size_t group, const std::string& what) {
  for (size_t i = 0; i < sp.numDesignVariables(); ++i) {
    VCHECK(b.isDesignVariableInProblem(sp.designVariable(i)), what << " variable " << i << " is not in the batch");
    VCHECK(sp.designVariable(i)->isActive(), what << " variable " << i << " is not active");
    VEQ(b.getGroupId(sp.designVariable(i)), group, what << " variable " << i << ": group");
  }
}
CLAUSE(batches, 800, 20000, "several splines of both kinds in several groups") {
  auto b = boost::make_shared<SB>(); const SB& cb = *b;
  std::vector<Pair> ps; std::vector<size_t> ti, qi, tg, qg; size_t dv = 0; std::set<size_t> groups;
  const size_t ops = 1 + s.index(6);
  for (size_t k = 0; k < ops; ++k) {
    Pair p = splines(s, 1000000000, 1000000000 + s.range(0, 2000000000)); ps.push_back(p);
    if (s.chance(1, 4)) { p.T->designVariable(0)->setActive(false); }
    const size_t g = s.index(3); groups.insert(g);
    if (s.flip()) {
      if (s.flip() && g == 0) b->addSpline(p.T); else b->addSpline(p.T, g);
      dv += p.T->numDesignVariables(); ti.push_back(k); tg.push_back(g);
    } else {
      if (s.flip() && g == 0) b->addSpline(p.Q); else b->addSpline(p.Q, g);
      dv += p.Q->numDesignVariables(); qi.push_back(k); qg.push_back(g);
    }
    VEQ(cb.getNumTranslationSplines(), ti.size(), "number of translation splines"); VEQ(cb.getNumRotationSplines(), qi.size(), "number of rotation splines");
    VEQ(cb.getTranslationSplines().size(), ti.size(), "translation splines"); VEQ(cb.getRotationSplines().size(), qi.size(), "rotation splines");
    VEQ(cb.numDesignVariables(), dv, "design variables of the batch");
    for (size_t i = 0; i < ti.size(); ++i) {
      VCHECK(cb.getTranslationSpline(i) == ps[ti[i]].T.get() && b->getTranslationSpline(i) == ps[ti[i]].T.get() && cb.getTranslationSplines()[i] == ps[ti[i]].T, "translation spline " << i);
      inBatch(cb, *ps[ti[i]].T, tg[i], "translation spline " + std::to_string(i));
    }
    for (size_t i = 0; i < qi.size(); ++i) {
      VCHECK(cb.getRotationSpline(i) == ps[qi[i]].Q.get() && b->getRotationSpline(i) == ps[qi[i]].Q.get() && cb.getRotationSplines()[i] == ps[qi[i]].Q, "rotation spline " << i);
      inBatch(cb, *ps[qi[i]].Q, qg[i], "rotation spline " + std::to_string(i));
    }
  }
  const size_t bad = s.index(3);
  VTHROWS(ac::OutOfBoundException<size_t>, cb.getTranslationSpline(ti.size() + bad), "translation spline beyond the last");
  VTHROWS(ac::OutOfBoundException<size_t>, b->getTranslationSpline(ti.size() + bad), "translation spline beyond the last");
  VTHROWS(ac::OutOfBoundException<size_t>, cb.getRotationSpline(qi.size() + bad), "rotation spline beyond the last");
  VTHROWS(ac::OutOfBoundException<size_t>, b->getRotationSpline(qi.size() + bad), "rotation spline beyond the last");
  if (!ti.empty()) {  // the same variables cannot be added twice
    VTHROWS_ANY(b->addSpline(ps[ti[0]].T, tg[0]), "a spline added twice");
  }
  s.nontrivial(ti.size() > 1 && qi.size() > 1 && groups.size() > 1);
}

// what a spline file holds: one row per timestep with position and yaw, pitch, roll
static std::vector<std::vector<double> > rows(const std::string& text) {
  std::vector<std::vector<double> > r; std::istringstream in(text); std::string l;
  while (std::getline(in, l)) { std::istringstream li(l); std::vector<double> v; double d; while (li >> d) v.push_back(d); r.push_back(v); }
  return r;
}
static void wantRows(const Pair& p, double dt, std::vector<std::vector<double> >& want) {
  for (Ns t = p.T->getMinTime(); t < p.T->getMaxTime(); t += sm::timing::secToNsec(dt)) {
    const V3 x = p.T->getEvaluatorAt<0>(t).eval(), a = cal::toYpr(sm::kinematics::quat2r(p.Q->getEvaluatorAt<0>(t).eval()));
    want.push_back({x(0), x(1), x(2), a(0), a(1), a(2)});
  }
}
static void sameRows(const std::string& text, const std::vector<std::vector<double> >& want) {
  const auto got = rows(text);
  VEQ(got.size(), want.size(), "rows of the spline file");
  for (size_t i = 0; i < want.size(); ++i) {
    VEQ(got[i].size(), (size_t)6, "columns of row " << i);
    for (int k = 0; k < 6; ++k) { double d = got[i][k] - want[i][k]; if (k >= 3) d = et::wrap(d); VCHECK(std::fabs(d) <= 1e-4 * (1 + std::fabs(want[i][k])), "row " << i << " column " << k << " is " << got[i][k] << ", expected " << want[i][k]); }
  }
}
static std::string slurp(const std::string& n) { std::ifstream f(n); std::ostringstream o; o << f.rdbuf(); return o.str(); }
CLAUSE(files, 600, 15000, "several batches or a spline longer than a few timesteps") {
  const double dt = s.pick(std::vector<double>{0.1, 0.25, 0.5, 0.01, 3.0});
  std::vector<std::vector<double> > want; std::string text; bool many = false;
  cal::Scratch f;
  if (s.flip()) {
    Pair p = splines(s, s.flip() ? 0 : 1363945215000000000ll, 250000000 * s.range(1, 8)); wantRows(p, dt, want);
    { std::ofstream o(f.name); ac::writeSplines(p.T, p.Q, dt, o); }
    many = want.size() > 5;
  } else {
    sm::PropertyTree c; cal::estimatorConfig(c, 0, true, false);
    auto e = boost::make_shared<ac::IncrementalEstimator>(sm::PropertyTree(c, "estimator"));
    auto theta = boost::make_shared<ac::VectorDesignVariable<2> >(); theta->setActive(true);
    const size_t nb = s.index(4);
    for (size_t k = 0; k < nb; ++k) {
      auto b = boost::make_shared<SB>();
      b->addDesignVariable(theta, 1);
      const size_t n = s.index(3);
      for (size_t i = 0; i < n; ++i) { Pair p = splines(s, (Ns)k * 1000000000, 250000000 * s.range(1, 8)); b->addSpline(p.T, 0); b->addSpline(p.Q, 0); wantRows(p, dt, want); }
      e->getProblem();
      const_cast<ac::IncrementalOptimizationProblem*>(e->getProblem())->add(b);
      many = many || (k > 0 && n > 0);
    }
    { std::ofstream o(f.name); ac::writeSplines(e, dt, o); }
  }
  sameRows(slurp(f.name), want);
  s.nontrivial(many);
}
