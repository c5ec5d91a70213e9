// C09: configuration by property tree means what configuration by structure means, defaults included
#include "est.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <regex>
#include <fstream>
#include <cstdio>
#include <unistd.h>
using namespace est;

struct Conf {
  sm::PropertyTree t;
  Est::Options o;
  ac::LinearSolverOptions l;
  Est::OptimizerOptions p;
  size_t marg;
  size_t keys = 0;
};

static Conf makeConf(vpt::Src& s, const std::string& prefix) {
  Conf c;
  // what is not configured keeps the default of the options structure
  auto maybeD = [&](const std::string& k, double& v, std::initializer_list<double> vals) { if (s.flip()) { v = *(vals.begin() + s.index(vals.size())); c.t.setDouble(prefix + k, v); c.keys++; s.desc() << k << "=" << v << " "; } };
  auto maybeB = [&](const std::string& k, bool& v) { if (s.flip()) { v = s.flip(); c.t.setBool(prefix + k, v); c.keys++; s.desc() << k << "=" << v << " "; } };
  maybeD("infoGainDelta", c.o.infoGainDelta, {0.7, 0.0, -3.0, 1e6});
  maybeB("checkValidity", c.o.checkValidity);
  if (s.chance(1, 8)) maybeB("verbose", c.o.verbose);
  c.marg = s.index(4);
  c.t.setInt(prefix + "groupId", (int)c.marg);
  std::string op = prefix + "optimizer/", lp = op + "linearSolver/";
  maybeD("optimizer/convergenceDeltaJ", c.p.convergenceDeltaJ, {1e-6, 1e-1});
  maybeD("optimizer/convergenceDeltaX", c.p.convergenceDeltaX, {1e-7, 1e-2});
  if (s.flip()) { c.p.maxIterations = 1 + (int)s.index(30); c.t.setInt(op + "maxIterations", c.p.maxIterations); c.keys++; }
  maybeB("optimizer/linearSolver/columnScaling", c.l.columnScaling);
  maybeD("optimizer/linearSolver/epsNorm", c.l.epsNorm, {1e-13, 3e-12});
  maybeD("optimizer/linearSolver/epsSVD", c.l.epsSVD, {1e-12, 1e-10});
  maybeD("optimizer/linearSolver/epsQR", c.l.epsQR, {1e-11, 1e-12});
  maybeD("optimizer/linearSolver/svdTol", c.l.svdTol, {1e-6, 1e-3, 0.5});
  maybeD("optimizer/linearSolver/qrTol", c.l.qrTol, {1e-9, 1e-6});
  // keys of a sibling block, or at another level, belong to somebody else
  if (s.flip()) { c.t.setDouble(prefix + "convergenceDeltaJ", 55); c.t.setDouble(op + "infoGainDelta", 66); c.t.setBool(op + "columnScaling", !c.l.columnScaling); c.t.setDouble(prefix + "linearSolver/svdTol", 77); c.t.setDouble(op + "epsQR", 99); }
  s.desc() << "\n";
  return c;
}
static void sameSolver(const ac::LinearSolverOptions& a, const ac::LinearSolverOptions& b, const std::string& at) {
  VEQ(a.columnScaling, b.columnScaling, at); VEQ(a.epsNorm, b.epsNorm, at); VEQ(a.epsSVD, b.epsSVD, at); VEQ(a.epsQR, b.epsQR, at);
  VEQ(a.svdTol, b.svdTol, at); VEQ(a.qrTol, b.qrTol, at); VEQ(a.verbose, b.verbose, at);
}
static void sameOptimizer(const Est::OptimizerOptions& a, const Est::OptimizerOptions& b, const std::string& at) {
  VEQ(a.convergenceDeltaJ, b.convergenceDeltaJ, at); VEQ(a.convergenceDeltaX, b.convergenceDeltaX, at); VEQ(a.maxIterations, b.maxIterations, at); VEQ(a.verbose, b.verbose, at);
}
static void same(const Est& a, const Est& b, const std::string& at) {
  VEQ(a.getOptions().infoGainDelta, b.getOptions().infoGainDelta, at); VEQ(a.getOptions().checkValidity, b.getOptions().checkValidity, at); VEQ(a.getOptions().verbose, b.getOptions().verbose, at);
  VEQ(a.getMargGroupId(), b.getMargGroupId(), at);
  sameSolver(a.getLinearSolverOptions(), b.getLinearSolverOptions(), at);
  sameOptimizer(a.getOptimizerOptions(), b.getOptimizerOptions(), at);
}

CLAUSE(options, 4000, 60000, "between one and all but one of the keys were configured") {
  std::string prefix = s.flip() ? "" : "estimator/";
  Conf c = makeConf(s, prefix);
  sm::PropertyTree view = prefix.empty() ? c.t : sm::PropertyTree(c.t, "estimator");
  Est a(view), b(c.marg, c.o, c.l, c.p);
  VEQ(a.getOptions().infoGainDelta, c.o.infoGainDelta, "infoGainDelta"); VEQ(a.getOptions().checkValidity, c.o.checkValidity, "checkValidity"); VEQ(a.getOptions().verbose, c.o.verbose, "verbose");
  VEQ(a.getMargGroupId(), c.marg, "groupId");
  sameSolver(a.getLinearSolverOptions(), c.l, "linear solver from the property tree");
  sameOptimizer(a.getOptimizerOptions(), c.p, "optimizer from the property tree");
  VEQ(b.getOptions().infoGainDelta, c.o.infoGainDelta, "struct"); VEQ(b.getOptions().checkValidity, c.o.checkValidity, "struct"); VEQ(b.getMargGroupId(), c.marg, "struct");
  sameSolver(b.getLinearSolverOptions(), c.l, "linear solver from the structure");
  sameOptimizer(b.getOptimizerOptions(), c.p, "optimizer from the structure");
  sameStats(snap(a), snap(b), "before any batch");
  VEQ(a.getNumBatches(), 0u, "fresh"); VEQ(b.getNumBatches(), 0u, "fresh");
  ab::AslamTruncatedSvdSolver direct(sm::PropertyTree(view, "optimizer/linearSolver"));
  sameSolver(direct.getOptions(), c.l, "linear solver configured on its own");
  // the options can be changed afterwards, and are then what is reported
  a.getOptions().infoGainDelta = 9; a.getLinearSolverOptions().svdTol = 0.25; a.getOptimizerOptions().maxIterations = 3;
  const Est& ca = a;
  VEQ(ca.getOptions().infoGainDelta, 9.0, "changed"); VEQ(ca.getLinearSolverOptions().svdTol, 0.25, "changed"); VEQ(ca.getOptimizerOptions().maxIterations, 3, "changed");
  s.nontrivial(c.keys >= 1 && c.keys < 12);
}

// the sample file that users are told to copy, with entries changed or commented out
CLAUSE(sample, 300, 4000, "some entries were changed and some commented out") {
  const char* root = std::getenv("VERIF_REPO");
  std::ifstream in(std::string(root ? root : "/repo") + "/incremental_calibration/conf/config.xml");
  if (!in) throw vpt::Discard();
  std::map<std::string, std::string> v; std::vector<std::string> path; std::string l, out; size_t changed = 0, out_ = 0;
  static const std::regex leaf("^\\s*<(\\w+)>([^<]*)</(\\w+)>\\s*$"), opening("^\\s*<(\\w+)>\\s*$"), closing("^\\s*</(\\w+)>\\s*$");
  std::smatch m;
  while (std::getline(in, l)) {
    if (std::regex_match(l, m, leaf) && m[1] == m[3]) {
      std::string key, val = m[2]; for (size_t i = 1; i < path.size(); ++i) key += path[i] + "/"; key += m[1];
      if (key != "groupId" && s.chance(1, 6)) { out += "<!--" + l + "-->\n"; ++out_; continue; }
      if (s.chance(1, 3)) {
        if (val == "true" || val == "false") val = val == "true" ? "false" : "true";
        else if (val.find_first_of(".e") != std::string::npos) { std::ostringstream o; o << (double)s.range(1, 2000) / 1024; val = o.str(); }
        else if (val[0] != '-') val = std::to_string(1 + s.index(40));
        ++changed;
      }
      v[key] = val; out += "<" + std::string(m[1]) + ">" + val + "</" + std::string(m[1]) + ">\n"; continue;
    }
    if (std::regex_match(l, m, opening)) path.push_back(m[1]); else if (std::regex_match(l, m, closing)) path.pop_back();
    out += l + "\n";
  }
  s.desc() << out;
  char name[] = "/tmp/c09XXXXXX"; const int fd = mkstemp(name); { std::ofstream f(name); f << out; } ::close(fd);
  sm::BoostPropertyTree t; t.loadXml(name); std::remove(name);
  Est::Options o; ac::LinearSolverOptions ls; Est::OptimizerOptions p;
  auto d = [&](const std::string& k, double def) { return v.count(k) ? std::stod(v[k]) : def; };
  auto b = [&](const std::string& k, bool def) { return v.count(k) ? v[k] == "true" : def; };
  if (!v.count("groupId")) { Est e(sm::PropertyTree(t, "estimator")); return; }  // written in another way than one entry per line: it has to be accepted
  Est e(sm::PropertyTree(t, "estimator"));
  VEQ(e.getMargGroupId(), (size_t)std::stoul(v["groupId"]), "groupId");
  VEQ(e.getOptions().infoGainDelta, d("infoGainDelta", o.infoGainDelta), "infoGainDelta"); VEQ(e.getOptions().checkValidity, b("checkValidity", o.checkValidity), "checkValidity"); VEQ(e.getOptions().verbose, b("verbose", o.verbose), "verbose");
  const std::string q = "optimizer/", r = q + "linearSolver/";
  const auto& x = e.getOptimizerOptions(); const auto& y = e.getLinearSolverOptions();
  VEQ(x.convergenceDeltaJ, d(q + "convergenceDeltaJ", p.convergenceDeltaJ), "convergenceDeltaJ"); VEQ(x.convergenceDeltaX, d(q + "convergenceDeltaX", p.convergenceDeltaX), "convergenceDeltaX"); VEQ(x.maxIterations, (int)d(q + "maxIterations", p.maxIterations), "maxIterations"); VEQ(x.verbose, b(q + "verbose", p.verbose), "optimizer verbose");
  VEQ(y.columnScaling, b(r + "columnScaling", ls.columnScaling), "columnScaling"); VEQ(y.epsNorm, d(r + "epsNorm", ls.epsNorm), "epsNorm"); VEQ(y.epsSVD, d(r + "epsSVD", ls.epsSVD), "epsSVD"); VEQ(y.epsQR, d(r + "epsQR", ls.epsQR), "epsQR");
  VEQ(y.svdTol, d(r + "svdTol", ls.svdTol), "svdTol"); VEQ(y.qrTol, d(r + "qrTol", ls.qrTol), "qrTol"); VEQ(y.verbose, b(r + "verbose", ls.verbose), "solver verbose");
  s.nontrivial(changed && out_);
}

CLAUSE(missing_group, 50, 400, "the group id was left out") {
  Conf c = makeConf(s, "x/");
  VTHROWS_ANY(Est e(sm::PropertyTree(c.t, "y")), "a configuration without a marginalized group");
  s.nontrivial();
}

// what the options mean does not depend on the way they were given
CLAUSE(behaviour, 2500, 40000, "two or more batches were offered") {
  Conf c = makeConf(s, "");
  c.o.verbose = false; c.t.setBool("verbose", false);
  Cfg g;
  g.fullRank = s.flip();
  World w = makeWorld(s, g);
  c.marg = w.marg; c.t.setInt("groupId", (int)w.marg);
  Inst x = instantiate(w), y = instantiate(w);
  Est a(c.t), b(c.marg, c.o, c.l, c.p);
  size_t n = 0;
  for (size_t k = 0; k < w.batches.size(); ++k) {
    Ret r, q;
    bool ta = false, tb = false, force = s.chance(1, 5);
    try { r = a.addBatch(x.batches[k], force); } catch (const std::exception&) { ta = true; }
    try { q = b.addBatch(y.batches[k], force); } catch (const std::exception&) { tb = true; }
    VEQ(ta, tb, "one of them refused batch " << k);
    if (ta) continue;
    VEQ(r.batchAccepted, q.batchAccepted, "batch " << k); VEQ(r.informationGain, q.informationGain, "batch " << k); VEQ(r.numIterations, q.numIterations, "batch " << k);
    VEQ(r.svdTolerance, q.svdTolerance, "batch " << k); VEQ(r.qrTolerance, q.qrTolerance, "batch " << k);
    if (c.l.svdTol >= 0 && r.singularValues.size()) VEQ(r.svdTolerance, c.l.svdTol, "configured tolerance");
    if (c.l.columnScaling) VCHECK(r.singularValuesScaled.size() == r.singularValues.size(), "column scaling was configured");
    else VEQ(r.singularValuesScaled.size(), 0, "column scaling was not configured");
    VCHECK(r.numIterations <= (size_t)c.p.maxIterations, "iterations " << r.numIterations << " of " << c.p.maxIterations);
    sameStats(snap(a), snap(b), "after batch " + std::to_string(k));
    for (size_t i = 0; i < x.vars.size(); ++i) VCHECK(core::same(x.vars[i]->x, y.vars[i]->x), "variable " << i);
    n++;
  }
  same(a, b, "after the batches");
  s.nontrivial(n >= 2);
}
