// C03: saving and restoring design variables
#include "core.hpp"
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace core;
typedef ac::OptimizationProblem OP;
typedef ac::IncrementalOptimizationProblem IP;
typedef boost::shared_ptr<OP> OPSP;

// a variable whose parameters are a matrix of arbitrary shape
class MVar : public ab::DesignVariable {
 public:
  MVar(int r, int c) : m(Eigen::MatrixXd::Zero(r, c)) { setActive(true); }
  Eigen::MatrixXd m;
 protected:
  int minimalDimensionsImplementation() const override { return (int)m.size(); }
  void updateImplementation(const double* dp, int n) override { for (int i = 0; i < n; ++i) m.data()[i] += dp[i]; }
  void revertUpdateImplementation() override {}
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = m; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { m = v; }
};
typedef boost::shared_ptr<ab::DesignVariable> DVSP;

static Eigen::MatrixXd rnd(vpt::Src& s, const Eigen::MatrixXd& like) {
  Eigen::MatrixXd m = like;
  for (int i = 0; i < m.size(); ++i) m.data()[i] = s.any(1e6);
  return m;
}
static DVSP makeVar(vpt::Src& s) {
  switch (s.choice(3)) {
    case 0: return boost::make_shared<Var>(1 + (int)s.index(4), 0);
    case 1: return boost::make_shared<MVar>(1 + (int)s.index(3), 1 + (int)s.index(3));
    default: return boost::make_shared<ac::VectorDesignVariable<3> >();
  }
}
typedef std::map<ab::DesignVariable*, Eigen::MatrixXd> Values;
static void checkAll(const std::vector<DVSP>& pool, const Values& want, const std::string& at) {
  for (size_t i = 0; i < pool.size(); ++i)
    VCHECK(same(pool[i]->getParameters(), want.at(pool[i].get())), "variable " << i << " holds " << pool[i]->getParameters().transpose() << " expected " << want.at(pool[i].get()).transpose() << " " << at);
}

CLAUSE(batch, 12000, 300000, "a restore changed at least two variables back") {
  OP p;
  std::vector<DVSP> pool;
  Values now, saved;
  size_t n = 1 + s.index(6);
  for (size_t i = 0; i < n; ++i) { pool.push_back(makeVar(s)); now[pool[i].get()] = pool[i]->getParameters(); if (s.chance(1, 4)) pool[i]->setActive(false); }
  std::set<ab::DesignVariable*> in;
  for (auto& v : pool) if (!s.chance(1, 4)) { p.addDesignVariable(v, s.index(3)); in.insert(v.get()); }
  size_t steps = 3 + s.index(30), changed = 0;
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    switch (s.choice(6)) {
      case 0: { auto v = pool[s.index(n)]; if (in.insert(v.get()).second) { p.addDesignVariable(v, s.index(3)); op << "add"; } break; }
      case 1: case 2: { for (auto& v : pool) if (s.flip()) { Eigen::MatrixXd m = rnd(s, v->getParameters()); v->setParameters(m); now[v.get()] = m; op << "change"; } break; }
      case 3: { p.saveDesignVariables(); for (auto v : in) saved[v] = v->getParameters(); op << "save(" << in.size() << ")"; break; }
      case 4: {
        p.restoreDesignVariables();
        size_t c = 0;
        for (auto& kv : saved) { c += !same(now[kv.first], kv.second); now[kv.first] = kv.second; }
        changed = std::max(changed, c);
        op << "restore(" << saved.size() << ")";
        break;
      }
      default: if (s.chance(1, 4)) { p.clear(); in.clear(); saved.clear(); op << "clear"; }
        else { auto v = pool[s.index(n)]; v->setActive(!v->isActive()); op << "toggle"; }
    }
    s.desc() << op.str() << "; ";
    checkAll(pool, now, "after step " + std::to_string(k) + ": " + op.str());
  }
  s.nontrivial(changed >= 2);
}

CLAUSE(merged, 12000, 300000, "a restore changed at least two variables back, and a batch was removed") {
  IP p;
  std::vector<DVSP> pool;
  Values now, saved;
  size_t n = 1 + s.index(6);
  std::vector<size_t> gid;
  for (size_t i = 0; i < n; ++i) { pool.push_back(makeVar(s)); now[pool[i].get()] = pool[i]->getParameters(); gid.push_back(s.index(3)); if (s.chance(1, 4)) pool[i]->setActive(false); }
  std::vector<OPSP> batches;
  auto members = [&] { std::set<ab::DesignVariable*> r; for (auto& b : batches) for (size_t i = 0; i < b->numDesignVariables(); ++i) r.insert(b->designVariable(i)); return r; };
  auto addBatch = [&](std::ostream& op) {
    OPSP b = boost::make_shared<OP>();
    auto perm = s.permutation(n);
    size_t c = 1 + s.index(n);
    for (size_t i = 0; i < c; ++i) b->addDesignVariable(pool[perm[i]], gid[perm[i]]);
    p.add(b); batches.push_back(b);
    op << "add batch of " << c;
  };
  for (size_t i = 1 + s.index(3); i--;) addBatch(s.desc());
  size_t steps = 3 + s.index(30), changed = 0;
  bool removed = false;
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    switch (s.choice(7)) {
      case 0: { addBatch(op); break; }
      case 1: case 2: { for (auto& v : pool) if (s.flip()) { Eigen::MatrixXd m = rnd(s, v->getParameters()); v->setParameters(m); now[v.get()] = m; op << "change"; } break; }
      case 3: { p.saveDesignVariables(); for (auto v : members()) saved[v] = v->getParameters(); op << "save"; break; }
      case 4: {
        p.restoreDesignVariables();
        size_t c = 0;
        for (auto& kv : saved) { c += !same(now[kv.first], kv.second); now[kv.first] = kv.second; }
        changed = std::max(changed, c);
        op << "restore(" << saved.size() << ")";
        break;
      }
      case 5: {
        if (batches.empty()) break;
        size_t i = s.index(batches.size());
        if (s.flip()) p.remove(i); else p.remove(batches[i]);
        batches.erase(batches.begin() + i);
        auto left = members();
        for (auto it = saved.begin(); it != saved.end();) { if (!left.count(it->first)) it = saved.erase(it); else ++it; }
        removed = true;
        op << "remove batch " << i;
        break;
      }
      default: if (s.chance(1, 4)) { p.clear(); batches.clear(); saved.clear(); op << "clear"; }
        else { auto v = pool[s.index(n)]; v->setActive(!v->isActive()); op << "toggle"; }
    }
    s.desc() << op.str() << "; ";
    checkAll(pool, now, "after step " + std::to_string(k) + ": " + op.str());
  }
  s.nontrivial(changed >= 2 && removed);
}

// any value a double can hold, in large problems
CLAUSE(large, 300, 8000, "more than 64 variables are restored, some of them to zeros of either sign, tiny, huge or not finite values") {
  IP p;
  const size_t nb = 1 + s.index(30), n = 10 + s.index(150);
  std::vector<boost::shared_ptr<MVar> > pool;
  std::vector<OPSP> batches;
  auto bits = [](const Eigen::MatrixXd& m) { std::vector<uint64_t> r(m.size()); if (m.size()) std::memcpy(r.data(), m.data(), 8 * m.size()); return r; };
  auto fill = [&](MVar& v) {
    static const double special[] = {0.0, -0.0, 5e-324, -5e-324, 1e-300, 1e300, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN(), 0.1, 1.0 / 3};
    for (int k = 0; k < v.m.size(); ++k) v.m.data()[k] = s.flip() ? special[s.index(12)] : s.any(1e9);
  };
  for (size_t i = 0; i < n; ++i) { pool.push_back(boost::make_shared<MVar>(1 + (int)s.index(s.chance(1, 15) ? 40 : 3), 1 + (int)s.index(3))); fill(*pool.back()); }
  std::set<size_t> in;
  for (size_t b = 0; b < nb; ++b) {
    OPSP q = boost::make_shared<OP>();
    for (size_t k = 1 + s.index(2 * n / nb + 2); k--;) { size_t i = s.index(n); if (!q->isDesignVariableInProblem(pool[i].get())) q->addDesignVariable(pool[i], i % 7); in.insert(i); }
    p.add(q);
    batches.push_back(q);
  }
  bool one = s.flip();
  size_t which = s.index(nb);
  if (one) { in.clear(); for (size_t k = 0; k < batches[which]->numDesignVariables(); ++k) for (size_t i = 0; i < n; ++i) if (pool[i].get() == batches[which]->designVariable(k)) in.insert(i); }
  s.desc() << nb << " batches over " << n << " variables, " << in.size() << " saved through " << (one ? "one batch" : "the merged problem") << "; ";
  for (int round = 0; round < 3; ++round) {
    std::vector<std::vector<uint64_t> > saved(n);
    for (size_t i = 0; i < n; ++i) { fill(*pool[i]); saved[i] = bits(pool[i]->m); }
    if (one) batches[which]->saveDesignVariables(); else p.saveDesignVariables();
    for (int again = 0; again < 2; ++again) {
      std::vector<std::vector<uint64_t> > changed(n);
      for (size_t i = 0; i < n; ++i) { fill(*pool[i]); changed[i] = bits(pool[i]->m); }
      if (one) batches[which]->restoreDesignVariables(); else p.restoreDesignVariables();
      for (size_t i = 0; i < n; ++i) VCHECK(bits(pool[i]->m) == (in.count(i) ? saved[i] : changed[i]), "variable " << i << (in.count(i) ? " is not restored to the last bit, round " : " is changed though it was not saved, round ") << round);
    }
  }
  s.nontrivial(in.size() > 64);
}
