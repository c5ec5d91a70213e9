// C01: the batch container behaves like its abstract model over arbitrary operation histories
#include "core.hpp"
using namespace core;
typedef ac::OptimizationProblem OP;

struct Model {
  std::vector<size_t> order;
  std::map<size_t, std::vector<Var*> > groups;
  std::vector<ab::ErrorTerm*> ets;
  size_t ndv() const { size_t n = 0; for (auto& g : groups) n += g.second.size(); return n; }
  const size_t* groupOf(Var* v) const { for (auto& g : groups) for (auto x : g.second) if (x == v) return &g.first; return nullptr; }
};

static void compare(OP& p, const Model& m, const std::vector<VarSP>& pool, const std::vector<TouchSP>& terms, const std::string& at) {
  const OP& cp = p;
  const size_t n = m.ndv();
  VEQ(p.numDesignVariables(), n, "number of design variables " << at);
  VEQ(p.numErrorTerms(), m.ets.size(), "number of error terms " << at);
  VEQ(p.getNumGroups(), m.order.size(), at);
  VCHECK(p.getGroupsOrdering() == m.order, "ordering " << seq(p.getGroupsOrdering()) << " expected " << seq(m.order) << " " << at);
  size_t i = 0;
  for (size_t g : m.order) {
    const auto& G = m.groups.at(g);
    VCHECK(p.isGroupInProblem(g), "group " << g << " " << at);
    const auto& R = p.getDesignVariablesGroup(g);
    VEQ(R.size(), G.size(), "size of group " << g << " " << at);
    size_t dim = 0;
    for (size_t k = 0; k < G.size(); ++k, ++i) {
      VCHECK(R[k].get() == G[k], "group " << g << " position " << k << " " << at);
      VCHECK(p.designVariable(i) == G[k] && cp.designVariable(i) == G[k], "design variable " << i << " should be group " << g << " position " << k << " " << at);
      VEQ(p.getGroupId(G[k]), g, at);
      if (G[k]->isActive()) dim += G[k]->minimalDimensions();
    }
    VEQ(p.getGroupDim(g), dim, "dimension of group " << g << " counts its active variables " << at);
  }
  VEQ(p.getDesignVariablesGroups().size(), m.order.size(), at);
  for (size_t k = 0; k < m.ets.size(); ++k) {
    VCHECK(p.errorTerm(k) == m.ets[k] && cp.errorTerm(k) == m.ets[k], "error term " << k << " " << at);
    VCHECK(p.getErrorTerms()[k].get() == m.ets[k], "error term list " << k << " " << at);
  }
  VEQ(p.getErrorTerms().size(), m.ets.size(), at);
  for (auto& v : pool) {
    VEQ(p.isDesignVariableInProblem(v.get()), m.groupOf(v.get()) != nullptr, "membership of variable " << v->id << " " << at);
    std::set<ab::ErrorTerm*> got, want;
    p.getErrors(v.get(), got);
    for (auto e : m.ets) for (auto d : e->designVariables()) if (d == v.get()) want.insert(e);
    VCHECK(got == want, "error terms using variable " << v->id << ": " << got.size() << " reported, " << want.size() << " expected " << at);
  }
  for (auto& t : terms) VEQ(p.isErrorTermInProblem(t.get()), std::count(m.ets.begin(), m.ets.end(), (ab::ErrorTerm*)t.get()) == 1, "membership of an error term " << at);
}

CLAUSE(history, 24000, 600000, "at least two groups, one error term, and one refused operation occurred") {
  OP p;
  Model m;
  std::vector<VarSP> pool;
  std::vector<TouchSP> terms;
  const size_t nPool = 3 + s.index(8);
  for (size_t i = 0; i < nPool; ++i) { pool.push_back(boost::make_shared<Var>(1 + (int)s.index(4), (int)i)); pool.back()->setActive(!s.chance(1, 4)); }
  static const size_t gids[] = {0, 1, 2, 7, 1000000007ull, (size_t)-1};
  const size_t steps = 1 + s.index(40);
  bool refused = false, sawGroups = false, sawTerm = false;
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    switch (s.choice(12)) {
      case 0: case 1: case 2: {
        VarSP v = pool[s.index(nPool)];
        size_t g = gids[s.index(6)];
        op << "addDesignVariable(" << v->id << ", group " << g << ")";
        if (m.groupOf(v.get())) { VTHROWS(InvalidOp, p.addDesignVariable(v, g), op.str()); refused = true; }
        else {
          VNOTHROW(p.addDesignVariable(v, g), op.str());
          if (!m.groups.count(g)) m.order.push_back(g);
          m.groups[g].push_back(v.get());
        }
        break;
      }
      case 3: case 4: {
        std::vector<ab::DesignVariable*> vs;
        size_t cnt = s.index(4);
        bool ok = true;
        for (size_t i = 0; i < cnt; ++i) {
          std::vector<Var*> in;
          for (auto& g : m.groups) for (auto v : g.second) in.push_back(v);
          Var* v = (!in.empty() && !s.chance(1, 5)) ? in[s.index(in.size())] : pool[s.index(nPool)].get();
          vs.push_back(v);
          ok = ok && m.groupOf(v);
        }
        auto t = boost::make_shared<Touch>(vs);
        op << "addErrorTerm(" << cnt << " variables, " << (ok ? "all known" : "one unknown") << ")";
        terms.push_back(t);
        if (ok) { VNOTHROW(p.addErrorTerm(t), op.str()); m.ets.push_back(t.get()); }
        else { VTHROWS(InvalidOp, p.addErrorTerm(t), op.str()); refused = true; }
        break;
      }
      case 5: {
        if (terms.empty()) break;
        auto t = terms[s.index(terms.size())];
        bool in = std::count(m.ets.begin(), m.ets.end(), (ab::ErrorTerm*)t.get());
        bool ok = true;
        for (auto d : t->designVariables()) ok = ok && m.groupOf(static_cast<Var*>(d));
        op << "addErrorTerm(again)";
        if (in || !ok) { VTHROWS(InvalidOp, p.addErrorTerm(t), op.str()); refused = true; }
        else { VNOTHROW(p.addErrorTerm(t), op.str()); m.ets.push_back(t.get()); }
        break;
      }
      case 6: {
        op << "null arguments";
        VTHROWS(NullPtr, p.addDesignVariable(OP::DesignVariableSP()), "");
        VTHROWS(NullPtr, p.addErrorTerm(OP::ErrorTermSP()), "");
        refused = true;
        break;
      }
      case 7: {
        if (s.flip()) {
          auto q = s.permutation(m.ets.size());
          op << "permuteErrorTerms(" << seq(q) << ")";
          VNOTHROW(p.permuteErrorTerms(q), op.str());
          m.ets = permuted(m.ets, q);
        } else {
          std::string kind;
          auto q = badPermutation(s, m.ets.size(), kind);
          op << "permuteErrorTerms(bad " << kind << " " << seq(q) << ")";
          VTHROWS(OOB, p.permuteErrorTerms(q), op.str());
          refused = true;
        }
        break;
      }
      case 8: {
        size_t g = m.order.empty() || s.chance(1, 5) ? gids[s.index(6)] : m.order[s.index(m.order.size())];
        if (!m.groups.count(g)) { op << "permuteDesignVariables(unknown group " << g << ")"; VTHROWS(OOB, p.permuteDesignVariables({}, g), op.str()); refused = true; break; }
        auto& G = m.groups[g];
        if (!s.chance(1, 4)) {
          auto q = s.permutation(G.size());
          op << "permuteDesignVariables(" << seq(q) << ", " << g << ")";
          VNOTHROW(p.permuteDesignVariables(q, g), op.str());
          G = permuted(G, q);
        } else {
          std::string kind;
          auto q = badPermutation(s, G.size(), kind);
          op << "permuteDesignVariables(bad " << kind << " " << seq(q) << ", " << g << ")";
          VTHROWS(OOB, p.permuteDesignVariables(q, g), op.str());
          refused = true;
        }
        break;
      }
      case 9: {
        auto q = s.permutation(m.order.size());
        std::vector<size_t> o = permuted(m.order, q);
        size_t mode = s.choice(4);
        if (mode == 3 && o.size() >= 2) { o[0] = o[1]; op << "setGroupsOrdering(duplicate)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else if (mode == 2) { if (o.empty() || s.flip()) o.push_back(o.empty() ? 0 : o[0]); else o.pop_back(); op << "setGroupsOrdering(wrong size)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else if (mode == 1 && !o.empty()) { o[s.index(o.size())] = 424242; op << "setGroupsOrdering(unknown)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else { op << "setGroupsOrdering(" << seq(o) << ")"; VNOTHROW(p.setGroupsOrdering(o), op.str()); m.order = o; }
        break;
      }
      case 10: {
        VarSP v = pool[s.index(nPool)];
        v->setActive(!v->isActive());
        op << "toggle activity of " << v->id;
        break;
      }
      default: {
        if (s.chance(1, 6)) { op << "clear"; p.clear(); m = Model(); break; }
        op << "queries out of range";
        const OP& cp = p;
        size_t over = s.flip() ? 0 : s.index(50);
        VTHROWS(OOB, p.designVariable(m.ndv() + over), op.str());
        VTHROWS(OOB, cp.designVariable(m.ndv() + over), op.str());
        VTHROWS(OOB, p.errorTerm(m.ets.size() + over), op.str());
        VTHROWS(OOB, cp.errorTerm(m.ets.size() + over), op.str());
        size_t g = 31337;
        VTHROWS(OOB, p.getDesignVariablesGroup(g), op.str());
        VTHROWS(OOB, p.getGroupDim(g), op.str());
        VCHECK(!p.isGroupInProblem(g), op.str());
        for (auto& v : pool) if (!m.groupOf(v.get())) VTHROWS(InvalidOp, p.getGroupId(v.get()), op.str());
        refused = true;
      }
    }
    s.desc() << op.str() << "; ";
    compare(p, m, pool, terms, "after step " + std::to_string(k) + ": " + op.str());
    sawGroups = sawGroups || m.order.size() >= 2;
    sawTerm = sawTerm || !m.ets.empty();
  }
  s.nontrivial(sawGroups && sawTerm && refused);
}

CLAUSE(large, 120, 3000, "more than 255 variables, groups or error terms") {
  OP p;
  Model m;
  std::vector<VarSP> pool;
  std::vector<TouchSP> terms;
  const size_t n = 20 + s.index(600), ng = 1 + s.index(s.flip() ? n : 5), stride = s.flip() ? 1 : ((size_t)1 << (8 * s.index(8))) + s.index(3);
  s.desc() << n << " variables, " << ng << " groups " << stride << " apart; ";
  for (size_t i = 0; i < n; ++i) {
    auto v = boost::make_shared<Var>(1 + (int)s.index(s.chance(1, 20) ? 300 : 4), (int)i);
    v->setActive(!s.chance(1, 4));
    pool.push_back(v);
    size_t g = (i < ng ? i : s.index(ng)) * stride;
    VNOTHROW(p.addDesignVariable(v, g), "addDesignVariable");
    if (!m.groups.count(g)) m.order.push_back(g);
    m.groups[g].push_back(v.get());
  }
  size_t ne = s.index(700);
  for (size_t k = 0; k < ne; ++k) {
    std::vector<ab::DesignVariable*> vs;
    for (size_t j = s.chance(1, 50) ? s.index(n) : s.index(3); j--;) vs.push_back(pool[s.index(n)].get());
    auto t = boost::make_shared<Touch>(vs);
    terms.push_back(t);
    VNOTHROW(p.addErrorTerm(t), "addErrorTerm");
    m.ets.push_back(t.get());
  }
  compare(p, m, pool, terms, "after the additions");
  for (size_t k = 0; k < 3; ++k) {
    auto o = permuted(m.order, s.permutation(m.order.size()));
    VNOTHROW(p.setGroupsOrdering(o), "setGroupsOrdering");
    m.order = o;
    size_t g = m.order[s.index(m.order.size())];
    auto q = s.permutation(m.groups[g].size());
    VNOTHROW(p.permuteDesignVariables(q, g), "permuteDesignVariables");
    m.groups[g] = permuted(m.groups[g], q);
    q = s.permutation(ne);
    VNOTHROW(p.permuteErrorTerms(q), "permuteErrorTerms");
    m.ets = permuted(m.ets, q);
    VTHROWS(InvalidOp, p.addDesignVariable(pool[s.index(n)], s.index(9)), "adding a variable again");
    if (ne) VTHROWS(InvalidOp, p.addErrorTerm(terms[s.index(ne)]), "adding an error term again");
    if (o.size() > 2) { auto bad = o; size_t i = s.index(bad.size()), j = (i + 1 + s.index(bad.size() - 1)) % bad.size(); bad[i] = bad[j]; VTHROWS(OOB, p.setGroupsOrdering(bad), "ordering with a duplicate"); }
    compare(p, m, pool, terms, "after the rearrangements");
  }
  s.nontrivial(n > 255 || ne > 255);
}
