// C02/C03-style histories of the merged problem
#include "core.hpp"
using namespace core;
typedef ac::OptimizationProblem OP;
typedef ac::IncrementalOptimizationProblem IP;
typedef boost::shared_ptr<OP> OPSP;

struct World {
  std::vector<VarSP> vars;
  std::vector<size_t> gid;       // home group of each variable
  std::vector<TouchSP> terms;
};

struct Model {
  std::vector<OPSP> batches;
  std::map<Var*, size_t> count, group;
  std::map<size_t, std::vector<Var*> > groups;
  std::vector<size_t> order;
  void add(const OPSP& b) {
    for (size_t i = 0; i < b->numDesignVariables(); ++i) {
      Var* v = static_cast<Var*>(b->designVariable(i));
      size_t g = b->getGroupId(v);
      if (!count.count(v)) {
        if (!groups.count(g)) order.push_back(g);
        groups[g].push_back(v); group[v] = g;
      }
      count[v]++;
    }
    batches.push_back(b);
  }
  void remove(size_t idx) {
    OPSP b = batches[idx];
    for (size_t i = 0; i < b->numDesignVariables(); ++i) {
      Var* v = static_cast<Var*>(b->designVariable(i));
      if (--count[v]) continue;
      count.erase(v);
      size_t g = group[v];
      group.erase(v);
      auto& G = groups[g];
      G.erase(std::find(G.begin(), G.end(), v));
      if (G.empty()) { groups.erase(g); order.erase(std::find(order.begin(), order.end(), g)); }
    }
    batches.erase(batches.begin() + idx);
  }
};

static void compare(IP& p, const Model& m, const World& w, const std::string& at) {
  const IP& cp = p;
  VEQ(p.getNumOptimizationProblems(), m.batches.size(), "number of batches " << at);
  VEQ(p.getOptimizationProblems().size(), m.batches.size(), at);
  for (size_t i = 0; i < m.batches.size(); ++i) {
    VCHECK(p.getOptimizationProblem(i) == m.batches[i].get() && cp.getOptimizationProblem(i) == m.batches[i].get(), "batch " << i << " " << at);
    VCHECK(p.getOptimizationProblem(p.getOptimizationProblemBegin() + i) == m.batches[i].get(), "batch by iterator " << i << " " << at);
    VCHECK(p.getOptimizationProblems()[i] == m.batches[i], at);
    VEQ(p.getErrorTerms(i).size(), m.batches[i]->numErrorTerms(), at);
  }
  VEQ(p.numDesignVariables(), m.count.size(), "number of distinct design variables " << at);
  VEQ(p.getNumGroups(), m.order.size(), at);
  VEQ(p.getDesignVariablesGroups().size(), m.order.size(), at);
  VCHECK(p.getGroupsOrdering() == m.order, "ordering " << seq(p.getGroupsOrdering()) << " expected " << seq(m.order) << " " << at);
  size_t i = 0;
  for (size_t g : m.order) {
    VCHECK(p.isGroupInProblem(g), at);
    const auto& G = m.groups.at(g);
    const auto& R = p.getDesignVariablesGroup(g);
    VEQ(R.size(), G.size(), "size of group " << g << " " << at);
    size_t dim = 0;
    for (size_t k = 0; k < G.size(); ++k, ++i) {
      VCHECK(R[k] == G[k], "group " << g << " position " << k << " holds variable " << static_cast<const Var*>(R[k])->id << " expected " << G[k]->id << " " << at);
      VCHECK(p.designVariable(i) == G[k] && cp.designVariable(i) == G[k], "design variable " << i << " " << at);
      VEQ(p.getGroupId(G[k]), g, at);
      if (G[k]->isActive()) dim += G[k]->minimalDimensions();
    }
    VEQ(p.getGroupDim(g), dim, "dimension of group " << g << " " << at);
  }
  for (auto& v : w.vars) VEQ(p.isDesignVariableInProblem(v.get()), m.count.count(v.get()) == 1, "membership of variable " << v->id << " " << at);
  std::set<const ab::ErrorTerm*> in;
  size_t e = 0;
  for (auto& b : m.batches) for (size_t k = 0; k < b->numErrorTerms(); ++k, ++e) {
    in.insert(b->errorTerm(k));
    VCHECK(e < p.numErrorTerms() && p.errorTerm(e) == b->errorTerm(k) && cp.errorTerm(e) == b->errorTerm(k), "error term " << e << " " << at);
  }
  VEQ(p.numErrorTerms(), e, "number of error terms " << at);
  for (auto& t : w.terms) VEQ(p.isErrorTermInProblem(t.get()), in.count(t.get()) == 1, "membership of an error term " << at);
}

static World world(vpt::Src& s) {
  World w;
  size_t n = 2 + s.index(9);
  for (size_t i = 0; i < n; ++i) {
    w.vars.push_back(boost::make_shared<Var>(1 + (int)s.index(3), (int)i));
    w.vars.back()->setActive(!s.chance(1, 5));
    static const size_t g[] = {0, 1, 2, 5, 99};
    w.gid.push_back(g[s.index(5)]);
  }
  return w;
}

// a batch over a random subset of the variables, with error terms of its own (some shared with earlier batches)
static OPSP batch(vpt::Src& s, World& w, bool allowShared, bool allowMismatch, std::ostream& o) {
  OPSP b = boost::make_shared<OP>();
  auto perm = s.permutation(w.vars.size());
  size_t n = s.index(w.vars.size() + 1);
  o << "{vars";
  for (size_t k = 0; k < n; ++k) {
    size_t i = perm[k];
    size_t g = w.gid[i];
    if (allowMismatch && s.chance(1, 8)) g = 77;
    b->addDesignVariable(w.vars[i], g);
    o << " " << i << "@" << g;
  }
  size_t ne = n ? s.index(4) : (s.chance(1, 4) ? 1 : 0);
  for (size_t k = 0; k < ne; ++k) {
    std::vector<ab::DesignVariable*> vs;
    size_t c = n ? 1 + s.index(2) : 0;
    for (size_t j = 0; j < c; ++j) vs.push_back(w.vars[perm[s.index(n)]].get());
    auto t = boost::make_shared<Touch>(vs);
    w.terms.push_back(t);
    b->addErrorTerm(t);
  }
  o << ", " << ne << " terms";
  if (allowShared && !w.terms.empty() && s.chance(1, 5)) {
    auto t = w.terms[s.index(w.terms.size())];
    bool ok = !b->isErrorTermInProblem(t.get());
    for (auto d : t->designVariables()) ok = ok && b->isDesignVariableInProblem(d);
    if (ok) { b->addErrorTerm(t); o << " + one shared"; }
  }
  o << "}";
  return b;
}

static bool mergeable(const Model& m, const OPSP& b) {
  for (size_t i = 0; i < b->numDesignVariables(); ++i) {
    Var* v = static_cast<Var*>(b->designVariable(i));
    if (m.group.count(v) && m.group.at(v) != b->getGroupId(v)) return false;
  }
  for (auto& x : m.batches) for (size_t k = 0; k < b->numErrorTerms(); ++k) if (x->isErrorTermInProblem(b->errorTerm(k))) return false;
  return true;
}

static void history(vpt::Src& s, bool adversarial) {
  World w = world(s);
  IP p;
  const IP& cp = p;
  Model m;
  std::vector<OPSP> all;
  const size_t steps = 1 + s.index(25);
  bool shared = false, removed = false, refused = false;
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream op;
    switch (s.choice(9)) {
      case 0: case 1: case 2: {
        OPSP b;
        if (!all.empty() && s.chance(1, 4)) { size_t i = s.index(all.size()); b = all[i]; op << "add(batch " << i << " again)"; }
        else { op << "add("; b = batch(s, w, adversarial, adversarial, op); op << ")"; all.push_back(b); }
        bool inside = std::count(m.batches.begin(), m.batches.end(), b);
        if (inside && b->numErrorTerms() == 0) { op << " skipped"; break; }  // adding an empty batch twice is not specified
        if (mergeable(m, b)) {
          VNOTHROW(p.add(b), op.str());
          for (size_t i = 0; i < b->numDesignVariables(); ++i) if (m.count.count(static_cast<Var*>(b->designVariable(i)))) shared = true;
          m.add(b);
        } else {
          VTHROWS(InvalidOp, p.add(b), op.str());
          refused = true;
        }
        break;
      }
      case 3: {
        if (m.batches.empty()) break;
        size_t i = s.index(m.batches.size());
        size_t how = s.choice(3);
        op << "remove(" << i << (how == 0 ? " by index)" : how == 1 ? " by pointer)" : " by iterator)");
        OPSP b = m.batches[i];
        if (how == 0) { VNOTHROW(p.remove(i), op.str()); }
        else if (how == 1) { VNOTHROW(p.remove(b), op.str()); i = std::find(m.batches.begin(), m.batches.end(), b) - m.batches.begin(); }
        else { VNOTHROW(p.remove(p.getOptimizationProblemBegin() + i), op.str()); }
        m.remove(i);
        removed = true;
        break;
      }
      case 4: {
        op << "refused removals and lookups";
        size_t n = m.batches.size(), over = s.chance(1, 3) ? (s.flip() ? ((size_t)1 << 60) : ((size_t)-1) - n) : s.index(5);
        OPSP foreign = boost::make_shared<OP>();
        VTHROWS(OOB, p.remove(n + over), op.str());
        VTHROWS(OOB, p.remove(p.getOptimizationProblemEnd()), op.str());
        VTHROWS(InvalidOp, p.remove(foreign), op.str());
        VTHROWS(OOB, p.getOptimizationProblem(n + over), op.str());
        VTHROWS(OOB, cp.getOptimizationProblem(n + over), op.str());
        VTHROWS(OOB, p.getOptimizationProblem(p.getOptimizationProblemEnd()), op.str());
        VTHROWS(OOB, cp.getOptimizationProblem(cp.getOptimizationProblems().cend()), op.str());
        VTHROWS(OOB, p.getErrorTerms(n + over), op.str());
        VCHECK(p.getOptimizationProblem(foreign) == p.getOptimizationProblemEnd(), op.str());
        VTHROWS(NullPtr, p.add(OPSP()), op.str());
        VTHROWS(OOB, p.designVariable(m.count.size() + s.index(5)), op.str());
        VTHROWS(OOB, cp.designVariable(m.count.size() + s.index(5)), op.str());
        VTHROWS(OOB, p.errorTerm(p.numErrorTerms() + s.index(5)), op.str());
        VTHROWS(OOB, cp.errorTerm(p.numErrorTerms() + s.index(5)), op.str());
        VTHROWS(OOB, p.getDesignVariablesGroup(31337), op.str());
        VTHROWS(OOB, p.getGroupDim(31337), op.str());
        for (auto& v : w.vars) if (!m.count.count(v.get())) VTHROWS(InvalidOp, p.getGroupId(v.get()), op.str());
        refused = true;
        break;
      }
      case 5: {
        if (m.order.empty()) break;
        size_t g = m.order[s.index(m.order.size())];
        auto& G = m.groups[g];
        if (!s.chance(1, 4)) {
          auto q = s.permutation(G.size());
          op << "permuteDesignVariables(" << seq(q) << ", " << g << ")";
          VNOTHROW(p.permuteDesignVariables(q, g), op.str());
          G = permuted(G, q);
        } else {
          std::string kind;
          auto q = badPermutation(s, G.size(), kind);
          op << "permuteDesignVariables(bad " << kind << " " << seq(q) << ", " << g << ")";
          VTHROWS(OOB, p.permuteDesignVariables(q, g), op.str());
          VTHROWS(OOB, p.permuteDesignVariables(q, 31337), op.str());
          refused = true;
        }
        break;
      }
      case 6: {
        if (!s.chance(1, 4)) {
          auto q = s.permutation(m.batches.size());
          op << "permuteOptimizationProblems(" << seq(q) << ")";
          VNOTHROW(p.permuteOptimizationProblems(q), op.str());
          m.batches = permuted(m.batches, q);
        } else {
          std::string kind;
          auto q = badPermutation(s, m.batches.size(), kind);
          op << "permuteOptimizationProblems(bad " << kind << " " << seq(q) << ")";
          VTHROWS(OOB, p.permuteOptimizationProblems(q), op.str());
          refused = true;
        }
        break;
      }
      case 7: {
        std::vector<size_t> o = permuted(m.order, s.permutation(m.order.size()));
        size_t mode = s.choice(4);
        if (mode == 3 && o.size() >= 2) { o[0] = o[1]; op << "setGroupsOrdering(duplicate)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else if (mode == 2) { if (o.empty() || s.flip()) o.push_back(o.empty() ? 0 : o[0]); else o.pop_back(); op << "setGroupsOrdering(wrong size)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else if (mode == 1 && !o.empty()) { o[s.index(o.size())] = 424242; op << "setGroupsOrdering(unknown)"; VTHROWS(OOB, p.setGroupsOrdering(o), op.str()); refused = true; }
        else { op << "setGroupsOrdering(" << seq(o) << ")"; VNOTHROW(p.setGroupsOrdering(o), op.str()); m.order = o; }
        break;
      }
      default: {
        if (s.chance(1, 5)) { op << "clear"; p.clear(); m = Model(); }
        else { VarSP v = w.vars[s.index(w.vars.size())]; v->setActive(!v->isActive()); op << "toggle activity of " << v->id; }
      }
    }
    s.desc() << op.str() << "; ";
    compare(p, m, w, "after step " + std::to_string(k) + ": " + op.str());
  }
  s.nontrivial(adversarial ? (refused && shared) : (shared && removed));
}

CLAUSE(history, 16000, 400000, "two batches shared a design variable and a batch was removed") { history(s, false); }
CLAUSE(refusals, 16000, 400000, "as history, with batches whose merge must be refused: group mismatches and error terms already present; the merged problem is unchanged by a refusal") { history(s, true); }

// many batches over many variables: some variables in every batch, groups far apart, removal in any order
CLAUSE(large, 60, 1500, "more than 255 batches share a variable") {
  World w;
  IP p;
  Model m;
  const size_t n = 5 + s.index(60), nb = 20 + s.index(600), stride = (size_t)1 << (8 * s.index(8));
  for (size_t i = 0; i < n; ++i) {
    w.vars.push_back(boost::make_shared<Var>(1 + (int)s.index(3), (int)i));
    w.vars.back()->setActive(!s.chance(1, 5));
    w.gid.push_back(s.index(s.flip() ? 3 : n) * stride);
  }
  s.desc() << n << " variables, " << nb << " batches, groups " << stride << " apart; ";
  std::vector<OPSP> all;
  for (size_t b = 0; b < nb; ++b) {
    OPSP q = boost::make_shared<OP>();
    auto add = [&](size_t i) { if (!q->isDesignVariableInProblem(w.vars[i].get())) q->addDesignVariable(w.vars[i], w.gid[i]); };
    if (s.flip()) { add(0); add(1); }
    for (size_t k = s.index(4); k--;) add(s.index(n));
    add(0);
    for (size_t k = s.index(3); k--;) {
      auto t = boost::make_shared<Touch>(std::vector<ab::DesignVariable*>(1, w.vars[0].get()));
      w.terms.push_back(t);
      q->addErrorTerm(t);
    }
    VNOTHROW(p.add(q), "add");
    m.add(q);
    all.push_back(q);
  }
  compare(p, m, w, "with all batches");
  {
    auto q = s.permutation(nb);
    VNOTHROW(p.permuteOptimizationProblems(q), "permuteOptimizationProblems");
    m.batches = permuted(m.batches, q);
    auto o = permuted(m.order, s.permutation(m.order.size()));
    VNOTHROW(p.setGroupsOrdering(o), "setGroupsOrdering");
    m.order = o;
    compare(p, m, w, "rearranged");
  }
  size_t stops = 1 + s.index(4);
  while (!m.batches.empty()) {
    size_t i = s.flip() ? s.index(m.batches.size()) : m.batches.size() - 1;
    if (s.flip()) { VNOTHROW(p.remove(i), "remove"); } else { VNOTHROW(p.remove(m.batches[i]), "remove"); }
    m.remove(i);
    if (m.batches.size() < 2 || m.batches.size() == nb / 2 || m.batches.size() == nb - 256 || m.batches.size() == 256 || s.index(nb) < stops) compare(p, m, w, "with " + std::to_string(m.batches.size()) + " batches left");
  }
  VNOTHROW(p.add(all[0]), "add again");
  m.add(all[0]);
  compare(p, m, w, "with one batch added again");
  s.nontrivial(nb > 255);
}
