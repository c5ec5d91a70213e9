// C11: vector design variables: additive updates, one step of revert, shapes enforced
#include "vpt.hpp"
#include <sstream>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
namespace ac = aslam::calibration;

template <int M> struct Probe : ac::VectorDesignVariable<M> {
  typedef ac::VectorDesignVariable<M> Base;
  using Base::Base;
  Probe(const typename Base::Container& c) : Base(c) {}
};
static Eigen::VectorXd vec(vpt::Src& s, int n) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = s.chance(1, 10) ? s.logReal(1e-200, 1e200) : s.real(-100, 100); return v; }

template <int M> static void history(vpt::Src& s, int n) {
  typedef ac::VectorDesignVariable<M> V;
  typedef typename V::Container C;
  Eigen::VectorXd cur = vec(s, n), old = cur;
  V* v = new V(C(cur));
  std::unique_ptr<V> own(v);
  bool reverted = false, wrote = false;
  size_t steps = 1 + s.index(12);
  for (size_t k = 0; k < steps; ++k) {
    std::ostringstream at;
    switch (s.choice(8)) {
      case 0: { Eigen::VectorXd d = vec(s, n); at << "update"; v->update(d.data(), n); old = cur; cur += d; wrote = true; break; }
      case 1: at << "revert"; v->revertUpdate(); cur = old; reverted = reverted || wrote; break;
      case 2: { Eigen::VectorXd d = vec(s, n); at << "setValue"; v->setValue(C(d)); old = cur; cur = d; wrote = true; break; }
      case 3: { Eigen::MatrixXd d = vec(s, n); at << "setParameters"; v->setParameters(d); old = cur; cur = d; wrote = true; break; }
      case 4: {
        int r = n, c = 1;
        if (s.flip()) r = n + 1 + (int)s.index(2); else if (s.flip() && n > 1) { r = 1; c = n; } else c = s.flip() ? 2 : 0;
        at << "setParameters of wrong shape " << r << "x" << c;
        VTHROWS(ac::OutOfBoundException<int>, v->setParameters(Eigen::MatrixXd::Ones(r, c)), at.str());
        break;
      }
      case 5: {
        at << "copy";
        V* w = new V(*v);
        std::unique_ptr<V> hold(w);
        Eigen::VectorXd d = vec(s, n);
        v->update(d.data(), n);  // the original goes its own way
        VCHECK(w->getValue() == cur, "the copy follows the original");
        own = std::move(hold); v = w;
        break;
      }
      case 6: {
        at << "assignment";
        Eigen::VectorXd o = vec(s, n);
        V* w = new V(C(o));
        std::unique_ptr<V> hold(w);
        v->setScaling(s.flip() ? 1.0 : 2.5); v->setActive(s.flip()); v->setBlockIndex((int)s.index(9)); v->setColumnBase((int)s.index(9));
        *w = *v;
        VCHECK(w->scaling() == v->scaling() && w->isActive() == v->isActive() && w->blockIndex() == v->blockIndex() && w->columnBase() == v->columnBase(), "the assigned variable's place in the problem differs");
        own = std::move(hold); v = w;
        V& self = *v;
        *v = self;
        break;
      }
      default: at << "read"; { Eigen::MatrixXd p; v->getParameters(p); VCHECK(p.rows() == n && p.cols() == 1 && p == cur, "parameters " << p.transpose() << " expected " << cur.transpose()); }
    }
    s.desc() << at.str() << "; ";
    VCHECK(v->getValue() == cur, "value " << v->getValue().transpose() << " expected " << cur.transpose() << " after " << at.str());
    VEQ(v->minimalDimensions(), n, "dimension");
    Eigen::MatrixXd p;
    v->getParameters(p);
    VCHECK(p.rows() == n && p.cols() == 1 && p == cur, "parameters after " << at.str());
  }
  // what is read can be written back
  Eigen::MatrixXd p;
  v->getParameters(p);
  V other(C(vec(s, n)));
  other.setParameters(p);
  VCHECK(other.getValue() == cur, "parameters written to another variable");
  std::ostringstream o, w;
  o << *v;
  w << cur.transpose();
  std::istringstream i(o.str());
  for (int k = 0; k < n; ++k) { double x = 0; VCHECK(bool(i >> x), "output '" << o.str() << "' lacks element " << k); VCLOSE(x, cur[k], 1e-4, 1e-4, "printed element " << k); }
  s.nontrivial(reverted);
}

CLAUSE(history, 40000, 800000, "a change was reverted") {
  switch (s.index(6)) {
    case 0: history<1>(s, 1); break;
    case 1: history<2>(s, 2); break;
    case 2: history<3>(s, 3); break;
    case 3: history<6>(s, 6); break;
    case 4: history<11>(s, 11); break;
    default: history<Eigen::Dynamic>(s, 1 + (int)s.index(7));
  }
}

CLAUSE(fresh, 3000, 20000, "a default-constructed variable") {
  ac::VectorDesignVariable<3> a;
  VCHECK(a.getValue() == Eigen::Vector3d::Zero(), "default value " << a.getValue().transpose());
  a.revertUpdate();
  VCHECK(a.getValue() == Eigen::Vector3d::Zero(), "revert without an update");
  Eigen::Vector3d x(s.real(-5, 5), s.real(-5, 5), s.real(-5, 5));
  ac::VectorDesignVariable<3> b(x);
  b.revertUpdate();
  VCHECK(b.getValue() == x, "revert without an update " << b.getValue().transpose());
  s.nontrivial();
}
