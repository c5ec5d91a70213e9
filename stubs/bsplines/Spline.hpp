#pragma once
// uniform B-splines of vectors and of unit quaternions (normalized blends) whose control points are design variables
#include <stdexcept>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <aslam/backend/Expressions.hpp>
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines {
namespace detail {
using aslam::backend::DesignVariable; using aslam::backend::JacobianContainer;
typedef sm::timing::NsecTime NsecTime;
typedef aslam::backend::FixedPointNumber<NsecTime, (long)1e9> Time;
inline double basis(int k, double x, int d) {
  if (x < 0 || x >= k) return 0;
  if (d > 0) return k == 1 ? 0 : basis(k - 1, x, d - 1) - basis(k - 1, x - 1, d - 1);
  if (k == 1) return 1;
  return (x * basis(k - 1, x, 0) + (k - x) * basis(k - 1, x - 1, 0)) / (k - 1);
}
template <int N> struct Control : DesignVariable {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<double, N, 1> V;
  V v, b;
  Control() : v(V::Zero()), b(V::Zero()) {}
  int minimalDimensionsImplementation() const override { return 3; }
  void updateImplementation(const double* d, int) override { b = v; v = moved(Eigen::Vector3d(d[0], d[1], d[2])); }
  V moved(const Eigen::Vector3d& d) const;
  void revertUpdateImplementation() override { v = b; }
  void getParametersImplementation(Eigen::MatrixXd& m) const override { m = v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) override { b = v; v = m; }
};
template <> inline Eigen::Vector3d Control<3>::moved(const Eigen::Vector3d& d) const { return v + d; }
template <> inline Eigen::Vector4d Control<4>::moved(const Eigen::Vector3d& d) const { return sm::kinematics::qplus(sm::kinematics::axisAngle2quat(d), v); }

template <int N> class Spline {
 public:
  typedef Eigen::Matrix<double, N, 1> V;
  typedef Eigen::Matrix<double, N, 1> point_t;
  explicit Spline(int order) : _k(order), _m(0), _t0(0), _t1(0) { if (order < 2) throw std::runtime_error("spline order"); }
  NsecTime getMinTime() const { return _t0; }
  NsecTime getMaxTime() const { return _t1; }
  int order() const { return _k; }
  int numSegments() const { return _m; }
  size_t numDesignVariables() const { return _c.size(); }
  DesignVariable* designVariable(size_t i) { return _c.at(i).get(); }
  void fit(const std::vector<NsecTime>& t, const std::vector<V>& p, int segments, double lambda) {
    if (t.size() != p.size() || t.size() < 2 || segments < 1) throw std::runtime_error("spline fit: bad arguments");
    for (size_t i = 1; i < t.size(); ++i) if (t[i] < t[i - 1]) throw std::runtime_error("spline fit: times are not sorted");
    if (t.back() <= t.front()) throw std::runtime_error("spline fit: empty time range");
    _t0 = t.front(); _t1 = t.back(); _m = segments;
    const int n = _m + _k - 1;
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n), B = Eigen::MatrixXd::Zero(n, N);
    double w[16]; int s;
    for (size_t i = 0; i < t.size(); ++i) { s = weights(t[i], 0, w); for (int a = 0; a < _k; ++a) { B.row(s + a) += w[a] * p[i].transpose(); for (int b = 0; b < _k; ++b) A(s + a, s + b) += w[a] * w[b]; } }
    // the smallest change of slope among all fits, and lambda
    for (int i = 1; i + 1 < n; ++i) { const int ix[3] = {i - 1, i, i + 1}; const double g[3] = {1, -2, 1}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) A(ix[a], ix[b]) += (1e-9 + lambda) * g[a] * g[b]; }
    A.diagonal().array() += 1e-13;
    const Eigen::MatrixXd X = A.ldlt().solve(B);
    _c.clear();
    for (int i = 0; i < n; ++i) { _c.push_back(boost::make_shared<Control<N> >()); _c.back()->v = X.row(i).transpose(); _c.back()->b = _c.back()->v; }
  }
  double period() const { return (double)(_t1 - _t0) * 1e-9 / _m; }
  // the first control point of the segment of t and the weights of the order() control points from there
  int weights(NsecTime t, int d, double* w) const {
    double u = (double)(t - _t0) * 1e-9 / period();
    int s = (int)std::floor(u); s = std::max(0, std::min(_m - 1, s));
    double x = std::min(u - s, 1 - 1e-15);
    const double sc = std::pow(1 / period(), d);
    for (int a = 0; a < _k; ++a) w[a] = basis(_k, x + (_k - 1 - a), d) * sc;
    return s;
  }
  void check(NsecTime t) const { if (_c.empty() || t < _t0 || t > _t1) throw std::out_of_range("time outside the spline"); }
  V blend(NsecTime t, int d) const { double w[16]; const int s = weights(t, d, w); V v = V::Zero(); for (int a = 0; a < _k; ++a) v += w[a] * _c[s + a]->v; return v; }
  const std::vector<boost::shared_ptr<Control<N> > >& controls() const { return _c; }

  struct At { const Spline* s; std::shared_ptr<aslam::backend::expr::Node<Time> > tn; NsecTime t; NsecTime time() const { const NsecTime x = tn ? tn->value().getNumerator() : t; s->check(x); return x; } };
  enum Kind { kValue, kAngular };
  // value (or its derivative) or angular velocity as an expression
  template <int M> struct Ex : aslam::backend::expr::Node<Eigen::Matrix<double, M, 1> > {
    At at; Kind kind; int d;
    Ex(const At& a, Kind k, int dd) : at(a), kind(k), d(dd) {}
    typedef Eigen::Matrix<double, M, 1> R;
    R eval(NsecTime t) const { return at.s->template eval<M>(t, kind, d); }
    R value() const override { return eval(at.time()); }
    void dvs(DesignVariable::set_t& s) const override {
      // with a variable time any control point can become involved
      double w[16]; const NsecTime t = at.time(); const int a = at.s->weights(t, 0, w), o = at.s->order();
      for (int i = 0; i < (int)at.s->_c.size(); ++i) if (at.tn ? true : (i >= a && i < a + o)) s.insert(at.s->_c[i].get());
      if (at.tn) at.tn->dvs(s);
    }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const override {
      const NsecTime t = at.time(); double w[16]; const int a = at.s->weights(t, 0, w);
      for (int i = a; i < a + at.s->order(); ++i) {
        Control<N>& q = *at.s->_c[i]; const auto keep = q.v; Eigen::Matrix<double, M, 3> D; const double h = 1e-6;
        for (int k = 0; k < 3; ++k) {
          q.v = keep; q.v = q.moved(h * Eigen::Vector3d::Unit(k)); const R p = eval(t);
          q.v = keep; q.v = q.moved(-h * Eigen::Vector3d::Unit(k)); const R m = eval(t);
          D.col(k) = (p - m) / (2 * h);
        }
        q.v = keep;
        J.add(&q, c * D);
      }
      if (at.tn) {
        const NsecTime h = 100000; const NsecTime p = std::min(t + h, at.s->_t1), m = std::max(t - h, at.s->_t0);
        const R D = (eval(p) - eval(m)) / ((double)(p - m) * 1e-9);
        at.tn->jac(J, c * D);
      }
    }
  };
  template <int M> Eigen::Matrix<double, M, 1> eval(NsecTime t, Kind kind, int d) const;
  template <int MaxD> struct Factory {
    At at;
    aslam::backend::VectorExpression<N> getValueExpression(int d = 0) const { if (d > MaxD) throw std::runtime_error("derivative not prepared"); return aslam::backend::expr::VN<N>(new Ex<N>(at, kValue, d)); }
    aslam::backend::VectorExpression<3> getAngularVelocityExpression() const { if (MaxD < 1) throw std::runtime_error("derivative not prepared"); return aslam::backend::expr::VN<3>(new Ex<3>(at, kAngular, 0)); }
  };
  template <int MaxD> Factory<MaxD> getExpressionFactoryAt(NsecTime t) const { check(t); return Factory<MaxD>{At{this, nullptr, t}}; }
  template <int MaxD> Factory<MaxD> getExpressionFactoryAt(const aslam::backend::GenericScalarExpression<Time>& e, NsecTime lo, NsecTime hi) const {
    check(lo); check(hi); const NsecTime t = e.toScalar().getNumerator(); if (t < lo || t > hi) throw std::out_of_range("time outside its bounds");
    return Factory<MaxD>{At{this, e.root(), 0}};
  }
  template <int MaxD> struct Evaluator { const Spline* s; NsecTime t; V eval() const { return s->template eval<N>(t, kValue, 0); } V evalD(int d) const { return s->template eval<N>(t, kValue, d); } Eigen::Vector3d evalAngularVelocity() const { return s->template eval<3>(t, kAngular, 0); } };
  template <int MaxD> Evaluator<MaxD> getEvaluatorAt(NsecTime t) const { check(t); return Evaluator<MaxD>{this, t}; }
 private:
  int _k, _m;
  NsecTime _t0, _t1;
  std::vector<boost::shared_ptr<Control<N> > > _c;
};
template <> template <> inline Eigen::Vector3d Spline<3>::eval<3>(NsecTime t, Kind kind, int d) const { if (kind == kAngular) throw std::runtime_error("not a rotation"); return blend(t, d); }
template <> template <> inline Eigen::Vector4d Spline<4>::eval<4>(NsecTime t, Kind, int d) const {
  const Eigen::Vector4d q = blend(t, 0); const double n = q.norm(); const Eigen::Vector4d u = q / n;
  if (d == 0) return u;
  if (d == 1) return (Eigen::Matrix4d::Identity() - u * u.transpose()) * blend(t, 1) / n;
  throw std::runtime_error("quaternion derivative order");
}
// of C = C(q): dC/dt = -[w]x C
template <> template <> inline Eigen::Vector3d Spline<4>::eval<3>(NsecTime t, Kind, int) const {
  return 2 * sm::kinematics::qplus(eval<4>(t, kValue, 1), sm::kinematics::quatInv(eval<4>(t, kValue, 0))).head<3>();
}
}  // namespace detail
template <int Order, int Dim, typename TP> struct EuclideanBSpline {
  struct CONF { struct ManifoldConf { ManifoldConf(int = Dim) {} }; enum { kN = 3 }; int order; CONF(const ManifoldConf&, int o) : order(o) {} };
  struct TYPE : detail::Spline<3> { TYPE(const CONF& c) : detail::Spline<3>(c.order) {} };
};
template <int Order, typename TP> struct UnitQuaternionBSpline {
  struct CONF { struct ManifoldConf { ManifoldConf() {} }; enum { kN = 4 }; int order; CONF(const ManifoldConf&, int o) : order(o) {} };
  struct TYPE : detail::Spline<4> { TYPE(const CONF& c) : detail::Spline<4>(c.order) {} };
};
template <typename S> struct BSplineFitter {
  template <typename P> static void initUniformSpline(S& s, const std::vector<sm::timing::NsecTime>& t, const std::vector<P>& p, int segments, double lambda = 0) { s.fit(t, p, segments, lambda); }
};
}  // namespace bsplines
namespace aslam { namespace splines {
template <typename CONF> struct OPTBSpline { struct BSpline : bsplines::detail::Spline<CONF::kN> { BSpline(const CONF& c) : bsplines::detail::Spline<CONF::kN>(c.order) {} }; };
} }
