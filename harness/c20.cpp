// C20: rigid transformations of the plane and of space
#include "vpt.hpp"
#include <Eigen/Dense>
#include <sstream>
#include <aslam/calibration/geometry/Transformation.h>
namespace ac = aslam::calibration;

template <int D> struct Tr;
template <> struct Tr<2> {
  typedef ac::Transformation<double, 2> T;
  static void params(vpt::Src& s, Eigen::MatrixXd& h, T* t, bool viaSet) {
    double x = s.any(100), y = s.any(100), a = angle(s);
    s.note([&](std::ostream& o) { o << "(" << x << ", " << y << "; " << a << ") "; });
    h = Eigen::MatrixXd::Identity(3, 3);
    h(0, 0) = h(1, 1) = std::cos(a);
    h(0, 1) = -std::sin(a);
    h(1, 0) = std::sin(a);
    h(0, 2) = x; h(1, 2) = y;
    if (t) { if (viaSet) t->setTransformation(x, y, a); else *t = T(x, y, a); }
  }
  static double angle(vpt::Src& s) { return s.chance(1, 3) ? M_PI / 2 * (double)s.range(-4, 4) : s.real(-7, 7); }
};
template <> struct Tr<3> {
  typedef ac::Transformation<double, 3> T;
  static void params(vpt::Src& s, Eigen::MatrixXd& h, T* t, bool viaSet) {
    double x = s.any(100), y = s.any(100), z = s.any(100), roll = Tr<2>::angle(s), pitch = Tr<2>::angle(s), yaw = Tr<2>::angle(s);
    s.note([&](std::ostream& o) { o << "(" << x << ", " << y << ", " << z << "; " << roll << ", " << pitch << ", " << yaw << ") "; });
    h = Eigen::MatrixXd::Identity(4, 4);
    h.topLeftCorner(3, 3) = (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX())).toRotationMatrix();
    h(0, 3) = x; h(1, 3) = y; h(2, 3) = z;
    if (t) { if (viaSet) t->setTransformation(x, y, z, roll, pitch, yaw); else *t = T(x, y, z, roll, pitch, yaw); }
  }
};

template <int D> static void run(vpt::Src& s) {
  typedef typename Tr<D>::T T;
  typedef Eigen::Matrix<double, D, 1> P;
  typedef Eigen::Matrix<double, D + 1, D + 1> H;
  Eigen::MatrixXd h(D + 1, D + 1);
  T t(H(H::Identity()));
  h.setIdentity();
  auto point = [&] { P p; for (int i = 0; i < D; ++i) p(i) = s.any(100); return p; };
  auto inv = [&](const Eigen::MatrixXd& m) {
    Eigen::MatrixXd r = Eigen::MatrixXd::Identity(D + 1, D + 1);
    r.topLeftCorner(D, D) = m.topLeftCorner(D, D).transpose();
    r.topRightCorner(D, 1) = -m.topLeftCorner(D, D).transpose() * m.topRightCorner(D, 1);
    return r;
  };
  auto apply = [&](const Eigen::MatrixXd& m, const P& p) { P q = m.topLeftCorner(D, D) * p + m.topRightCorner(D, 1); return q; };
  auto check = [&](T& x, const Eigen::MatrixXd& m, const std::string& how) {
    VCHECK((x.getTransformationMatrix() - m).cwiseAbs().maxCoeff() < 1e-10, how << ": matrix\n" << x.getTransformationMatrix() << "\nexpected\n" << m);
    const T& c = x;
    P p = point(), q = point(), d;
    const P a = c(p), b = c(q);
    VCHECK((a - apply(m, p)).norm() < 1e-10, how << ": image of " << p.transpose() << " is " << a.transpose() << ", expected " << apply(m, p).transpose());
    c.transform(p, d);
    VCHECK(d == a, how << ": both ways of transforming agree");
    d = p;
    c.transform(d, d);
    VCHECK(d == a, how << ": transforming in place");
    VCLOSE((a - b).norm(), (p - q).norm(), 1e-10, 1e-10, how << ": distances are preserved");
    T i = c.getInverse();
    VCHECK((i(a) - p).norm() < 1e-9, how << ": the inverse undoes the transformation of " << p.transpose() << ": " << i(a).transpose());
    VCHECK((c(i(p)) - p).norm() < 1e-9, how << ": the transformation undoes its inverse");
    VCHECK((i.getTransformationMatrix() * x.getTransformationMatrix() - H::Identity()).cwiseAbs().maxCoeff() < 1e-9, how << ": matrix of the inverse");
    VCHECK((x.getTransformationMatrix() - m).cwiseAbs().maxCoeff() < 1e-10, how << ": computing the inverse changed the transformation");
    T ii = i.getInverse();
    VCHECK((ii.getTransformationMatrix() - m).cwiseAbs().maxCoeff() < 1e-9, how << ": inverse of the inverse\n" << ii.getTransformationMatrix() << "\nexpected\n" << m);
  };
  check(t, h, "identity");
  const int n = (int)s.range(1, 6);
  int inverted = 0, fromMatrix = 0;
  for (int k = 0; k < n; ++k) {
    std::string what;
    switch (s.choice(6)) {
      case 0: what = "constructed"; s.note([&](std::ostream& o) { o << what << " "; }); Tr<D>::params(s, h, &t, false); break;
      case 1: what = "set"; s.note([&](std::ostream& o) { o << what << " "; }); Tr<D>::params(s, h, &t, true); break;
      case 2: what = "from its matrix"; s.note([&](std::ostream& o) { o << what << " "; }); Tr<D>::params(s, h, 0, false); t = T(H(h)); ++fromMatrix; break;
      case 3: what = "matrix set"; s.note([&](std::ostream& o) { o << what << " "; }); Tr<D>::params(s, h, 0, false); t.setTransformationMatrix(h); ++fromMatrix; break;
      default: {
        what = "inverted in place";
        s.note([&](std::ostream& o) { o << what << " "; });
        VCHECK(&t.inverse() == &t, "inverse() returns the transformation itself");
        h = inv(h);
        ++inverted;
      }
    }
    check(t, h, what);
    if (s.chance(1, 3)) {
      T c(t), a;
      a = t;
      check(c, h, "copy");
      check(a, h, "assigned");
      a.inverse();
      check(t, h, "original of an inverted copy");
      t = *&t;
    }
  }
  s.nontrivial(inverted && fromMatrix);
  std::ostringstream o;
  o << t;
  VCHECK(!o.str().empty(), "streams something");
}
CLAUSE(plane, 5000, 150000, "inverted in place, and given by a matrix") { run<2>(s); }
CLAUSE(space, 5000, 150000, "inverted in place, and given by a matrix") { run<3>(s); }
