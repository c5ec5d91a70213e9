// C27: geodetic conversions of the car example, and the choice between the two quaternions of a rotation (all examples)
#include "vpt.hpp"
#include <aslam/calibration/car/geo/geodetic.h>
#define calibration calibration_car
#include <aslam/calibration/car/algo/bestQuat.h>
#undef calibration
#define calibration calibration_td
#include <aslam/calibration/time-delay/algo/bestQuat.h>
#undef calibration
#define calibration calibration_ego
#include <aslam/calibration/egomotion/algo/bestQuat.h>
#undef calibration
namespace ac = aslam::calibration;
typedef Eigen::Vector3d E3;
typedef long double L;

// WGS84, from its defining constants
static void wgs(L lat, L lon, L h, L o[3]) {
  const L a = 6378137, f = 1 / 298.257223563L, e2 = f * (2 - f), N = a / sqrtl(1 - e2 * sinl(lat) * sinl(lat));
  o[0] = (N + h) * cosl(lat) * cosl(lon); o[1] = (N + h) * cosl(lat) * sinl(lon); o[2] = (N * (1 - e2) + h) * sinl(lat);
}
struct Place { double lat, lon, h; E3 p; };
static Place place(vpt::Src& s) {
  Place q;
  q.lat = s.chance(1, 4) ? (double)s.range(-2, 2) * M_PI / 4 : s.real(-M_PI / 2, M_PI / 2);
  q.lon = s.chance(1, 4) ? (double)s.range(-4, 4) * M_PI / 4 : s.real(-M_PI, M_PI);
  q.h = s.chance(1, 4) ? 0 : s.chance(1, 4) ? s.logReal(1e3, 1e7) : s.real(-500, 9000);
  s.desc() << "latitude " << q.lat << " longitude " << q.lon << " altitude " << q.h << "\n";
  ac::wgs84ToEcef(q.lat, q.lon, q.h, q.p(0), q.p(1), q.p(2));
  return q;
}
CLAUSE(wgs84, 20000, 400000, "off the equator, the poles, the prime meridian and sea level") {
  Place q = place(s);
  L w[3]; wgs(q.lat, q.lon, q.h, w);
  for (int i = 0; i < 3; ++i) VCHECK(std::fabs((double)(q.p(i) - w[i])) < 1e-3, "coordinate " << i << " is " << q.p(i) << ", the WGS84 ellipsoid has " << (double)w[i]);
  // climbing moves straight up
  const double d = s.logReal(1, 1e5);
  E3 u; ac::wgs84ToEcef(q.lat, q.lon, q.h + d, u(0), u(1), u(2));
  const E3 n(std::cos(q.lat) * std::cos(q.lon), std::cos(q.lat) * std::sin(q.lon), std::sin(q.lat));
  VCHECK((u - q.p - d * n).norm() < 1e-8 * d + 1e-8, "climbing by " << d << " moves by " << (u - q.p).transpose());
  s.nontrivial(q.lat != 0 && std::fabs(q.lat) < 1.57 && q.lon != 0 && q.h != 0);
}
CLAUSE(local_frames, 10000, 200000, "neither at a pole nor on the equator or prime meridian") {
  Place q = place(s);
  const double slat = std::sin(q.lat), clat = std::cos(q.lat), slon = std::sin(q.lon), clon = std::cos(q.lon);
  const E3 east(-slon, clon, 0), north(-slat * clon, -slat * slon, clat), up(clat * clon, clat * slon, slat);
  const sm::kinematics::Transformation enu = ac::enu2ecef(q.p(0), q.p(1), q.p(2), q.lat, q.lon), ned = ac::ned2ecef(q.p(0), q.p(1), q.p(2), q.lat, q.lon);
  const sm::kinematics::Transformation ienu = ac::ecef2enu(q.p(0), q.p(1), q.p(2), q.lat, q.lon), ined = ac::ecef2ned(q.p(0), q.p(1), q.p(2), q.lat, q.lon);
  const E3 l(s.any(1e4), s.any(1e4), s.any(1e4));
  const double tol = 1e-7;
  VCHECK((enu * l - (q.p + l(0) * east + l(1) * north + l(2) * up)).norm() < tol, "east, north, up " << l.transpose() << " is at " << (enu * l).transpose());
  VCHECK((ned * l - (q.p + l(0) * north + l(1) * east - l(2) * up)).norm() < tol, "north, east, down " << l.transpose() << " is at " << (ned * l).transpose());
  VCHECK((ienu * (enu * l) - l).norm() < tol && (ined * (ned * l) - l).norm() < tol, "there and back: " << (ienu * (enu * l)).transpose() << " and " << (ined * (ned * l)).transpose());
  const E3 g = q.p + E3(s.any(1e4), s.any(1e4), s.any(1e4)), a = ienu * g, b = ined * g;
  VCHECK((a - E3((g - q.p).dot(east), (g - q.p).dot(north), (g - q.p).dot(up))).norm() < tol, "local coordinates of " << g.transpose() << " are " << a.transpose());
  VCHECK((E3(a(1), a(0), -a(2)) - b).norm() < tol, "the two local frames disagree: " << a.transpose() << " and " << b.transpose());
  VCHECK((enu * (ienu * g) - g).norm() < tol && (ned * (ined * g) - g).norm() < tol, "and back again");
  // moving north on the ellipsoid moves north in the frame, moving east moves east
  if (clat > 1e-2) {
    const double d = 1e-6; E3 n, e;
    ac::wgs84ToEcef(q.lat + d, q.lon, q.h, n(0), n(1), n(2)); ac::wgs84ToEcef(q.lat, q.lon + d, q.h, e(0), e(1), e(2));
    const E3 ln = (ienu * n), le = (ienu * e);
    VCHECK(std::fabs(ln(1) / ln.norm() - 1) < 1e-5 && std::fabs(le(0) / le.norm() - 1) < 1e-5, "a step north is " << ln.transpose() << ", one east " << le.transpose());
  }
  s.nontrivial(std::fabs(q.lat) > 1e-3 && clat > 1e-3 && std::fabs(slon) > 1e-3);
}

typedef Eigen::Vector4d Q;
static Q quat(vpt::Src& s) {
  Q q;
  if (s.chance(1, 5)) { q.setZero(); q(s.index(4)) = s.flip() ? 1 : -1; return q; }
  if (s.chance(1, 5)) { for (int i = 0; i < 4; ++i) q(i) = (double)s.range(-1, 1); }
  else for (int i = 0; i < 4; ++i) q(i) = s.real(-1, 1);
  if (q.norm() < 1e-3) throw vpt::Discard();
  return s.chance(1, 6) ? q : Q(q.normalized());
}
static Q best(int k, const Q& p, const Q& c) {
  switch (k) { case 0: return aslam::calibration_car::bestQuat(p, c); case 1: return aslam::calibration_td::bestQuat(p, c); default: return aslam::calibration_ego::bestQuat(p, c); }
}
CLAUSE(nearest_quaternion, 20000, 400000, "the negated quaternion is the nearer one") {
  const int k = (int)s.index(3);
  static const char* names[] = {"car", "time delay", "egomotion"};
  Q p = quat(s), c = quat(s);
  if (s.chance(1, 6)) c = s.flip() ? Q(-p) : p;
  else if (s.chance(1, 4)) c = ((s.flip() ? 1 : -1) * p + s.logReal(1e-9, 0.3) * quat(s)).eval();
  s.desc() << names[k] << ": previous " << p.transpose() << " current " << c.transpose() << "\n";
  const Q r = best(k, p, c);
  VCHECK(r == c || r == -c, "not the quaternion or its negative: " << r.transpose());
  VCHECK((r - p).norm() <= (-r - p).norm() + 1e-12, "the other quaternion of the rotation is nearer");
  if (p.dot(c) == 0 && (p + c).norm() == (p - c).norm()) VCHECK(r == c, "equally near: the quaternion itself");
  VCHECK(best(k, p, r) == r || std::fabs(p.dot(c)) < 1e-12, "choosing again");
  s.label(names[k]);
  s.nontrivial(p.dot(c) < 0);
}
CLAUSE(continuous_sequence, 3000, 60000, "some quaternion of the sequence was flipped") {
  // quaternions of a smooth rotation with arbitrary signs become a smooth sequence
  const int k = (int)s.index(3);
  const size_t n = 2 + s.index(40);
  E3 ax(s.real(-1, 1), s.real(-1, 1), s.real(-1, 1)); if (ax.norm() < 1e-2) throw vpt::Discard();
  ax.normalize();
  double a = s.real(-4, 4), rate = s.real(-1.2, 1.2); bool flipped = false;
  Q last; 
  for (size_t i = 0; i < n; ++i) {
    Q q; q << ax * std::sin(a / 2), std::cos(a / 2);
    if (s.flip()) q = -q;
    if (i) { const Q r = best(k, last, q); VCHECK((r - last).norm() <= 1.3, "jump from " << last.transpose() << " to " << r.transpose()); flipped = flipped || r != q; last = r; }
    else last = q;
    a += rate;
  }
  s.nontrivial(flipped);
}
