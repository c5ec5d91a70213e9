// C43: the programs of the car example, run whole on generated recordings
#include "prog.hpp"
#include "carconf.hpp"
#include <aslam/calibration/car/algo/splinesToFile.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <poslv/VehicleNavigationSolutionMsg.h>
#include <poslv/VehicleNavigationPerformanceMsg.h>
#include <poslv/TimeTaggedDMIDataMsg.h>
#include <can_prius/FrontWheelsSpeedMsg.h>
#include <can_prius/RearWheelsSpeedMsg.h>
#include <can_prius/Steering1Msg.h>
#include <rosbag/bag.h>
#include <sm/timing/TimestampCorrector.hpp>
int car_calib_main(int, char**);
int car_analyze_main(int, char**);
namespace ac = aslam::calibration;
using cal::Ns; using cal::V3; using cal::M3;
using prog::Scratch; using prog::Result; using prog::Rows;
typedef long double L; typedef Eigen::Matrix<L, 3, 1> LV; typedef Eigen::Matrix<L, 3, 3> LM;

// WGS84 and the frames on it
static const L kA = 6378137, kF = 1 / 298.257223563L, kE2 = kF * (2 - kF);
static LV ecef(L lat, L lon, L h) { const L N = kA / sqrtl(1 - kE2 * sinl(lat) * sinl(lat)); return LV((N + h) * cosl(lat) * cosl(lon), (N + h) * cosl(lat) * sinl(lon), (N * (1 - kE2) + h) * sinl(lat)); }
static void geodetic(const LV& p, L& lat, L& lon, L& h) {
  const L r = hypotl(p(0), p(1)); lon = atan2l(p(1), p(0)); lat = atan2l(p(2), r * (1 - kE2)); h = 0;
  for (int i = 0; i < 60; ++i) { const L N = kA / sqrtl(1 - kE2 * sinl(lat) * sinl(lat)); h = r * cosl(lat) + p(2) * sinl(lat) - N * (1 - kE2 * sinl(lat) * sinl(lat)); lat = atan2l(p(2), r * (1 - kE2 * N / (N + h))); }
}
static LM enu(L lat, L lon) { LM C; C << -sinl(lon), -sinl(lat) * cosl(lon), cosl(lat) * cosl(lon), cosl(lon), -sinl(lat) * sinl(lon), cosl(lat) * sinl(lon), 0, cosl(lat), sinl(lat); return C; }  // columns
static LM ned(L lat, L lon) { const LM E = enu(lat, lon); LM C; C.col(0) = E.col(1); C.col(1) = E.col(0); C.col(2) = -E.col(2); return C; }
static const double kDeg = M_PI / 180;

struct Conf { carconf::Conf c; bool fw, rw, st, dmi; std::string topic[6]; };  // fws rws st dmi vns vnp
static void write(const Conf& c, sm::PropertyTree& root) {
  sm::PropertyTree t(root, "car/calibrator"); carconf::write(c.c, t);
  const char* n[] = {"fws", "rws", "st", "dmi"}; const bool a[] = {c.fw, c.rw, c.st, c.dmi};
  for (int i = 0; i < 4; ++i) { t.setString(std::string("odometry/sensors/") + n[i] + "/topic", c.topic[i]); t.setBool(std::string("odometry/sensors/") + n[i] + "/active", a[i]); }
  t.setString("applanix/vns/topic", c.topic[4]); t.setString("applanix/vnp/topic", c.topic[5]);
}
static void topics(vpt::Src& s, Conf& c) { const char* n[] = {"/can/fws", "/can/rws", "/can/st", "/poslv/dmi", "/poslv/vns", "/poslv/vnp"}; const auto p = s.permutation(6); const bool mix = s.flip(); for (int i = 0; i < 6; ++i) c.topic[i] = n[mix ? p[i] : i]; }

// a car on a smooth path, and what its sensors say
struct Car {
  cal::Motion m; L lat, lon, h; double start, len; V3 origin;
  M3 R(double t) const { return cal::fromYpr(m.angles(t)); }
  V3 velocity(double t) const { const V3 a = m.angles(t); return m.speed(t) * V3(std::cos(a(0)), std::sin(a(0)), 0) + V3(0, 0, m.za * m.zf * std::cos(m.zf * t)); }
  V3 turn(double t) const { const double d = 1e-4; const M3 W = R(t).transpose() * (R(t + d) - R(t - d)) / (2 * d); return V3(W(2, 1) - W(1, 2), W(0, 2) - W(2, 0), W(1, 0) - W(0, 1)) / 2; }
  V3 at(double t, const V3& r) const { return R(t).transpose() * velocity(t) + turn(t).cross(r); }  // velocity of a point of the car, in the car
};
struct Message { double at; int kind; size_t index; };
struct Recorded {  // the messages, in order
  std::vector<Message> order;
  std::vector<poslv::VehicleNavigationSolutionMsg> vns; std::vector<poslv::VehicleNavigationPerformanceMsg> vnp; std::vector<poslv::TimeTaggedDMIDataMsg> dmi; std::vector<can_prius::FrontWheelsSpeedMsg> fws; std::vector<can_prius::RearWheelsSpeedMsg> rws; std::vector<can_prius::Steering1Msg> st;
  std::vector<V3> p; std::vector<M3> C; // true poses of the sensor, for each vns
};
static double wheelNoise(vpt::Src& s, bool exact) { return exact ? 0 : s.any(3); }
static Recorded record(vpt::Src& s, const Car& car, const Conf& c, double rate, double jitter, bool exact) {
  Recorded r; const carconf::Conf& k = c.c; const M3 M = cal::fromYpr(k.ypr);
  auto count = [&](double hz) { return (size_t)std::max(1.0, std::floor(car.len * hz)); };
  auto stamp = [&](double t) { return ros::Time((Ns)std::llround((car.start + t + jitter * s.unit()) * 1e9)); };
  const double off = exact ? 0 : s.any(100), skew = exact ? 1 : 1 + s.any(1e-5);
  { // where the sensor is
    std::vector<double> ts; const size_t n = count(rate); for (size_t i = 0; i < n; ++i) ts.push_back((double)i / rate);
    const std::vector<V3> ps = car.m.positions(ts); const LV p0 = ecef(car.lat, car.lon, car.h); const LM E0 = enu(car.lat, car.lon);
    for (size_t i = 0; i < n; ++i) {
      const double t = ts[i]; const M3 C = car.R(t) * M; const V3 p = ps[i] + car.R(t) * k.r - car.origin;
      poslv::VehicleNavigationSolutionMsg m; L lat, lon, h; geodetic(p0 + E0 * p.cast<L>(), lat, lon, h);
      const M3 B = (ned(lat, lon).transpose() * E0 * C.cast<L>()).cast<double>(); V3 a = cal::toYpr(B);
      if (std::fabs(std::cos(a(1))) < 0.1) throw vpt::Discard();
      m.latitude = (double)(lat / (L)kDeg); m.longitude = (double)(lon / (L)kDeg); m.altitude = (double)h; m.heading = a(0) / kDeg + (a(0) < 0 ? 360 : 0); m.pitch = a(1) / kDeg; m.roll = a(2) / kDeg;
      const V3 v = M.transpose() * car.at(t, k.r), vn = B * v, w = M.transpose() * car.turn(t) / kDeg;
      m.northVelocity = (float)vn(0); m.eastVelocity = (float)vn(1); m.downVelocity = (float)vn(2); m.angularRateLong = (float)w(0); m.angularRateTrans = (float)w(1); m.angularRateDown = (float)w(2);
      m.timeDistance.time1 = car.start + off + skew * t; m.timeDistance.time2 = s.any(10); m.header.stamp = stamp(t); m.header.seq = (unsigned)i;
      r.order.push_back({t, 4, r.vns.size()}); r.vns.push_back(m); r.p.push_back(p); r.C.push_back(C);
    }
  }
  { const size_t n = 1 + s.index(5); const bool late = !exact && s.flip();
    for (size_t i = 0; i < n; ++i) {
      poslv::VehicleNavigationPerformanceMsg m; m.header.stamp = stamp(0);
      for (float* x : {&m.northPositionRMSError, &m.eastPositionRMSError, &m.downPositionRMSError, &m.northVelocityRMSError, &m.eastVelocityRMSError, &m.downVelocityRMSError, &m.rollRMSError, &m.pitchRMSError, &m.headingRMSError}) *x = (float)s.logReal(1e-2, 1);
      r.order.push_back({i == 0 ? (late ? s.real(0, 0.3) * car.len : -1) : s.real(0, 1) * car.len, 5, r.vnp.size()}); r.vnp.push_back(m);
    } }
  auto seq = [&](size_t i) { return 100u + (unsigned)i; };
  auto counts = [&](double v) { return (std::uint16_t)std::min(65535.0, std::max(0.0, std::round(v))); };
  const double hz = exact ? 2 * rate : s.real(2, 2 * rate);
  { const size_t n = count(hz); for (size_t i = 0; i < n; ++i) { const double t = (double)i / hz, u = t + k.tf * 1e-9; auto f = [&](double y) { const V3 v = car.at(u, V3(k.L, y, 0)); return std::hypot(v(0), v(1)); };
      can_prius::FrontWheelsSpeedMsg m; m.Left = counts(k.kfl * f(k.ef) + wheelNoise(s, exact)); m.Right = counts(k.kfr * f(-k.ef) + wheelNoise(s, exact)); m.header.stamp = stamp(t); m.header.seq = seq(i); r.order.push_back({t + 1e-4, 0, r.fws.size()}); r.fws.push_back(m); } }
  { const size_t n = count(hz); for (size_t i = 0; i < n; ++i) { const double t = (double)i / hz, u = t + k.tr * 1e-9; auto f = [&](double y) { return car.at(u, V3(0, y, 0))(0); };
      can_prius::RearWheelsSpeedMsg m; m.Left = counts(k.krl * f(k.er) + wheelNoise(s, exact)); m.Right = counts(k.krr * f(-k.er) + wheelNoise(s, exact)); m.header.stamp = stamp(t); m.header.seq = seq(i); r.order.push_back({t + 2e-4, 1, r.rws.size()}); r.rws.push_back(m); } }
  { const size_t n = count(hz); for (size_t i = 0; i < n; ++i) { const double t = (double)i / hz, u = t + k.ts * 1e-9; const V3 v = car.at(u, V3(k.L, 0, 0));
      can_prius::Steering1Msg m; m.value = (std::int16_t)std::lround((std::atan2(v(1), v(0)) - k.a[0]) / k.a[1] + wheelNoise(s, exact)); m.header.stamp = stamp(t); m.header.seq = seq(i); r.order.push_back({t + 3e-4, 2, r.st.size()}); r.st.push_back(m); } }
  { const size_t n = count(rate); double d = exact ? 0 : s.any(1000);
    for (size_t i = 0; i < n; ++i) { // a distance whose difference is the speed at the end of the interval
      const double t = (double)i / rate, u = t + k.td * 1e-9; if (i) d += k.kdmi * car.at(u, V3(0, k.er, 0))(0) / rate;
      poslv::TimeTaggedDMIDataMsg m; m.signedDistanceTraveled = d; m.unsignedDistanceTraveled = std::fabs(d) + 1; m.timeDistance.time1 = car.start + off + skew * t; m.timeDistance.time2 = s.any(5); m.header.stamp = stamp(t); m.header.seq = seq(i); r.order.push_back({t + 4e-4, 3, r.dmi.size()}); r.dmi.push_back(m); } }
  std::stable_sort(r.order.begin(), r.order.end(), [](const Message& a, const Message& b) { return a.at < b.at; });
  rosbag::recordings().clear(); rosbag::recordings()["run.bag"]; Ns at = (Ns)(car.start * 1e9);
  for (auto& x : r.order) { const ros::Time t(++at); const std::string& topic = c.topic[x.kind]; const std::string f = "run.bag";
    switch (x.kind) { case 0: rosbag::record(f, topic, t, r.fws[x.index]); break; case 1: rosbag::record(f, topic, t, r.rws[x.index]); break; case 2: rosbag::record(f, topic, t, r.st[x.index]); break;
      case 3: rosbag::record(f, topic, t, r.dmi[x.index]); break; case 4: rosbag::record(f, topic, t, r.vns[x.index]); break; default: rosbag::record(f, topic, t, r.vnp[x.index]); }
    if (s.chance(1, 30)) { can_prius::Steering1Msg o; o.value = 77; rosbag::record(f, "/other", t, o); } }
  return r;
}
// what the programs have to make of it: measurements for the calibrator, and rows of the files
struct Told { std::map<std::string, Rows> files; size_t skipped = 0; };
static Told convert(const Recorded& r, const Conf& c, ac::CarCalibrator& k, double nudge = 0) {
  std::uint32_t state = 1; auto tiny = [&] { state = state * 1664525u + 1013904223u; return nudge * ((double)state / 4294967296.0 - 0.5); }; auto shake = [&](V3 v) { return V3(v + V3(tiny(), tiny(), tiny())); };
  Told o; for (const char* n : {"rwData.txt", "fwData.txt", "stData.txt", "dmiData.txt", "poseData.txt", "velData.txt"}) o.files[n];
  sm::timing::TimestampCorrector<double> tv, td, tf, tr, ts; const poslv::VehicleNavigationPerformanceMsg* q = nullptr; const poslv::TimeTaggedDMIDataMsg* before = nullptr; bool first = true; LV p0; LM E0;
  auto sq = [](double x) { return x * x; };
  auto sec = [](const ros::Time& t) { return t.toSec(); };
  auto local = [](const ros::Time& t) { return (double)t.toNSec(); };
  for (auto& x : r.order) switch (x.kind) {
    case 5: q = &r.vnp[x.index]; break;
    case 4: {
      if (!q) { o.skipped++; break; }
      const auto& m = r.vns[x.index]; const L lat = m.latitude * (L)kDeg, lon = m.longitude * (L)kDeg; const LV e = ecef(lat, lon, m.altitude);
      if (first) { p0 = e; E0 = enu(lat, lon); first = false; }
      const M3 B = cal::fromYpr(V3(m.heading, m.pitch, m.roll) * kDeg);
      ac::PoseMeasurement p; p.m_r_mr = (E0.transpose() * (e - p0)).cast<double>(); p.m_R_r = cal::toYpr((E0.transpose() * ned(lat, lon)).cast<double>() * B);
      p.sigma2_m_r_mr = V3(sq(q->eastPositionRMSError), sq(q->northPositionRMSError), sq(q->downPositionRMSError)).asDiagonal(); p.sigma2_m_R_r = V3(sq(q->headingRMSError * kDeg), sq(q->pitchRMSError * kDeg), sq(q->rollRMSError * kDeg)).asDiagonal();
      ac::VelocitiesMeasurement v; v.r_v_mr = B.transpose() * V3(m.northVelocity, m.eastVelocity, m.downVelocity); v.r_om_mr = V3(m.angularRateLong, m.angularRateTrans, m.angularRateDown) * kDeg;
      v.sigma2_r_v_mr = B.transpose() * V3(sq(q->northVelocityRMSError), sq(q->eastVelocityRMSError), sq(q->downVelocityRMSError)).asDiagonal() * B; v.sigma2_r_om_mr = V3(sq(q->rollRMSError * kDeg), sq(q->pitchRMSError * kDeg), sq(q->headingRMSError * kDeg)).asDiagonal();
      const Ns t = (Ns)std::round(tv.correctTimestamp((double)sm::timing::secToNsec(m.timeDistance.time1), local(m.header.stamp)));
      if (nudge) { p.m_r_mr = shake(p.m_r_mr); p.m_R_r = shake(p.m_R_r); v.r_v_mr = shake(v.r_v_mr); v.r_om_mr = shake(v.r_om_mr); }
      k.addPoseMeasurement(p, t); k.addVelocitiesMeasurement(v, t);
      const V3 sp = p.sigma2_m_r_mr.diagonal(), sa = p.sigma2_m_R_r.diagonal(), sv = v.sigma2_r_v_mr.diagonal(), sw = v.sigma2_r_om_mr.diagonal();
      o.files["poseData.txt"].push_back({sec(m.header.stamp), p.m_r_mr(0), p.m_r_mr(1), p.m_r_mr(2), p.m_R_r(0), p.m_R_r(1), p.m_R_r(2), sp(0), sp(1), sp(2), sa(0), sa(1), sa(2)});
      o.files["velData.txt"].push_back({sec(m.header.stamp), v.r_v_mr(0), v.r_v_mr(1), v.r_v_mr(2), v.r_om_mr(0), v.r_om_mr(1), v.r_om_mr(2), sv(0), sv(1), sv(2), sw(0), sw(1), sw(2)});
      break; }
    case 0: case 1: {
      if (!(x.kind ? c.rw : c.fw)) break;
      ac::WheelSpeedsMeasurement w; std_msgs::Header h; if (x.kind) { w.left = r.rws[x.index].Left; w.right = r.rws[x.index].Right; h = r.rws[x.index].header; } else { w.left = r.fws[x.index].Left; w.right = r.fws[x.index].Right; h = r.fws[x.index].header; }
      const Ns t = (Ns)std::round((x.kind ? tr : tf).correctTimestamp(h.seq, local(h.stamp)));
      if (x.kind) k.addRearWheelsMeasurement(w, t); else k.addFrontWheelsMeasurement(w, t);
      o.files[x.kind ? "rwData.txt" : "fwData.txt"].push_back({sec(h.stamp), w.left, w.right}); break; }
    case 2: {
      if (!c.st) break;
      const auto& m = r.st[x.index]; ac::SteeringMeasurement w; w.value = m.value; k.addSteeringMeasurement(w, (Ns)std::round(ts.correctTimestamp(m.header.seq, local(m.header.stamp))));
      o.files["stData.txt"].push_back({sec(m.header.stamp), w.value}); break; }
    case 3: {
      if (!c.dmi) break;
      const auto& m = r.dmi[x.index];
      if (before) { ac::DMIMeasurement w; w.wheelSpeed = (m.signedDistanceTraveled - before->signedDistanceTraveled) / (m.timeDistance.time1 - before->timeDistance.time1);
        k.addDMIMeasurement(w, (Ns)std::round(td.correctTimestamp((double)sm::timing::secToNsec(m.timeDistance.time1), local(m.header.stamp)))); o.files["dmiData.txt"].push_back({sec(m.header.stamp), w.wheelSpeed}); }
      before = &m; }
  }
  return o;
}
static void sameFile(const std::string& f, const Rows& want, double tol, std::set<size_t> angles = {}) {
  const Rows got = prog::rows(f); VEQ(got.size(), want.size(), "rows of " << f);
  for (size_t i = 0; i < got.size(); ++i) {
    VEQ(got[i].size(), want[i].size(), "columns of " << f);
    for (size_t j = 0; j < got[i].size(); ++j) { const double g = got[i][j], w = want[i][j]; const double d = angles.count(j) ? et::wrap(g - w) : g - w; VCHECK(std::fabs(d) <= tol * (1 + std::fabs(w)) || g == w || (std::isnan(g) && std::isnan(w)), f << ", row " << i << ", column " << j << ": " << g << ", expected " << w); }
  }
}
static Conf conf(vpt::Src& s) {
  Conf c; c.c = carconf::draw(s); topics(s, c); c.fw = s.chance(3, 4); c.rw = s.chance(3, 4); c.st = s.chance(3, 4); c.dmi = s.chance(3, 4);
  carconf::Conf& k = c.c; k.window = s.flip() ? 1e18 : s.real(1, 3); k.knots = (int)s.range(1, 5); for (double* q : {&k.tLambda, &k.rLambda}) *q = std::max(*q, 1e-5); k.iterations = s.chance(1, 4) ? 2 : 0; k.verbose = s.chance(1, 4); k.usePose = k.usePose || !k.useVelocities; k.vTol = s.real(0.05, 2);
  for (double* q : {&k.krl, &k.krr, &k.kfl, &k.kfr}) *q = s.real(100, 400); k.a[1] = 0.0017; k.a[2] = k.a[3] = 0;
  return c;
}
static Car car(vpt::Src& s) {
  Car a; a.m = cal::motion(s); a.lat = s.real(-1.4, 1.4); a.lon = s.real(-3.1, 3.1); a.h = s.real(-100, 3000); a.start = s.flip() ? 1000 : 1363945215; a.len = s.real(1.5, 4); a.origin = V3::Zero();
  a.m.o.setZero(); a.m.s0 = std::fabs(a.m.s0);
  return a;
}
// whether the least change in what is measured changes what comes out
static bool close(const Rows& a, const Rows& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t j = 0; j < a[i].size(); ++j) { const double d = std::fabs(a[i][j] - b[i][j]); if (!(d <= 1e-7 * (1 + std::fabs(a[i][j])) || std::fabs(d - 2 * M_PI) < 1e-6)) return false; } } return true; }
static Rows lines(const std::vector<double>& v) { Rows r; for (double d : v) r.push_back({d}); return r; }
static Rows lines(const std::vector<Eigen::VectorXd>& v) { Rows r; for (auto& d : v) r.push_back(std::vector<double>(d.data(), d.data() + d.size())); return r; }
static Rows path(ac::CarCalibrator& k) { { std::ofstream f("again.txt"); f.precision(17); ac::writeSplines(k.getEstimator(), 0.01, f); } return prog::rows("again.txt"); }
static void note(vpt::Src& s, const Conf& c, const Car& a, const Recorded& r) {
  s.note([&](std::ostream& o) { o << "active fw " << c.fw << " rw " << c.rw << " st " << c.st << " dmi " << c.dmi << " pose " << c.c.usePose << " velocities " << c.c.useVelocities << " delays " << c.c.delaysActive << " window " << c.c.window << " iterations " << c.c.iterations << " gain " << c.c.delta << " parameters " << carconf::parameters(c.c).transpose()
    << "\nlatitude " << (double)a.lat << " longitude " << (double)a.lon << " start " << a.start << " length " << a.len << "; messages: " << r.vns.size() << " vns " << r.vnp.size() << " vnp " << r.fws.size() << " fws " << r.rws.size() << " rws " << r.st.size() << " st " << r.dmi.size() << " dmi\n"; });
}
static void checkData(const Told& o, std::set<std::string>& names) { for (auto& f : o.files) { sameFile(f.first, f.second, 1e-7, f.first == "poseData.txt" ? std::set<size_t>{4, 5, 6} : std::set<size_t>()); names.insert(f.first); } }
static void only(const Scratch& d, const std::set<std::string>& names) { std::string have; for (auto& f : d.files()) have += " " + f; VCHECK(d.files() == names, "files written:" << have); }

CLAUSE(calibrate, 120, 2500, "a batch was accepted, and some sensor is inactive or some solution came before its accuracy") {
  Conf c = conf(s); Car a = car(s); const Recorded r = record(s, a, c, s.real(10, 20), s.flip() ? 0 : 0.004, false); note(s, c, a, r);
  Scratch dir; sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml");
  ac::CarCalibrator k(sm::PropertyTree(t, "car/calibrator")); Told o;
  { cal::Quiet q; try { o = convert(r, c, k); if (k.unprocessedMeasurements()) k.addMeasurements(); } catch (const std::exception&) { throw vpt::Discard(); } }
  { ac::CarCalibrator k2(sm::PropertyTree(t, "car/calibrator")); { cal::Quiet q; try { convert(r, c, k2, 1e-9); if (k2.unprocessedMeasurements()) k2.addMeasurements(); } catch (const std::exception&) { throw vpt::Discard(); } }
    if (!close(lines(k.getInformationGainHistory()), lines(k2.getInformationGainHistory())) || !close(lines(k.getOdometryVariablesHistory()), lines(k2.getOdometryVariablesHistory())) || !close(path(k), path(k2))) throw vpt::Discard(); }
  const Result res = prog::run(car_calib_main, {"run.bag", "conf.xml"}); VEQ(res.rc, 0, "exit status");
  std::set<std::string> names = {"conf.xml", "infoGainHist.txt", "calibHist.txt", "m_T_v_est.txt", "deviations.txt", "again.txt"};
  checkData(o, names);
  const double tol = c.c.iterations ? 1e-4 : 1e-6;
  const auto gain = k.getInformationGainHistory(); const auto hist = k.getOdometryVariablesHistory();
  sameFile("infoGainHist.txt", lines(gain), tol); sameFile("calibHist.txt", lines(hist), tol);
  sameFile("m_T_v_est.txt", path(k), tol, {3, 4, 5});
  // a deviation for each variable estimated, under its name
  const Eigen::VectorXd var = k.getOdometryVariablesVariance(); const auto obs = carconf::observed(c.c.delaysActive);
  std::ifstream f("deviations.txt"); std::string l; std::vector<std::pair<std::string, double> > dev; while (std::getline(f, l)) { const size_t q = l.find(": "); VCHECK(q != std::string::npos, "line of deviations.txt: " << l); dev.push_back({l.substr(0, q), std::strtod(l.c_str() + q + 2, nullptr)}); }
  VEQ((long)dev.size(), (long)var.size(), "deviations"); if (var.size()) VEQ(dev.size(), obs.size(), "deviations");
  for (size_t i = 0; i < dev.size(); ++i) { VEQ(dev[i].first, obs[i], "name of deviation " << i); const double w = std::sqrt(var(i)); VCHECK(std::fabs(dev[i].second - w) <= 1e-3 * (1 + w) + tol * std::pow(w, 3) || (std::isnan(w) && std::isnan(dev[i].second)) || (w > 1e6 && dev[i].second > 1e5), "deviation of " << obs[i] << ": " << dev[i].second << ", expected " << w); }
  only(dir, names);
  s.nontrivial(k.getEstimator()->getNumBatches() > 0 && (o.skipped || !(c.fw && c.rw && c.st && c.dmi)));
}

CLAUSE(analyze, 200, 4000, "every sensor has predictions") {
  Conf c = conf(s); if (s.chance(3, 4)) c.c.window = 1e18; if (s.flip()) c.fw = c.rw = c.st = c.dmi = true;
  Car a = car(s); const Recorded r = record(s, a, c, s.real(10, 20), s.flip() ? 0 : 0.004, false); note(s, c, a, r);
  Scratch dir; sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml");
  ac::CarCalibrator k(sm::PropertyTree(t, "car/calibrator")); Told o;
  { cal::Quiet q; try { o = convert(r, c, k); if (k.unprocessedMeasurements()) k.predict(); } catch (const std::exception&) { throw vpt::Discard(); } }
  { ac::CarCalibrator k2(sm::PropertyTree(t, "car/calibrator")); { cal::Quiet q; try { convert(r, c, k2, 1e-9); if (k2.unprocessedMeasurements()) k2.predict(); } catch (const std::exception&) { throw vpt::Discard(); } }
    for (auto e : {&ac::CarCalibrator::getRearWheelsPredictionErrors, &ac::CarCalibrator::getFrontWheelsPredictionErrors, &ac::CarCalibrator::getSteeringPredictionErrors, &ac::CarCalibrator::getDMIPredictionErrors, &ac::CarCalibrator::getPosePredictionErrors, &ac::CarCalibrator::getVelocitiesPredictionErrors}) if (!close(lines((k.*e)()), lines((k2.*e)()))) throw vpt::Discard(); }
  const Result res = prog::run(car_analyze_main, {"run.bag", "conf.xml"}); VEQ(res.rc, 0, "exit status");
  std::set<std::string> names = {"conf.xml", "m_T_v.txt"}; checkData(o, names);
  const double tol = c.c.iterations ? 1e-4 : 1e-5;
  auto file = [&](const std::string& f, const Rows& w, std::set<size_t> angles = {}) { names.insert(f); sameFile(f, w, tol, angles); };
  auto sec = [](Ns t) { return sm::timing::nsecToSec(t); };
  auto wheels = [&](const ac::CarCalibrator::WheelSpeedsMeasurements& m) { Rows w; for (auto& x : m) w.push_back({sec(x.first), x.second.left, x.second.right}); return w; };
  file("rwDataPred.txt", wheels(k.getRearWheelsPredictions())); file("rwPredError.txt", lines(k.getRearWheelsPredictionErrors()));
  file("fwDataPred.txt", wheels(k.getFrontWheelsPredictions())); file("fwPredError.txt", lines(k.getFrontWheelsPredictionErrors()));
  { Rows w; for (auto& x : k.getSteeringPredictions()) w.push_back({sec(x.first), x.second.value}); file("stDataPred.txt", w, {1}); file("stPredError.txt", lines(k.getSteeringPredictionErrors()), {0}); }
  { Rows w; for (auto& x : k.getDMIPredictions()) w.push_back({sec(x.first), x.second.wheelSpeed}); file("dmiDataPred.txt", w); file("dmiPredError.txt", lines(k.getDMIPredictionErrors())); }
  { Rows w; for (auto& x : k.getPosePredictions()) { const V3 &p = x.second.m_r_mr, &q = x.second.m_R_r; w.push_back({sec(x.first), p(0), p(1), p(2), q(0), q(1), q(2)}); } file("poseDataPred.txt", w, {4, 5, 6}); file("posePredError.txt", lines(k.getPosePredictionErrors()), {3, 4, 5}); }
  { Rows w; for (auto& x : k.getVelocitiesPredictions()) { const V3 &p = x.second.r_v_mr, &q = x.second.r_om_mr; w.push_back({sec(x.first), p(0), p(1), p(2), q(0), q(1), q(2)}); } file("velDataPred.txt", w); file("velPredError.txt", lines(k.getVelocitiesPredictionErrors())); }
  only(dir, names);
  s.nontrivial(!k.getRearWheelsPredictions().empty() && !k.getFrontWheelsPredictions().empty() && !k.getSteeringPredictions().empty() && !k.getDMIPredictions().empty());
}

// a car of known calibration, somewhere on the globe, is recorded without noise: the path and the calibration come back, and its own calibration predicts it
CLAUSE(recover, 16, 300, "always") {
  Conf c = conf(s); carconf::Conf& k = c.c; c.fw = c.rw = c.st = c.dmi = true; k.window = 1e18; k.iterations = 12; k.delta = -1e18; k.columnScaling = true; k.verbose = false; k.knots = 4; k.tOrder = k.rOrder = 4; k.tLambda = k.rLambda = 0; k.cutoff = 0; k.vTol = 0.05; k.qVy = k.qVz = 1e8; k.usePose = true; k.delayBound = 100000000; k.delaysActive = s.flip();
  for (double* q : {&k.qFl, &k.qFr, &k.qRl, &k.qRr}) *q = 1; k.qSt = 1e-6; k.qDmi = 1e-4; for (double* p : {&k.pDmi, &k.pFl, &k.pFr, &k.pRl, &k.pRr}) *p = 1e-3;
  Car a = car(s); a.len = 4; cal::Motion m; m.y0 = s.real(-3, 3); m.yr = s.real(0.1, 0.3); m.ya = s.real(0.3, 0.5); m.yf = s.real(1, 2); m.s0 = s.real(5, 7); m.sa = s.real(1, 2); m.sf = s.real(1, 2); m.pa = m.ra = 0.02; m.pf = m.rf = 1; m.za = 0; m.zf = 1; m.o = V3::Zero(); a.m = m;
  a.origin = cal::fromYpr(m.angles(0)) * k.r;
  const Recorded r = record(s, a, c, 15, 0, true);
  Scratch dir;
  { // predicting with the calibration that is true
    sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); const Result res = prog::run(car_analyze_main, {"run.bag", "conf.xml"}); VEQ(res.rc, 0, "exit status");
    Rows w; for (size_t i = 0; i < r.p.size(); ++i) { const V3 y = cal::toYpr(r.C[i]); w.push_back({r.vns[i].header.stamp.toSec(), r.p[i](0), r.p[i](1), r.p[i](2), y(0), y(1), y(2)}); }
    Rows g = prog::rows("poseData.txt"); VEQ(g.size(), w.size(), "poses");
    for (size_t i = 0; i < g.size(); ++i) for (int j = 0; j < 7; ++j) { const double d = j > 3 ? et::wrap(g[i][j] - w[i][j]) : g[i][j] - w[i][j]; VCHECK(std::fabs(d) < (j > 3 ? 1e-7 : 1e-4), "pose " << i << ", column " << j << ": " << g[i][j] << ", the car is at " << w[i][j]); }
    auto bound = [&](const char* f, std::vector<double> b, size_t least) { const Rows e = prog::rows(f); VCHECK(e.size() >= least, f << ": " << e.size() << " errors"); for (auto& x : e) { VCHECK(x.size() >= b.size(), "columns of " << f); for (size_t j = 0; j < b.size(); ++j) if (b[j] > 0) VCHECK(std::fabs(x[j]) < b[j], f << ": error " << x[j] << " in column " << j << " of a car that is as configured"); } };
    bound("posePredError.txt", {0.02, 0.02, 0.02, 0.01, 0.01, 0.01}, r.vns.size()); bound("velPredError.txt", {0.25, 0.25, 0.25, 0.2, 0.2, 0.2}, r.vns.size() - 2);
    bound("rwPredError.txt", {k.krl * 0.25}, 80); bound("fwPredError.txt", {k.kfl * 0.25}, 80); bound("stPredError.txt", {0.06}, 80); bound("dmiPredError.txt", {k.kdmi * 0.25}, 35);
  }
  carconf::Conf truth = k;
  for (double* x : {&k.er, &k.ef, &k.L, &k.krl, &k.krr, &k.kfl, &k.kfr, &k.kdmi, &k.a[1]}) *x *= 1 + s.real(-0.1, 0.1);
  k.a[0] += s.real(-0.05, 0.05); if (k.delaysActive) for (int* x : {&k.tr, &k.tf, &k.ts, &k.td}) *x = std::max(-90000000, std::min(90000000, *x + (int)s.range(-20000000, 20000000)));
  sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml"); const Result res = prog::run(car_calib_main, {"run.bag", "conf.xml"}); VEQ(res.rc, 0, "exit status");
  const Rows h = prog::rows("calibHist.txt"); VEQ(h.size(), 2u, "calibrations"); VEQ(prog::rows("infoGainHist.txt").size(), 1u, "gains"); VCHECK(prog::rows("m_T_v_est.txt").size() > 300, "no path");
  const Eigen::VectorXd want = carconf::parameters(truth), from = carconf::parameters(k); const auto& g = h.back(); VEQ((long)g.size(), (long)want.size(), "parameters");
  s.note([&](std::ostream& o) { o << "from " << from.transpose() << "\nto  "; for (double d : g) o << " " << d; o << "\ntrue " << want.transpose() << "\n"; std::ifstream f("deviations.txt"); o << f.rdbuf(); });
  for (int i = 0; i < 22; ++i) { if (i >= 8 && i < 12) continue; const double e = i < 2 ? 0.1 : i == 2 ? 0.2 * want(i) : i < 8 ? 0.015 * want(i) : i < 18 ? 1e-9 : !k.delaysActive ? 1e-9 : i == 20 ? 0.1 : 0.02; VCHECK(std::fabs(i >= 15 && i < 18 ? et::wrap(g[i] - want(i)) : g[i] - want(i)) < e, "parameter " << i << " is estimated as " << g[i] << ", true " << want(i) << " (started from " << from(i) << ")"); }
  { const Rows w = prog::rows("m_T_v_est.txt"); std::vector<double> ts; for (size_t j = 0; j < w.size(); ++j) ts.push_back(0.01 * (double)j); const std::vector<V3> ps = a.m.positions(ts); // the frame is that of the first pose
    for (size_t j = 0; j < w.size(); ++j) { const V3 p = ps[j] - a.origin, y = a.m.angles(ts[j]); VEQ(w[j].size(), 6u, "columns of the path"); for (int n = 0; n < 3; ++n) { VCHECK(std::fabs(w[j][n] - p(n)) < (n < 2 ? 0.3 : 1), "path at " << ts[j] << " s: column " << n << " is " << w[j][n] << ", the car was at " << p(n)); VCHECK(std::fabs(et::wrap(w[j][3 + n] - y(n))) < (n < 1 ? 0.05 : 0.2), "path at " << ts[j] << " s: angle " << n << " is " << w[j][3 + n] << ", that of the car was " << y(n)); } } }
  for (auto& m : r.st) { const double v = m.value, w = want(8) + v * want(9), b = g[8] + v * (g[9] + v * (g[10] + v * g[11])); VCHECK(std::fabs(w - b) < 0.03, "a steering of " << v << " is " << b << " rad by the estimate, " << w << " in truth"); }
  s.nontrivial();
}

CLAUSE(shipped, 2, 4, "the configuration that comes with the example") {
  sm::BoostPropertyTree t; t.loadXml(prog::shipped("incremental_calibration_examples/incremental_calibration_examples_car/conf/config.xml"));
  Scratch dir; t.setInt("car/calibrator/estimator/optimizer/maxIterations", 0); for (const char* n : {"fws", "rws", "st", "dmi"}) t.setBool(std::string("car/calibrator/odometry/sensors/") + n + "/active", true); t.saveXml("conf.xml");
  Conf c = conf(s); const char* n[] = {"fws", "rws", "st", "dmi"}; for (int i = 0; i < 4; ++i) c.topic[i] = t.getString(std::string("car/calibrator/odometry/sensors/") + n[i] + "/topic"); c.topic[4] = t.getString("car/calibrator/applanix/vns/topic"); c.topic[5] = t.getString("car/calibrator/applanix/vnp/topic");
  Car a = car(s); a.m.s0 = 8; a.m.pa = a.m.ra = 0.01; a.m.za = 0; a.m.yr = 0.2; a.len = 4; c.c.r = V3(0, 0, 0.785); c.c.ypr = V3(0, 0, M_PI); c.c.L = 2.70002; c.c.er = 0.74041; c.c.ef = 0.75311; c.c.krl = c.c.krr = c.c.kfl = c.c.kfr = 360; c.c.kdmi = 1; c.c.a[0] = 0; c.c.tr = c.c.tf = c.c.ts = c.c.td = 0; record(s, a, c, 20, 0.001, true);
  Result r = prog::run(car_calib_main, {"run.bag", "conf.xml"}); VEQ(r.rc, 0, "exit status"); VEQ(prog::rows("calibHist.txt").size(), 2u, "calibrations");
  r = prog::run(car_analyze_main, {"run.bag", "conf.xml"}); VEQ(r.rc, 0, "exit status");
  for (const char* f : {"rwPredError.txt", "fwPredError.txt", "stPredError.txt", "dmiPredError.txt", "posePredError.txt", "velPredError.txt"}) VCHECK(!prog::rows(f).empty(), "nothing in " << f);
  s.nontrivial();
}
CLAUSE(usage, 40, 200, "a call without its arguments, or with a missing file") {
  auto main = s.flip() ? car_calib_main : car_analyze_main;
  Conf c = conf(s); Car a = car(s); a.len = 0.5; record(s, a, c, 10, 0, false); Scratch dir; sm::BoostPropertyTree t; write(c, t); t.saveXml("conf.xml");
  std::vector<std::string> v = {"run.bag", "conf.xml"}; const size_t n = s.index(4); v.resize(n, "conf.xml");
  if (n == 2) { v[s.index(2)] = "none"; VTHROWS(std::exception, prog::run(main, v), "a file that is not there"); }
  else { const Result r = prog::run(main, v); VCHECK(r.rc != 0 && r.out.find("Usage") != std::string::npos, "no usage: " << r.out); }
  s.nontrivial();
}
