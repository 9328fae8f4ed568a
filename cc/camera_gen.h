// Random cameras and a reference projection, shared by the camera monitors.
#ifndef VERIF_CAMERA_GEN_H_
#define VERIF_CAMERA_GEN_H_
#include <array>

#include "vh.h"
#include "waymo_open_dataset/dataset.pb.h"

namespace cam {
using waymo::open_dataset::CameraCalibration;
using waymo::open_dataset::CameraImage;
using waymo::open_dataset::Transform;

typedef std::array<double, 3> V3;
struct M3 {
  double a[3][3];
};
inline V3 Mul(const M3& m, const V3& v) {
  V3 o;
  for (int i = 0; i < 3; ++i) o[i] = m.a[i][0] * v[0] + m.a[i][1] * v[1] + m.a[i][2] * v[2];
  return o;
}
inline V3 MulT(const M3& m, const V3& v) {
  V3 o;
  for (int i = 0; i < 3; ++i) o[i] = m.a[0][i] * v[0] + m.a[1][i] * v[1] + m.a[2][i] * v[2];
  return o;
}
inline M3 Mul(const M3& x, const M3& y) {
  M3 o;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) o.a[i][j] = x.a[i][0] * y.a[0][j] + x.a[i][1] * y.a[1][j] + x.a[i][2] * y.a[2][j];
  return o;
}
inline V3 Add(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 Sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 Scale(const V3& a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
inline double Dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double Norm(const V3& a) { return std::sqrt(Dot(a, a)); }

// Rotation by the vector w (Rodrigues).
inline M3 Exp(const V3& w) {
  const double t = Norm(w);
  M3 o = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
  if (t < 1e-15) return o;
  const double x = w[0] / t, y = w[1] / t, z = w[2] / t, c = std::cos(t), s = std::sin(t), k = 1 - c;
  return {{{c + x * x * k, x * y * k - z * s, x * z * k + y * s},
           {y * x * k + z * s, c + y * y * k, y * z * k - x * s},
           {z * x * k - y * s, z * y * k + x * s, c + z * z * k}}};
}
inline void Set(Transform* t, const M3& r, const V3& p) {
  t->clear_transform();
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) t->add_transform(r.a[i][j]);
    t->add_transform(p[i]);
  }
  for (double x : {0.0, 0.0, 0.0, 1.0}) t->add_transform(x);
}
inline void Get(const Transform& t, M3* r, V3* p) {
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r->a[i][j] = t.transform(4 * i + j);
    (*p)[i] = t.transform(4 * i + 3);
  }
}

// Lens: distortion of a direction; rd is the radial factor.
inline void Distort(const CameraCalibration& c, double u, double v, double* ud, double* vd, double* rd) {
  const double k1 = c.intrinsic(4), k2 = c.intrinsic(5), p1 = c.intrinsic(6), p2 = c.intrinsic(7), k3 = c.intrinsic(8);
  const double r2 = u * u + v * v;
  *rd = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2;
  const double x = u * *rd + 2 * p1 * u * v + p2 * (r2 + 2 * u * u);
  const double y = v * *rd + p1 * (r2 + 2 * v * v) + 2 * p2 * u * v;
  *ud = c.intrinsic(0) * x + c.intrinsic(2);
  *vd = c.intrinsic(1) * y + c.intrinsic(3);
}

// Radius on which the lens bends so little that its inverse is well behaved:
// the largest contraction |r rd'(r)| there.
inline double Bend(const CameraCalibration& c, double r) {
  double worst = 0;
  for (int i = 0; i <= 20; ++i) {
    const double x = r * i / 20, x2 = x * x;
    const double d = std::fabs(2 * c.intrinsic(4) * x2 + 4 * c.intrinsic(5) * x2 * x2 + 6 * c.intrinsic(8) * x2 * x2 * x2) +
                     8 * x * (std::fabs(c.intrinsic(6)) + std::fabs(c.intrinsic(7)));
    worst = std::max(worst, d);
  }
  return worst;
}
inline double CornerRadius(const CameraCalibration& c) {
  double r = 0;
  for (double u : {0.0, static_cast<double>(c.width())})
    for (double v : {0.0, static_cast<double>(c.height())})
      r = std::max(r, std::hypot((u - c.intrinsic(2)) / c.intrinsic(0), (v - c.intrinsic(3)) / c.intrinsic(1)));
  return r;
}

inline CameraCalibration RandCalibration(vh::Rng* r, int direction) {
  CameraCalibration c;
  for (;;) {
    c.Clear();
    c.set_name(waymo::open_dataset::CameraName::FRONT);
    const int w = r->pick<int>({1920, 1920, 640, 101}), h = r->pick<int>({1280, 886, 480, 77});
    const double f = w * r->uni(0.7, 1.6);
    c.add_intrinsic(f);
    c.add_intrinsic(r->chance(0.5) ? f : f * r->uni(0.9, 1.1));
    c.add_intrinsic(w * r->uni(0.45, 0.55));
    c.add_intrinsic(h * r->uni(0.45, 0.55));
    const double scale = r->pick<double>({0, 0.3, 1});
    c.add_intrinsic(scale * r->uni(-0.3, 0.15));
    c.add_intrinsic(scale * r->uni(-0.3, 0.3));
    c.add_intrinsic(scale * r->uni(-2e-3, 2e-3));
    c.add_intrinsic(scale * r->uni(-2e-3, 2e-3));
    c.add_intrinsic(r->chance(0.5) ? 0 : scale * r->uni(-0.05, 0.05));
    c.set_width(w);
    c.set_height(h);
    if (Bend(c, 1.3 * CornerRadius(c)) < 0.35) break;
  }
  Set(c.mutable_extrinsic(), Exp({r->uni(-0.2, 0.2), r->uni(-0.2, 0.2), r->uni(-3.1, 3.1)}), {r->uni(-3, 3), r->uni(-2, 2), r->uni(0, 3)});
  c.set_rolling_shutter_direction(static_cast<CameraCalibration::RollingShutterReadOutDirection>(direction));
  return c;
}

inline CameraImage RandImage(vh::Rng* r, bool still) {
  CameraImage i;
  const double far = r->pick<double>({0, 100, 15000});
  Set(i.mutable_pose(), r->chance(0.5) ? Exp({r->uni(-0.1, 0.1), r->uni(-0.1, 0.1), r->uni(-3.1, 3.1)}) : Exp({r->uni(-2, 2), r->uni(-2, 2), r->uni(-2, 2)}),
      {r->uni(-far, far), r->uni(-far, far), r->uni(-100, 100)});
  auto* v = i.mutable_velocity();
  const double speed = still ? 0 : r->pick<double>({0, 5, 20}), turn = still ? 0 : r->pick<double>({0, 0.1, 0.4});
  v->set_v_x(r->uni(-speed, speed));
  v->set_v_y(r->uni(-speed, speed));
  v->set_v_z(r->uni(-speed, speed) * 0.1);
  v->set_w_x(r->uni(-turn, turn));
  v->set_w_y(r->uni(-turn, turn));
  v->set_w_z(r->uni(-turn, turn));
  const double t0 = r->pick<double>({0, 1000, 1553640277}) + r->u();
  i.set_shutter(r->pick<double>({0, 0.0004, 0.01}));
  i.set_camera_trigger_time(t0);
  i.set_camera_readout_done_time(t0 + i.shutter() + (r->chance(0.1) ? 0 : r->uni(0.005, 0.06)));
  i.set_pose_timestamp(t0 + r->uni(-0.03, 0.08));
  return i;
}

// The pose of the camera a time `t` after the pose of the image.
struct Pose {
  M3 r;
  V3 p;
};
inline Pose At(const CameraCalibration& c, const CameraImage& i, double t) {
  M3 rv, rc;
  V3 pv, pc;
  Get(i.pose(), &rv, &pv);
  Get(c.extrinsic(), &rc, &pc);
  const auto& v = i.velocity();
  // The angular velocity is about the axes of the vehicle.
  const M3 now = Mul(rv, Exp({v.w_x() * t, v.w_y() * t, v.w_z() * t}));
  Pose o;
  o.r = Mul(now, rc);
  o.p = Add(Add(pv, Scale({v.v_x(), v.v_y(), v.v_z()}, t)), Mul(now, pc));
  return o;
}
// When a pixel is exposed (middle of its exposure), relative to the pose.
inline double PixelTime(const CameraCalibration& c, const CameraImage& i, double u, double v) {
  const double readout = i.camera_readout_done_time() - i.camera_trigger_time() - i.shutter();
  double part = 0;
  switch (c.rolling_shutter_direction()) {
    case CameraCalibration::TOP_TO_BOTTOM: part = v / c.height(); break;
    case CameraCalibration::BOTTOM_TO_TOP: part = 1 - v / c.height(); break;
    case CameraCalibration::LEFT_TO_RIGHT: part = u / c.width(); break;
    case CameraCalibration::RIGHT_TO_LEFT: part = 1 - u / c.width(); break;
    default: return 0;
  }
  return i.camera_trigger_time() + 0.5 * i.shutter() + readout * part - i.pose_timestamp();
}
inline bool Horizontal(const CameraCalibration& c) {
  return c.rolling_shutter_direction() == CameraCalibration::LEFT_TO_RIGHT || c.rolling_shutter_direction() == CameraCalibration::RIGHT_TO_LEFT;
}

// A point seen by a camera at `pose`.
struct Seen {
  bool front = false;
  double un = 0, vn = 0, depth = 0, u = 0, v = 0, rd = 0;
};
inline Seen Project(const CameraCalibration& c, const Pose& pose, const V3& p) {
  const V3 q = MulT(pose.r, Sub(p, pose.p));
  Seen s;
  s.depth = q[0];
  s.front = q[0] > 0;
  if (!s.front) return s;
  s.un = -q[1] / q[0];
  s.vn = -q[2] / q[0];
  Distort(c, s.un, s.vn, &s.u, &s.v, &s.rd);
  return s;
}
}  // namespace cam
#endif
