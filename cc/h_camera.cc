// C18: the camera model against an independent projection.
#include "camera_gen.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"

namespace waymo {
namespace open_dataset {
namespace {
using namespace cam;

const double kNan = std::numeric_limits<double>::quiet_NaN();

std::string Str(const CameraCalibration& c, const CameraImage& i) { return "calibration{" + c.ShortDebugString() + "} image{" + i.ShortDebugString() + "}"; }
std::string Str(const V3& p) {
  std::ostringstream o;
  o.precision(17);
  o << "(" << p[0] << ", " << p[1] << ", " << p[2] << ")";
  return o.str();
}

// A world point that the camera sees near pixel (u, v) at its pose, by inverting the lens numerically.
bool Unproject(const CameraCalibration& c, double u, double v, double* un, double* vn) {
  double x = (u - c.intrinsic(2)) / c.intrinsic(0), y = (v - c.intrinsic(3)) / c.intrinsic(1);
  for (int k = 0; k < 60; ++k) {
    double a, b, rd, a1, b1, a2, b2, t;
    Distort(c, x, y, &a, &b, &rd);
    const double e = 1e-6;
    Distort(c, x + e, y, &a1, &b1, &t);
    Distort(c, x, y + e, &a2, &b2, &t);
    const double j11 = (a1 - a) / e, j21 = (b1 - b) / e, j12 = (a2 - a) / e, j22 = (b2 - b) / e, det = j11 * j22 - j12 * j21;
    if (std::fabs(det) < 1e-9) return false;
    const double ru = u - a, rv = v - b;
    x += (j22 * ru - j12 * rv) / det;
    y += (-j21 * ru + j11 * rv) / det;
    if (std::hypot(ru, rv) < 1e-10) break;
  }
  double a, b, rd;
  Distort(c, x, y, &a, &b, &rd);
  *un = x;
  *vn = y;
  return std::hypot(a - u, b - v) < 1e-7;
}

struct Out {
  bool ok = false;
  double u = kNan, v = kNan, d = kNan;
};
Out ToImage(const CameraModel& m, const V3& p, const V3& vel, bool bounds, bool moving) {
  Out o;
  if (moving)
    o.ok = m.WorldToImageMovingPointWithDepth(p[0], p[1], p[2], vel[0], vel[1], vel[2], bounds, &o.u, &o.v, &o.d);
  else
    o.ok = m.WorldToImageWithDepth(p[0], p[1], p[2], bounds, &o.u, &o.v, &o.d);
  return o;
}

// What holds of every answer.
void CheckAnswer(const CameraModel& m, const CameraCalibration& c, const V3& p, const V3& vel, bool moving, const std::string& d) {
  const Out free = ToImage(m, p, vel, false, moving), in = ToImage(m, p, vel, true, moving);
  VH_EXPECT(!std::isnan(free.u) && !std::isnan(free.v) && !std::isnan(free.d), "coordinates_not_set",
            "(" << free.u << ", " << free.v << ", " << free.d << ") ok " << free.ok << " for " << Str(p) << " moving " << Str(vel) << " on " << d);
  VH_EXPECT((free.u == in.u || std::isnan(free.u)) && (free.v == in.v || std::isnan(free.v)) && (free.d == in.d || std::isnan(free.d)), "bounds_change_coordinates", Str(p) << " on " << d);
  const bool inside = free.u >= 0 && free.u < c.width() && free.v >= 0 && free.v < c.height();
  VH_EXPECT(m.InImage(free.u, free.v) == inside, "in_image", free.u << " " << free.v << " on " << d);
  VH_EXPECT(in.ok == (free.ok && inside), "bounds_flag", "ok " << in.ok << " without bounds " << free.ok << " inside " << inside << " for " << Str(p) << " on " << d);
  // The image is half open: its first row and column are in it, its width and height are not.
  const double w = c.width(), h = c.height();
  const double us[] = {0, -0.0, std::nextafter(0.0, -1), w, std::nextafter(w, 0), w / 2, -1}, vs[] = {0, -0.0, std::nextafter(0.0, -1), h, std::nextafter(h, 0), h / 2, w < h ? w : h - 1};
  for (int i = 0; i < 7; ++i)
    for (int j = 0; j < 7; ++j)
      VH_EXPECT(m.InImage(us[i], vs[j]) == (us[i] >= 0 && us[i] < w && vs[j] >= 0 && vs[j] < h), "in_image_edge", us[i] << " " << vs[j] << " on " << d);
  if (!free.ok) {
    VH_EXPECT(!inside, "invalid_but_inside", "(" << free.u << ", " << free.v << ") for " << Str(p) << " moving " << Str(vel) << " on " << d);
    vh::Count("invalid_points");
  }
  if (!moving) {
    double u = kNan, v = kNan;
    const bool ok = m.WorldToImage(p[0], p[1], p[2], false, &u, &v);
    VH_EXPECT(ok == free.ok && (u == free.u || std::isnan(free.u)) && (v == free.v || std::isnan(free.v)), "without_depth", Str(p) << " on " << d);
  }
}

V3 RandPoint(vh::Rng* r, const CameraCalibration& c, const Pose& pose) {
  V3 q;
  switch (r->range(0, 9)) {
    case 0:  // Anywhere, also behind.
      q = {r->uni(-50, 50), r->uni(-50, 50), r->uni(-50, 50)};
      break;
    case 1:  // Far off the axis.
      q = {r->uni(0.01, 3), r->uni(-50, 50), r->uni(-50, 50)};
      break;
    default: {
      const double m = 0.2 * r->range(0, 1);
      double un, vn;
      if (!Unproject(c, c.width() * r->uni(-m, 1 + m), c.height() * r->uni(-m, 1 + m), &un, &vn)) un = vn = 0;
      const double depth = r->chance(0.2) ? r->uni(0.5, 5) : r->uni(5, 90);
      q = {depth, -un * depth, -vn * depth};
    }
  }
  return Add(Mul(pose.r, q), pose.p);
}

void CheckGlobal(const CameraModel& m, const CameraCalibration& c, const Pose& pose, const V3& p, const std::string& d) {
  const Seen s = Project(c, pose, p);
  if (std::fabs(s.depth) < 1e-6) return;
  const Out o = ToImage(m, p, {0, 0, 0}, false, false);
  if (!s.front) {
    VH_EXPECT(!o.ok && o.u == -1 && o.v == -1 && o.d == -1, "behind", o.ok << " (" << o.u << ", " << o.v << ", " << o.d << ") for " << Str(p) << " on " << d);
    vh::Count("behind");
    return;
  }
  const double near = 1e-6 * (1 + 1 / s.depth);
  VH_EXPECT(vh::Near(o.d, s.depth, 1e-7), "depth", o.d << " want " << s.depth << " for " << Str(p) << " on " << d);
  if (std::fabs(s.rd - 0.8) < near || std::fabs(s.rd - 1.2) < near) return;
  if (s.rd < 0.8 || s.rd > 1.2) {
    VH_EXPECT(!o.ok, "distorted_accepted", "radial factor " << s.rd << " for " << Str(p) << " on " << d);
    const double du = o.u - c.intrinsic(2), dv = o.v - c.intrinsic(3);
    VH_EXPECT(du * s.un >= 0 && dv * s.vn >= 0 && std::fabs(du * s.vn - dv * s.un) <= 1e-4 * (1 + std::hypot(du, dv)) * (1 + std::hypot(s.un, s.vn)), "clipped_direction",
              "(" << o.u << ", " << o.v << ") for direction (" << s.un << ", " << s.vn << ") on " << d);
    vh::Count("too_distorted");
    return;
  }
  VH_EXPECT(o.ok, "visible_refused", Str(p) << " on " << d);
  const double tol = 1e-5 + (std::hypot(s.u, s.v) + c.intrinsic(0)) * 3e-15 * (1 + Norm(p)) / s.depth * 100;
  VH_EXPECT(std::fabs(o.u - s.u) <= tol && std::fabs(o.v - s.v) <= tol, "pixel", "(" << o.u << ", " << o.v << ") want (" << s.u << ", " << s.v << ") for " << Str(p) << " on " << d);
  vh::Count("projected");
}

void GlobalCase(vh::Rng* r) {
  // A still rolling shutter camera sees what a global shutter camera sees.
  const bool still = r->chance(0.4);
  const CameraCalibration c = RandCalibration(r, still ? r->range(1, 4) : 5);
  const CameraImage img = RandImage(r, still);
  const std::string d = Str(c, img);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  CameraModel m(c);
  if (r->chance(0.3)) m.PrepareProjection(RandImage(r, false));  // Used for another image before.
  m.PrepareProjection(img);
  const Pose pose = At(c, img, 0);
  if (still) vh::Count("still_cameras");
  for (int k = 0; k < 12; ++k) {
    const V3 p = RandPoint(r, c, pose);
    CheckGlobal(m, c, pose, p, d);
    const V3 vel = r->chance(0.5) ? V3{0, 0, 0} : V3{r->uni(-9, 9), r->uni(-9, 9), 0};
    CheckAnswer(m, c, p, vel, r->chance(0.3), d);
    // A global shutter is open at the time of the pose only.
    if (!still) {
      const Out a = ToImage(m, p, vel, false, true), b = ToImage(m, p, vel, false, false);
      VH_EXPECT(a.ok == b.ok && a.u == b.u && a.v == b.v && a.d == b.d, "global_moving", Str(p) << " on " << d);
    }
    // Pixels to points.
    const double u = c.width() * r->u(), v = c.height() * r->u(), depth = r->uni(0.5, 80);
    double un, vn;
    if (!Unproject(c, u, v, &un, &vn)) continue;
    const V3 q = {depth, -un * depth, -vn * depth};
    const V3 want = Add(Mul(pose.r, q), pose.p);
    V3 got;
    const double tol = depth * 2e-3 / c.intrinsic(0) + 1e-8 * (1 + Norm(pose.p));
    m.ImageToWorld(u, v, depth, &got[0], &got[1], &got[2]);
    VH_EXPECT(Norm(Sub(got, want)) <= tol, "point", Str(got) << " want " << Str(want) << " for (" << u << ", " << v << ", " << depth << ") on " << d);
    M3 rc;
    V3 pc;
    Get(c.extrinsic(), &rc, &pc);
    m.ImageToVehicleGlobalShutter(u, v, depth, &got[0], &got[1], &got[2]);
    VH_EXPECT(Norm(Sub(got, Add(Mul(rc, q), pc))) <= tol, "vehicle_point", Str(got) << " for (" << u << ", " << v << ", " << depth << ") on " << d);
    const double rd = Project(c, pose, want).rd;
    if (rd < 0.801 || rd > 1.199) continue;  // Too bent to be projected.
    m.ImageToWorld(u, v, depth, &got[0], &got[1], &got[2]);
    const Out back = ToImage(m, got, {0, 0, 0}, false, false);
    VH_EXPECT(back.ok && std::fabs(back.u - u) <= 5e-3 && std::fabs(back.v - v) <= 5e-3 && std::fabs(back.d - depth) <= 1e-6 * (1 + Norm(pose.p)), "round_trip",
              "(" << back.u << ", " << back.v << ", " << back.d << ") want (" << u << ", " << v << ", " << depth << ") on " << d);
    vh::Count("round_trips");
  }
}

void RollingCase(vh::Rng* r) {
  const CameraCalibration c = RandCalibration(r, r->range(1, 4));
  const CameraImage img = RandImage(r, false);
  const std::string d = Str(c, img);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  CameraModel m(c);
  if (r->chance(0.3)) m.PrepareProjection(RandImage(r, false));
  m.PrepareProjection(img);
  const auto& vel = img.velocity();
  const double omega = std::sqrt(vel.w_x() * vel.w_x() + vel.w_y() * vel.w_y() + vel.w_z() * vel.w_z());
  M3 rc;
  V3 pc;
  Get(c.extrinsic(), &rc, &pc);
  const double readout = img.camera_readout_done_time() - img.camera_trigger_time() - img.shutter();
  const double tpp = PixelTime(c, img, c.intrinsic(2), c.intrinsic(3));
  VH_EXPECT(std::fabs(m.t_pose_offset() + tpp) <= 1e-6, "pose_offset", m.t_pose_offset() << " want " << -tpp << " on " << d);
  const double clock = 5e-7;  // Of times as large as 1.5e9 seconds.
  for (int k = 0; k < 12; ++k) {
    const double u = c.width() * r->u(), v = c.height() * r->u(), depth = r->uni(4, 80);
    double un, vn;
    if (!Unproject(c, u, v, &un, &vn)) continue;
    const double t = PixelTime(c, img, u, v);
    const Pose pose = At(c, img, t);
    const V3 want = Add(Mul(pose.r, V3{depth, -un * depth, -vn * depth}), pose.p);
    const double second = 0.6 * omega * omega * t * t;
    V3 got;
    m.ImageToWorld(u, v, depth, &got[0], &got[1], &got[2]);
    const double range = depth * std::sqrt(1 + un * un + vn * vn);
    const double tol = depth * 2e-3 / c.intrinsic(0) + 1e-8 * (1 + Norm(pose.p)) + second * (range + Norm(pc)) + clock * (40 + omega * range);
    VH_EXPECT(Norm(Sub(got, want)) <= tol, "rolling_point",
              Str(got) << " want " << Str(want) << " off " << Norm(Sub(got, want)) << " tol " << tol << " for (" << u << ", " << v << ", " << depth << ") t " << t << " on " << d);
    if (Norm(Sub(want, Add(Mul(At(c, img, 0).r, V3{depth, -un * depth, -vn * depth}), At(c, img, 0).p))) > 3 * tol) vh::Count("moved_points");

    // The point that this pixel shows at its time, moving or not.
    const bool moving = r->chance(0.5);
    const V3 pv = moving ? V3{r->uni(-10, 10), r->uni(-10, 10), r->uni(-1, 1)} : V3{0, 0, 0};
    const V3 p = Sub(want, Scale(pv, t));
    // Apparent speed, in pixels and in readout ranges per readout.
    const double e = 1e-4;
    const Seen s0 = Project(c, pose, want), s1 = Project(c, At(c, img, t + e), Add(want, Scale(pv, e)));
    if (s0.rd < 0.801 || s0.rd > 1.199) continue;
    const double su = (s1.u - s0.u) / e, sv = (s1.v - s0.v) / e, speed = std::hypot(su, sv);
    const double scan = Horizontal(c) ? c.width() : c.height();
    const double apparent = std::fabs(Horizontal(c) ? su : sv) * readout / scan;
    if (apparent > 0.3) {
      vh::Count("too_fast");
      continue;
    }
    // The time of a pixel is taken to be linear in its direction instead of in pixels.
    double n0, n1, x;
    if (!(Horizontal(c) ? Unproject(c, 0, 0.5 * c.height(), &n0, &x) && Unproject(c, c.width(), 0.5 * c.height(), &n1, &x)
                        : Unproject(c, 0.5 * c.width(), 0, &x, &n0) && Unproject(c, 0.5 * c.width(), c.height(), &x, &n1)))
      continue;
    const double linear = std::fabs(readout * ((Horizontal(c) ? un : vn) / (n1 - n0) - (Horizontal(c) ? u - c.intrinsic(2) : v - c.intrinsic(3)) / scan));
    const Out o = ToImage(m, p, pv, false, moving);
    const double lag = speed * (linear + 1e-5 + clock) / (1 - apparent);
    const double ptol = 1e-2 + 1.3 * lag + 1.5 * c.intrinsic(0) * second * (1 + un * un + vn * vn) * (1 + Norm(pc) / depth) * 2 + c.intrinsic(0) * 1e-8 * (1 + Norm(pose.p)) / depth;
    VH_EXPECT(o.ok && std::fabs(o.u - u) <= ptol && std::fabs(o.v - v) <= ptol, "rolling_pixel",
              o.ok << " (" << o.u << ", " << o.v << ") want (" << u << ", " << v << ") tol " << ptol << " for " << Str(p) << " moving " << Str(pv) << " depth " << depth << " t " << t << " speed " << speed << " linear " << linear << " apparent " << apparent << " second " << second << " readout " << readout << " on " << d);
    VH_EXPECT(std::fabs(o.d - depth) <= 1e-3 + 1.3 * std::fabs(s1.depth - s0.depth) / e * (linear + 1e-5 + clock + 3 * second * (1 + un * un + vn * vn) * (1 + Norm(pc) / depth) * readout * c.intrinsic(0) / scan) / (1 - apparent) + second * 2 * (range + Norm(pc)) + omega * range * (linear + 1e-5), "rolling_depth", o.d << " want " << depth << " for " << Str(p) << " on " << d);
    vh::Count(moving ? "rolling_moving" : "rolling_projected");
    const Seen at_pose = Project(c, At(c, img, 0), p);
    if (at_pose.front && std::hypot(at_pose.u - u, at_pose.v - v) > 5 * ptol) vh::Count("moved_pixels");
    CheckAnswer(m, c, p, pv, moving, d);
  }
  for (int k = 0; k < 6; ++k) {
    // Anything at all, incl. behind the camera and as fast as the shutter.
    const V3 p = RandPoint(r, c, At(c, img, 0));
    const double s = r->pick<double>({0, 10, 60});
    const V3 pv = {r->uni(-s, s), r->uni(-s, s), r->uni(-s, s)};
    CheckAnswer(m, c, p, pv, s > 0, d);
    const V3 q = MulT(At(c, img, 0).r, Sub(p, At(c, img, 0).p));
    if (q[0] < -30 && s == 0) {
      const Out o = ToImage(m, p, pv, false, false);
      VH_EXPECT(!o.ok && o.u == -1 && o.v == -1 && o.d == -1, "rolling_behind", o.ok << " (" << o.u << ", " << o.v << ", " << o.d << ") for " << Str(p) << " on " << d);
      vh::Count("behind");
    }
    vh::Count("any_points");
  }
}

}  // namespace
}  // namespace open_dataset
}  // namespace waymo

int main(int argc, char** argv) {
  using namespace waymo::open_dataset;
  return vh::Main(argc, argv, {{"global", 1.0, GlobalCase}, {"rolling", 1.0, RollingCase}});
}
