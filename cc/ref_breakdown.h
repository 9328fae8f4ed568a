// Independent statement of the metrics breakdowns: shard of an object, shards
// it takes part in during matching, number of shards, names.
#ifndef VERIF_REF_BREAKDOWN_H_
#define VERIF_REF_BREAKDOWN_H_
#include <cmath>
#include <string>
#include <vector>

#include "waymo_open_dataset/protos/breakdown.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"

namespace ref {
using waymo::open_dataset::Breakdown;
using waymo::open_dataset::CameraName;
using waymo::open_dataset::Config;
using waymo::open_dataset::Label;
using waymo::open_dataset::Object;

inline const std::vector<Breakdown::GeneratorId>& Generators() {
  static const std::vector<Breakdown::GeneratorId> k = {
      Breakdown::ONE_SHARD, Breakdown::OBJECT_TYPE, Breakdown::RANGE, Breakdown::VELOCITY,
      Breakdown::ALL_BUT_SIGN, Breakdown::SIZE, Breakdown::CAMERA};
  return k;
}
struct GenDef {
  const char* prefix;
  int per_type;  // 0: not per type.
  std::vector<std::string> names;
};
inline const GenDef& Def(Breakdown::GeneratorId g) {
  static const GenDef one = {"", 0, {"ONE_SHARD"}};
  static const GenDef type = {"OBJECT_TYPE", 1, {""}};
  static const GenDef range = {"RANGE", 3, {"[0, 30)", "[30, 50)", "[50, +inf)"}};
  static const GenDef vel = {"VELOCITY", 5, {"STATIONARY", "SLOW", "MEDIUM", "FAST", "VERY_FAST"}};
  static const GenDef abs = {"", 0, {"ALL_BUT_SIGN", "SIGN"}};
  static const GenDef size = {"SIZE", 2, {"small", "large"}};
  static const GenDef cam = {"CAMERA", 5, {"FRONT", "FRONT-LEFT", "FRONT-RIGHT", "SIDE-LEFT", "SIDE-RIGHT"}};
  switch (g) {
    case Breakdown::OBJECT_TYPE:
      return type;
    case Breakdown::RANGE:
      return range;
    case Breakdown::VELOCITY:
      return vel;
    case Breakdown::ALL_BUT_SIGN:
      return abs;
    case Breakdown::SIZE:
      return size;
    case Breakdown::CAMERA:
      return cam;
    default:
      return one;
  }
}
inline int NumShards(Breakdown::GeneratorId g) {
  const GenDef& d = Def(g);
  return d.per_type ? 4 * d.per_type : static_cast<int>(d.names.size());
}
inline std::string ShardName(Breakdown::GeneratorId g, int shard) {
  static const char* kT[] = {"TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_SIGN", "TYPE_CYCLIST"};
  const GenDef& d = Def(g);
  if (!d.per_type) return d.names[shard];
  std::string s = std::string(d.prefix) + "_" + kT[shard / d.per_type];
  const std::string& n = d.names[shard % d.per_type];
  return n.empty() ? s : s + "_" + n;
}
inline bool GtOnly(Breakdown::GeneratorId g) { return g == Breakdown::VELOCITY || g == Breakdown::CAMERA; }

// Camera index 0..4 by field of view, nearest degrees first in fixed order.
inline std::vector<int> FovCameras(const Object& o) {
  static const double kDeg[] = {0, 45, -45, 90, -90};
  const double a = std::atan2(o.object().box().center_y(), o.object().box().center_x()) * 57.295779513082320877;
  std::vector<int> v;
  for (int i = 0; i < 5; ++i)
    if (std::fabs(a - kDeg[i]) < 25.2) v.push_back(i);
  return v;
}
inline int CameraIndex(CameraName::Name n) {
  switch (n) {
    case CameraName::FRONT:
      return 0;
    case CameraName::FRONT_LEFT:
      return 1;
    case CameraName::FRONT_RIGHT:
      return 2;
    case CameraName::SIDE_LEFT:
      return 3;
    case CameraName::SIDE_RIGHT:
      return 4;
    default:
      return -1;
  }
}
inline int CameraIndex(const std::string& s) {
  static const char* k[] = {"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT"};
  for (int i = 0; i < 5; ++i)
    if (s == k[i]) return i;
  return -1;
}
inline double Speed(const Object& o) {
  const auto& m = o.object().metadata();
  if (!m.has_speed_x() || !m.has_speed_y()) return 0;
  return std::hypot(m.speed_x(), m.speed_y());
}
inline int Shard(Breakdown::GeneratorId g, const Object& o) {
  const int t = static_cast<int>(o.object().type()) - 1;
  const auto& b = o.object().box();
  if (g == Breakdown::ONE_SHARD) return 0;
  if (g == Breakdown::ALL_BUT_SIGN) return o.object().type() == Label::TYPE_SIGN ? 1 : 0;
  if (t < 0) return -1;
  int k = 0;
  switch (g) {
    case Breakdown::OBJECT_TYPE:
      return t;
    case Breakdown::RANGE: {
      const double r2 = b.center_x() * b.center_x() + b.center_y() * b.center_y() + b.center_z() * b.center_z();
      k = r2 < 900 ? 0 : (r2 < 2500 ? 1 : 2);
      return 3 * t + k;
    }
    case Breakdown::VELOCITY: {
      const double v = Speed(o);
      k = v < 0.2 ? 0 : (v < 1 ? 1 : (v < 3 ? 2 : (v < 10 ? 3 : 4)));
      return 5 * t + k;
    }
    case Breakdown::SIZE:
      k = std::max(b.length(), std::max(b.width(), b.height())) < 7 ? 0 : 1;
      return 2 * t + k;
    case Breakdown::CAMERA:
      if (o.has_camera_name()) {
        k = CameraIndex(o.camera_name());
      } else if (o.object().has_most_visible_camera_name()) {
        k = CameraIndex(o.object().most_visible_camera_name());
      } else {
        const std::vector<int> v = FovCameras(o);
        k = v.empty() ? -1 : v[0];
      }
      return k < 0 ? -1 : 5 * t + k;
    default:
      return -1;
  }
}
// Shards in which the object takes part when detections are matched.
inline std::vector<int> MatchShards(Breakdown::GeneratorId g, const Object& o) {
  const int t = static_cast<int>(o.object().type()) - 1;
  std::vector<int> v;
  if (g == Breakdown::VELOCITY) {
    if (t >= 0)
      for (int i = 0; i < 5; ++i) v.push_back(5 * t + i);
    return v;
  }
  if (g == Breakdown::CAMERA && !o.has_camera_name()) {
    if (t >= 0)
      for (int c : FovCameras(o)) v.push_back(5 * t + c);
    return v;
  }
  const int s = Shard(g, o);
  if (s >= 0) v.push_back(s);
  return v;
}
inline std::vector<int> Levels(const Config& c, int i) {
  std::vector<int> v(c.difficulties(i).levels().begin(), c.difficulties(i).levels().end());
  if (v.empty()) v.push_back(2);
  return v;
}
inline std::string LevelName(int l) { return l == 0 ? "UNKNOWN" : (l == 1 ? "LEVEL_1" : "LEVEL_2"); }

// True if the object sits so close to a shard boundary that rounding decides.
inline bool NearBoundary(const Object& o) {
  const auto& b = o.object().box();
  auto close = [](double a, double x) { return std::fabs(a - x) < 1e-6 && a != x; };
  const double r = std::sqrt(b.center_x() * b.center_x() + b.center_y() * b.center_y() + b.center_z() * b.center_z());
  const double v = Speed(o);
  if (close(r, 30) || close(r, 50)) return true;
  if (std::fabs(v - 0.2) < 1e-6 || close(v, 1) || close(v, 3) || close(v, 10)) return true;
  const double a = std::fabs(std::atan2(b.center_y(), b.center_x()) * 57.29577951308232);
  for (double d : {25.2, 19.8, 70.2, 64.8, 115.2})
    if (std::fabs(a - d) < 1e-6) return true;
  return false;
}
}  // namespace ref
#endif
