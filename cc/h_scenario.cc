// C17: Scenario -> tf.Example against an independent layout of the features.
#include <algorithm>

#include "absl/status/statusor.h"
#include "tensorflow/core/example/example.pb.h"
#include "tensorflow/core/example/feature.pb.h"
#include "vh.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"
#include "waymo_open_dataset/protos/conversion_config.pb.h"
#include "waymo_open_dataset/protos/map.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"

namespace waymo {
namespace open_dataset {
namespace {

typedef std::vector<double> Row;
struct P3 {
  double x = 0, y = 0, z = 0;
};
P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
P3 operator*(P3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
double Len(P3 a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
P3 Pt(const MapPoint& m) { return {m.x(), m.y(), m.z()}; }

// ---- generators ----
void AddPoints(vh::Rng* r, google::protobuf::RepeatedPtrField<MapPoint>* out, int n, double spacing, bool line) {
  double x = r->uni(-100, 100), y = r->uni(-100, 100), z = r->uni(-5, 5), a = r->uni(-3.2, 3.2);
  const double turn = r->uni(-0.2, 0.2);
  for (int i = 0; i < n; ++i) {
    MapPoint* p = out->Add();
    p->set_x(x);
    p->set_y(y);
    p->set_z(z);
    const double step = line ? (i + 2 == n ? spacing * r->u() : spacing) : r->uni(0.1, 12);
    if (!line && r->chance(0.1)) continue;  // The same corner again.
    x += step * std::cos(a);
    y += step * std::sin(a);
    z += r->uni(-0.05, 0.05);
    a += line ? turn : r->uni(0.3, 2.5);
  }
  if (!line && n > 1 && r->chance(0.2)) *out->Mutable(n - 1) = out->Get(0);
}

MapFeature RandFeature(vh::Rng* r, int64_t id, double spacing) {
  MapFeature f;
  f.set_id(r->chance(0.2) ? id + (r->range(1, 1000) * int64_t{4294967296}) : id);
  const int n = r->chance(0.15) ? r->range(1, 3) : r->range(2, 25);
  const int corners = r->pick<int>({1, 2, 3, 4, 4, 4, 5, 7});
  switch (r->range(0, 7)) {
    case 0:
      f.mutable_lane()->set_type(static_cast<LaneCenter::LaneType>(r->range(0, 3)));
      AddPoints(r, f.mutable_lane()->mutable_polyline(), r->chance(0.05) ? 0 : n, spacing, true);
      break;
    case 1:
      f.mutable_road_line()->set_type(static_cast<RoadLine::RoadLineType>(r->range(0, 8)));
      AddPoints(r, f.mutable_road_line()->mutable_polyline(), r->chance(0.05) ? 0 : n, spacing, true);
      break;
    case 2:
      f.mutable_road_edge()->set_type(static_cast<RoadEdge::RoadEdgeType>(r->range(0, 2)));
      AddPoints(r, f.mutable_road_edge()->mutable_polyline(), n, spacing, true);
      break;
    case 3:
      f.mutable_stop_sign()->mutable_position()->set_x(r->uni(-50, 50));
      f.mutable_stop_sign()->mutable_position()->set_y(r->uni(-50, 50));
      f.mutable_stop_sign()->mutable_position()->set_z(r->uni(-5, 5));
      break;
    case 4:
      AddPoints(r, f.mutable_crosswalk()->mutable_polygon(), r->chance(0.06) ? 0 : corners, spacing, false);
      break;
    case 5:
      AddPoints(r, f.mutable_speed_bump()->mutable_polygon(), r->chance(0.06) ? 0 : corners, spacing, false);
      break;
    case 6:
      AddPoints(r, f.mutable_driveway()->mutable_polygon(), r->chance(0.06) ? 0 : corners, spacing, false);
      break;
    default:
      break;  // No data.
  }
  return f;
}

Scenario RandScenario(vh::Rng* r, const MotionExampleConversionConfig& cfg) {
  Scenario s;
  s.set_scenario_id("scenario" + std::to_string(r->range(0, 1000)));
  const int steps = cfg.num_past_steps() + cfg.num_future_steps();
  int n = steps;
  if (r->chance(0.15)) n = steps + r->range(1, 4);
  if (r->chance(0.15)) n = r->range(cfg.num_past_steps(), steps);
  const double start = r->chance(0.1) ? 1.5e9 : (r->chance(0.3) ? r->uni(0, 50) : 0);
  for (int i = 0; i < n; ++i) s.add_timestamps_seconds(start + 0.1 * i);
  const int tracks = r->range(1, 14);
  const bool grid = r->chance(0.2);
  for (int t = 0; t < tracks; ++t) {
    Track* k = s.add_tracks();
    k->set_id(r->chance(0.1) ? r->range(0, 20) + 5000 : r->chance(0.1) ? r->range(0, 20) * 65536 : r->chance(0.05) ? r->range(100000, 2000000000) : r->range(0, 100000));
    k->set_object_type(static_cast<Track::ObjectType>(r->chance(0.04) ? 0 : r->range(1, 4)));
    const double p = r->pick<double>({1.0, 0.9, 0.5, 0.1});
    const double vx = r->uni(-15, 15), vy = r->uni(-15, 15);
    double x = grid ? r->range(-2, 2) : r->uni(-80, 80), y = grid ? r->range(-2, 2) : r->uni(-80, 80);
    for (int i = 0; i < n; ++i) {
      ObjectState* o = k->add_states();
      if (!r->chance(p)) {
        if (r->chance(0.5)) o->set_valid(false);
        if (r->chance(0.5)) o->set_center_x(r->uni(-5, 5));
        continue;
      }
      o->set_valid(true);
      o->set_center_x(grid ? x : x + vx * 0.1 * i);
      o->set_center_y(grid ? y : y + vy * 0.1 * i);
      o->set_center_z(r->uni(-1, 1));
      o->set_length(r->uni(0.5, 9));
      o->set_width(r->uni(0.5, 3));
      o->set_height(r->uni(0.5, 3));
      o->set_heading(r->uni(-3.14, 3.14));
      o->set_velocity_x(r->chance(0.1) ? 0 : vx);
      o->set_velocity_y(r->chance(0.1) ? 0 : vy);
    }
  }
  std::vector<int> order;
  for (int i = 0; i < tracks; ++i) order.push_back(i);
  r->shuffle(&order);
  const int np = r->range(1, std::min(tracks, 10));
  for (int i = 0; i < np; ++i) {
    auto* q = s.add_tracks_to_predict();
    q->set_track_index(order[i]);
    if (r->chance(0.8)) q->set_difficulty(static_cast<RequiredPrediction::DifficultyLevel>(r->range(0, 2)));
    if (r->chance(0.8)) {  // Most are seen at the current step.
      auto* o = s.mutable_tracks(order[i])->mutable_states(cfg.num_past_steps() - 1);
      o->set_valid(true);
    }
  }
  if (r->chance(0.1)) *s.add_tracks_to_predict() = s.tracks_to_predict(0);
  s.set_sdc_track_index(r->range(0, tracks - 1));
  s.set_current_time_index(cfg.num_past_steps() - 1);
  for (int i = r->range(0, 2); i > 0; --i) s.add_objects_of_interest(s.tracks(r->range(0, tracks - 1)).id());
  if (r->chance(0.1)) s.add_objects_of_interest(999999999);
  const int nd = r->chance(0.8) ? n : r->range(0, n);
  for (int i = 0; i < nd; ++i) {
    DynamicMapState* d = s.add_dynamic_map_states();
    for (int j = r->range(0, 6); j > 0; --j) {
      auto* l = d->add_lane_states();
      l->set_lane(r->chance(0.2) ? r->range(1, 1000) * int64_t{4294967296} + r->range(0, 1000000) : r->range(0, 1000000));
      l->set_state(static_cast<TrafficSignalLaneState::State>(r->range(0, 8)));
      if (r->chance(0.9)) {
        l->mutable_stop_point()->set_x(r->uni(-90, 90));
        l->mutable_stop_point()->set_y(r->uni(-90, 90));
        l->mutable_stop_point()->set_z(r->uni(-9, 9));
      }
    }
  }
  const int nf = r->chance(0.1) ? 0 : r->range(1, 14);
  for (int i = 0; i < nf; ++i) *s.add_map_features() = RandFeature(r, r->range(0, 5000), cfg.source_polyline_spacing());
  return s;
}

MotionExampleConversionConfig RandConfig(vh::Rng* r) {
  MotionExampleConversionConfig c;
  c.set_num_past_steps(r->range(1, 5));
  c.set_num_future_steps(r->range(0, 8));
  c.set_max_num_modeled_agents(r->pick<int>({8, 8, 3, 1}));
  c.set_max_num_agents(r->pick<int>({8, 10, 16}));
  c.set_max_roadgraph_samples(r->pick<int>({0, 1, 7, 60, 200, 400}));
  if (r->chance(0.4)) c.set_source_polyline_spacing(r->pick<double>({0.5, 0.25, 1.0, 0.3}));
  c.set_polyline_sample_spacing(r->pick<double>({0, -1, 0.5, 1.0, 0.2, 0.7, 3.0, 2.5}));
  c.set_polygon_sample_spacing(r->pick<double>({0, -1, 1.0, 0.5, 2.3, 50}));
  c.set_max_traffic_light_control_points_per_step(r->pick<int>({0, 1, 3, 16}));
  return c;
}

// ---- reference ----
struct Sample {
  double id, type, valid;
  P3 p, d;
};

void Emit(double id, double type, const std::vector<P3>& pts, std::vector<Sample>* out) {
  for (size_t i = 0; i < pts.size(); ++i) {
    P3 d;
    if (i + 1 < pts.size()) {
      d = pts[i + 1] - pts[i];
      const double l = Len(d);
      d = l > 0 ? d * (1 / l) : P3();
    }
    out->push_back({id, type, 1, pts[i], d});
  }
}

void Polyline(const MotionExampleConversionConfig& c, const MapFeature& f, int type, const std::vector<P3>& p, std::vector<Sample>* out) {
  if (p.empty()) return;
  const size_t room = std::max<int>(0, c.max_roadgraph_samples() - static_cast<int>(out->size()));
  const double step = c.polyline_sample_spacing() > 0 ? c.polyline_sample_spacing() : c.source_polyline_spacing();
  std::vector<P3> v;
  const int n = static_cast<int>(p.size());
  for (int k = 0; v.size() < room; ++k) {
    const double at = k * step;
    const int i = static_cast<int>(at / c.source_polyline_spacing());
    if (i >= n - 1) break;
    const double t = (at - i * c.source_polyline_spacing()) / c.source_polyline_spacing();
    if (i == 0 || i == n - 2) {
      v.push_back(p[i] * (1 - t) + p[i + 1] * t);
    } else {  // Catmull-Rom.
      const double t2 = t * t, t3 = t2 * t;
      v.push_back((p[i] * 2 + (p[i + 1] - p[i - 1]) * t + (p[i - 1] * 2 - p[i] * 5 + p[i + 1] * 4 - p[i + 2]) * t2 +
                   (p[i] * 3 - p[i - 1] - p[i + 1] * 3 + p[i + 2]) * t3) * 0.5);
      vh::Count("spline_points");
    }
  }
  if (v.size() < room && (v.empty() || Len(p.back() - v.back()) > 0.01)) {
    v.push_back(p.back());
    vh::Count("last_points_added");
  }
  Emit(f.id(), type, v, out);
}

void Polygon(const MotionExampleConversionConfig& c, const MapFeature& f, int type, const google::protobuf::RepeatedPtrField<MapPoint>& m,
             std::vector<Sample>* out) {
  if (m.empty()) {
    vh::Count("empty_polygons");
    return;
  }
  const size_t room = std::max<int>(0, c.max_roadgraph_samples() - static_cast<int>(out->size()));
  std::vector<P3> v;
  for (int i = 0; i < m.size(); ++i) {
    const P3 a = Pt(m[i]), b = Pt(m[(i + 1) % m.size()]);
    int n = 1;
    if (c.polygon_sample_spacing() > 0) n = std::max(1, static_cast<int>(1 + Len(b - a) / c.polygon_sample_spacing()) - 1);
    for (int j = 0; j < n; ++j) v.push_back(a + (b - a) * (static_cast<double>(j) / n));
  }
  v.push_back(Pt(m[0]));
  if (v.size() > room) v.resize(room);
  vh::Count("polygon_points", v.size());
  Emit(f.id(), type, v, out);
}

std::vector<Sample> RefMap(const MotionExampleConversionConfig& c, const Scenario& s) {
  std::vector<Sample> out;
  auto pts = [](const google::protobuf::RepeatedPtrField<MapPoint>& m) {
    std::vector<P3> v;
    for (auto& p : m) v.push_back(Pt(p));
    return v;
  };
  // The order in which types are included: lanes first, driveways last.
  for (int pass = 0; pass < 7; ++pass) {
    for (const auto& f : s.map_features()) {
      if (static_cast<int>(out.size()) >= c.max_roadgraph_samples()) break;
      if (pass == 0 && f.has_lane()) Polyline(c, f, static_cast<int>(f.lane().type()), pts(f.lane().polyline()), &out);
      if (pass == 1 && f.has_road_line()) Polyline(c, f, 5 + static_cast<int>(f.road_line().type()), pts(f.road_line().polyline()), &out);
      if (pass == 2 && f.has_stop_sign()) Emit(f.id(), 17, {Pt(f.stop_sign().position())}, &out);
      if (pass == 3 && f.has_crosswalk()) Polygon(c, f, 18, f.crosswalk().polygon(), &out);
      if (pass == 4 && f.has_speed_bump()) Polygon(c, f, 19, f.speed_bump().polygon(), &out);
      if (pass == 5 && f.has_road_edge()) Polyline(c, f, 14 + static_cast<int>(f.road_edge().type()), pts(f.road_edge().polyline()), &out);
      if (pass == 6 && f.has_driveway()) Polygon(c, f, 20, f.driveway().polygon(), &out);
    }
  }
  vh::Count(static_cast<int>(out.size()) >= c.max_roadgraph_samples() ? "maps_truncated" : "maps_padded");
  while (static_cast<int>(out.size()) < c.max_roadgraph_samples()) out.push_back({-1, -1, 0, {-1, -1, -1}, {-1, -1, -1}});
  return out;
}

// ---- reading the example ----
std::vector<double> Ints(const tensorflow::Example& e, const std::string& k) {
  std::vector<double> v;
  auto it = e.features().feature().find(k);
  if (it != e.features().feature().end())
    for (auto x : it->second.int64_list().value()) v.push_back(x);
  return v;
}
std::vector<double> Floats(const tensorflow::Example& e, const std::string& k) {
  std::vector<double> v;
  auto it = e.features().feature().find(k);
  if (it != e.features().feature().end())
    for (auto x : it->second.float_list().value()) v.push_back(x);
  return v;
}

// Values equal up to the precision of a float.
bool Same(double a, double b) { return vh::Near(a, b, 3e-6); }
// Times are kept with the precision of a float, in whole microseconds.
bool SameTime(double a, double b) { return std::fabs(a - b) <= (b < 0 ? 0 : 1 + 1.3e-7 * b); }
// from: index of the first time of an agent's row, every 13 values.
bool SameRow(const Row& a, const Row& b, size_t from = 1 << 30) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(i >= from && (i - from) % 13 == 0 ? SameTime(a[i], b[i]) : Same(a[i], b[i]))) return false;
  return true;
}
std::string Str(const Row& r) {
  std::ostringstream o;
  o.precision(9);
  for (double x : r) o << x << " ";
  return o.str();
}

const char* kInt[] = {"objects_of_interest", "is_sdc", "is_context", "tracks_to_predict", "difficulty_level"};
const char* kState[] = {"x", "y", "z", "width", "length", "height", "velocity_x", "velocity_y", "speed", "bbox_yaw", "vel_yaw"};

double Micros(double seconds) { return seconds * 1e6; }

// One agent's values: id, type, flags, then per step timestamp, valid, state.
Row RefRow(const MotionExampleConversionConfig& c, const Scenario& s, int track, bool modeled) {
  const int steps = c.num_past_steps() + c.num_future_steps();
  Row r;
  if (track < 0) {
    r.assign(7, -1);
  } else {
    const Track& t = s.tracks(track);
    bool interest = false;
    for (int id : s.objects_of_interest()) {
      for (int i = 0; i < s.tracks_size(); ++i) {
        if (s.tracks(i).id() != id) continue;
        if (i == track) interest = true;
        break;
      }
    }
    int level = 0;
    for (const auto& q : s.tracks_to_predict())
      if (q.track_index() == track) {
        level = q.difficulty();
        break;
      }
    r = {static_cast<double>(t.id()), static_cast<double>(t.object_type()), interest ? 1.0 : 0.0, track == s.sdc_track_index() ? 1.0 : 0.0,
         modeled ? 0.0 : 1.0, modeled ? 1.0 : 0.0, static_cast<double>(level)};
  }
  for (int i = 0; i < steps; ++i) {
    const ObjectState* o = nullptr;
    if (track >= 0 && i < s.tracks(track).states_size() && s.tracks(track).states(i).valid() && s.tracks(track).object_type() != Track::TYPE_UNSET)
      o = &s.tracks(track).states(i);
    if (!o) {
      r.push_back(-1);
      r.push_back(0);
      r.insert(r.end(), 11, -1);
      continue;
    }
    const double vx = o->velocity_x(), vy = o->velocity_y();
    for (double v : {Micros(s.timestamps_seconds(i)), 1.0, o->center_x(), o->center_y(), o->center_z(), static_cast<double>(o->width()),
                     static_cast<double>(o->length()), static_cast<double>(o->height()), vx, vy, std::hypot(vx, vy),
                     static_cast<double>(o->heading()), std::atan2(vy, vx)})
      r.push_back(v);
    vh::Count("states");
  }
  return r;
}

std::string Frame(const MotionExampleConversionConfig& c, int i, int* pos, int* width) {
  if (i < c.num_past_steps() - 1) return *pos = i, *width = c.num_past_steps() - 1, "past";
  if (i == c.num_past_steps() - 1) return *pos = 0, *width = 1, "current";
  return *pos = i - c.num_past_steps(), *width = c.num_future_steps(), "future";
}

void CheckStates(const MotionExampleConversionConfig& c, const Scenario& s, const tensorflow::Example& e, const std::string& d) {
  const int steps = c.num_past_steps() + c.num_future_steps(), cur = c.num_past_steps() - 1;
  // Expected rows: modeled agents by id, then context agents by rank.
  std::vector<int> modeled;
  for (const auto& q : s.tracks_to_predict()) {
    const int t = q.track_index();
    if (!s.tracks(t).states(cur).valid() || std::count(modeled.begin(), modeled.end(), t)) continue;
    if (static_cast<int>(modeled.size()) < c.max_num_modeled_agents()) modeled.push_back(t);
    else vh::Count("modeled_truncated");
  }
  // rank: a row belongs before every row with a larger rank; ties are open.
  std::vector<std::pair<std::vector<double>, Row>> want;
  for (int t : modeled) want.push_back({{0, static_cast<double>(s.tracks(t).id())}, RefRow(c, s, t, true)});
  for (int t = 0; t < s.tracks_size(); ++t) {
    if (std::count(modeled.begin(), modeled.end(), t)) continue;
    const ObjectState &o = s.tracks(t).states(cur), &sdc = s.tracks(s.sdc_track_index()).states(cur);
    int valid = 0;
    for (const auto& x : s.tracks(t).states()) valid += x.valid();
    if (o.valid()) want.push_back({{1, std::hypot(o.center_x() - sdc.center_x(), o.center_y() - sdc.center_y())}, RefRow(c, s, t, false)});
    else want.push_back({{2, -static_cast<double>(valid)}, RefRow(c, s, t, false)});
  }
  std::stable_sort(want.begin(), want.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
  if (static_cast<int>(want.size()) > c.max_num_agents()) vh::Count("agents_truncated");
  else if (static_cast<int>(want.size()) < c.max_num_agents()) vh::Count("agents_padded");
  while (static_cast<int>(want.size()) < c.max_num_agents()) want.push_back({{3, 0}, RefRow(c, s, -1, false)});

  // Rows of the example.
  const int n = c.max_num_agents();
  bool sizes = true;
  auto get = [&](const std::vector<double>& v, const std::string& k, int w) {
    if (static_cast<int>(v.size()) != n * w) {
      sizes = false;
      VH_EXPECT(false, "state_size", k << " has " << v.size() << " values, want " << n * w << " on " << d);
    }
    return v;
  };
  std::vector<Row> got(n);
  std::vector<std::vector<double>> head = {get(Floats(e, "state/id"), "id", 1), get(Floats(e, "state/type"), "type", 1)};
  for (const char* k : kInt) head.push_back(get(Ints(e, std::string("state/") + k), k, 1));
  if (sizes)
    for (int a = 0; a < n; ++a)
      for (auto& h : head) got[a].push_back(h[a]);
  std::map<std::string, std::vector<double>> cols;
  for (int i = 0; i < steps && sizes; ++i) {
    int pos, w;
    const std::string fr = "state/" + Frame(c, i, &pos, &w) + "/";
    auto col = [&](const std::string& k, bool ints) -> const std::vector<double>& {
      auto it = cols.find(fr + k);
      if (it == cols.end()) it = cols.emplace(fr + k, get(ints ? Ints(e, fr + k) : Floats(e, fr + k), fr + k, w)).first;
      return it->second;
    };
    for (int a = 0; a < n; ++a) {
      const auto& ts = col("timestamp_micros", true);
      if (!sizes) break;
      got[a].push_back(ts[a * w + pos]);
      const auto& va = col("valid", true);
      if (!sizes) break;
      got[a].push_back(va[a * w + pos]);
      for (const char* k : kState) {
        const auto& v = col(k, false);
        if (!sizes) break;
        got[a].push_back(v[a * w + pos]);
      }
    }
  }
  if (!sizes) return;
  // Walk the tie groups.
  size_t i = 0;
  int row = 0;
  while (row < n && i < want.size()) {
    size_t j = i;
    while (j < want.size() && want[j].first[0] == want[i].first[0] && std::fabs(want[j].first[1] - want[i].first[1]) <= 1e-9 * (1 + std::fabs(want[i].first[1]))) ++j;
    std::vector<Row> group;
    for (size_t k = i; k < j; ++k) group.push_back(want[k].second);
    if (group.size() > 1 && want[i].first[0] < 3) vh::Count("tied_agents");
    for (size_t k = i; k < j && row < n; ++k, ++row) {
      bool found = false;
      for (size_t m = 0; m < group.size() && !found; ++m) {
        if (SameRow(got[row], group[m], 7)) {
          group.erase(group.begin() + m);
          found = true;
        }
      }
      VH_EXPECT(found, "agent_row", "agent " << row << " is " << Str(got[row]) << " want " << Str(want[k].second) << " on " << d);
    }
    i = j;
  }
}

void CheckLights(const MotionExampleConversionConfig& c, const Scenario& s, const tensorflow::Example& e, const std::string& d) {
  const int steps = c.num_past_steps() + c.num_future_steps(), n = c.max_traffic_light_control_points_per_step();
  static const char* kF[] = {"x", "y", "z"};
  for (int i = 0; i < steps; ++i) {
    int pos, w;
    const std::string fr = "traffic_light_state/" + Frame(c, i, &pos, &w) + "/";
    const auto ts = Ints(e, fr + "timestamp_micros");
    VH_EXPECT(static_cast<int>(ts.size()) == w, "light_size", fr << "timestamp_micros " << ts.size());
    const bool have = i < s.dynamic_map_states_size();
    if (static_cast<int>(ts.size()) == w)
      VH_EXPECT(SameTime(ts[pos], have ? Micros(s.timestamps_seconds(i)) : -1), "light_time", fr << ts[pos] << " step " << i << " on " << d);
    std::vector<std::vector<double>> v;
    for (const char* k : kF) v.push_back(Floats(e, fr + k));
    v.push_back(Ints(e, fr + "state"));
    v.push_back(Ints(e, fr + "id"));
    v.push_back(Ints(e, fr + "valid"));
    bool sizes = true;
    for (auto& x : v) sizes = sizes && static_cast<int>(x.size()) == w * n;
    VH_EXPECT(sizes, "light_size", fr << " sizes on " << d);
    if (!sizes) continue;
    for (int k = 0; k < n; ++k) {
      Row want = {-1, -1, -1, -1, -1, 0}, got;
      if (have && k < s.dynamic_map_states(i).lane_states_size()) {
        const auto& l = s.dynamic_map_states(i).lane_states(k);
        want = {l.stop_point().x(), l.stop_point().y(), l.stop_point().z(), static_cast<double>(l.state()), static_cast<double>(l.lane()), 1};
        vh::Count("lights");
      }
      for (auto& x : v) got.push_back(x[pos * n + k]);
      VH_EXPECT(SameRow(want, got), "light", fr << " step " << i << " light " << k << " is " << Str(got) << " want " << Str(want) << " on " << d);
    }
  }
}

void CheckMap(const MotionExampleConversionConfig& c, const Scenario& s, const tensorflow::Example& e, const std::string& d) {
  const auto want = RefMap(c, s);
  const auto id = Ints(e, "roadgraph_samples/id"), type = Ints(e, "roadgraph_samples/type"), valid = Ints(e, "roadgraph_samples/valid");
  const auto xyz = Floats(e, "roadgraph_samples/xyz"), dir = Floats(e, "roadgraph_samples/dir");
  const size_t n = want.size();
  const bool sizes = id.size() == n && type.size() == n && valid.size() == n && xyz.size() == 3 * n && dir.size() == 3 * n;
  VH_EXPECT(sizes, "map_size", id.size() << " " << type.size() << " " << valid.size() << " " << xyz.size() << " " << dir.size() << " want " << n << " on " << d);
  if (!sizes) return;
  for (size_t i = 0; i < n; ++i) {
    VH_EXPECT(id[i] == want[i].id && type[i] == want[i].type && valid[i] == want[i].valid, "map_sample",
              "sample " << i << " id " << id[i] << " type " << type[i] << " valid " << valid[i] << " want " << want[i].id << " " << want[i].type << " " << want[i].valid << " on " << d);
    VH_EXPECT(Same(xyz[3 * i], want[i].p.x) && Same(xyz[3 * i + 1], want[i].p.y) && Same(xyz[3 * i + 2], want[i].p.z), "map_point",
              "sample " << i << " of " << id[i] << " at " << xyz[3 * i] << " " << xyz[3 * i + 1] << " " << xyz[3 * i + 2] << " want " << want[i].p.x << " " << want[i].p.y << " " << want[i].p.z << " on " << d);
    // A direction over a very short distance is not determined by rounding.
    if (i + 1 < n && want[i + 1].id == want[i].id && Len(want[i + 1].p - want[i].p) < 1e-6 && Len(want[i].d) > 0) continue;
    VH_EXPECT(vh::Near(dir[3 * i], want[i].d.x, 1e-5) && vh::Near(dir[3 * i + 1], want[i].d.y, 1e-5) && vh::Near(dir[3 * i + 2], want[i].d.z, 1e-5), "map_direction",
              "sample " << i << " of " << id[i] << " direction " << dir[3 * i] << " " << dir[3 * i + 1] << " " << dir[3 * i + 2] << " want " << want[i].d.x << " " << want[i].d.y << " " << want[i].d.z << " on " << d);
  }
}

void ConvertCase(vh::Rng* r) {
  const MotionExampleConversionConfig c = RandConfig(r);
  const Scenario s = RandScenario(r, c);
  const std::string d = "config{" + c.ShortDebugString() + "} scenario{" + s.ShortDebugString() + "}";
  vh::Crumb(d);
  vh::Sample(d);
  bool modeled = false;
  for (const auto& q : s.tracks_to_predict()) modeled = modeled || s.tracks(q.track_index()).states(c.num_past_steps() - 1).valid();
  std::map<std::string, int> counters;
  auto e = ScenarioToExample(s, c, r->chance(0.9) ? &counters : nullptr);
  if (!modeled) {
    VH_EXPECT(!e.ok(), "no_modeled_accepted", d);
    vh::Count("no_modeled");
    return;
  }
  VH_EXPECT(e.ok(), "valid_rejected", e.status().ToString().substr(0, 300) << " on " << d);
  if (!e.ok()) return;
  vh::Nontrivial(vh::Hash(d));
  vh::Count("examples");
  auto it = e->features().feature().find("scenario/id");
  VH_EXPECT(it != e->features().feature().end() && it->second.bytes_list().value_size() == 1 && it->second.bytes_list().value(0) == s.scenario_id(), "scenario_id", d);
  CheckStates(c, s, *e, d);
  CheckLights(c, s, *e, d);
  CheckMap(c, s, *e, d);
}

void InvalidCase(vh::Rng* r) {
  MotionExampleConversionConfig c = RandConfig(r);
  Scenario s = RandScenario(r, c);
  // At least one modeled agent, so that what follows is the only defect.
  auto* q = s.mutable_tracks_to_predict(0);
  s.mutable_tracks(q->track_index())->mutable_states(c.num_past_steps() - 1)->set_valid(true);
  const int kind = r->range(0, 9);
  switch (kind) {
    case 0: s.clear_timestamps_seconds(); for (auto& t : *s.mutable_tracks()) t.clear_states(); break;
    case 1: s.set_sdc_track_index(s.tracks_size() + r->range(0, 2)); break;
    case 2: s.set_sdc_track_index(-1 - r->range(0, 2)); break;
    case 3: s.mutable_tracks(r->range(0, s.tracks_size() - 1))->mutable_states()->RemoveLast(); break;
    case 4: s.mutable_tracks(r->range(0, s.tracks_size() - 1))->add_states()->set_valid(true); break;
    case 5: s.add_tracks_to_predict()->set_track_index(s.tracks_size() + r->range(0, 3)); break;
    case 6: s.add_tracks_to_predict()->set_track_index(-1 - r->range(0, 3)); break;
    case 7: {  // Ends before the current step.
      const int keep = r->range(0, c.num_past_steps() - 1);
      s.mutable_timestamps_seconds()->Truncate(keep);
      for (auto& t : *s.mutable_tracks())
        while (t.states_size() > keep) t.mutable_states()->RemoveLast();
      break;
    }
    case 8: {  // More modeled agents than rows.
      c.set_max_num_modeled_agents(8);
      c.set_max_num_agents(0);
      break;
    }
    case 9: c.set_num_past_steps(0); break;
  }
  const std::string d = "kind " + std::to_string(kind) + " config{" + c.ShortDebugString() + "} scenario{" + s.ShortDebugString() + "}";
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  auto e = ScenarioToExample(s, c, nullptr);
  VH_EXPECT(!e.ok(), "invalid_accepted_" + std::to_string(kind), d);
  vh::Count("invalid_" + std::to_string(kind));
}

}  // namespace
}  // namespace open_dataset
}  // namespace waymo

int main(int argc, char** argv) {
  using namespace waymo::open_dataset;
  return vh::Main(argc, argv, {{"convert", 1.0, ConvertCase}, {"invalid", 0.5, InvalidCase}});
}
