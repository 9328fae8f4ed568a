// Monitors of the motion prediction metrics.
#include <map>
#include <string>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "ref_geom.h"
#include "vh.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"

using namespace waymo::open_dataset;

namespace {
constexpr double kTol = 1e-5;

struct World {
  MotionMetricsConfig cfg;
  Scenario sc;
  ScenarioPredictions pred;
};

std::string Describe(const World& w) {
  return "config {" + w.cfg.ShortDebugString() + "} predictions {" + w.pred.ShortDebugString() + "} scenario {" + w.sc.ShortDebugString() + "}";
}

MotionMetricsConfig RandConfig(vh::Rng* r) {
  MotionMetricsConfig c;
  const int pps = r->range(1, 4), ratio = r->range(1, 4), psteps = r->range(2, 8);
  c.set_prediction_steps_per_second(pps);
  c.set_track_steps_per_second(pps * ratio);
  c.set_track_history_samples(r->range(0, 4));
  // Not always a multiple of the ratio.
  c.set_track_future_samples(psteps * ratio + (r->chance(0.2) ? r->range(0, ratio - 1) : 0));
  c.set_max_predictions(r->range(1, 7));
  if (r->chance(0.6)) {
    c.set_speed_lower_bound(r->uni(0, 3));
    c.set_speed_upper_bound(c.speed_lower_bound() + r->uni(0.5, 10));
    c.set_speed_scale_lower(r->uni(0.2, 1));
    c.set_speed_scale_upper(r->uni(0.5, 2));
  }
  const int n = r->range(1, 3);
  for (int i = 0; i < n; ++i) {
    auto* s = c.add_step_configurations();
    s->set_measurement_step(r->chance(0.3) ? psteps - 1 : r->range(0, psteps - 1));
    s->set_lateral_miss_threshold(r->uni(0.3, 3));
    s->set_longitudinal_miss_threshold(r->uni(0.5, 6));
  }
  return c;
}

int PredSteps(const MotionMetricsConfig& c) { return c.track_future_samples() * c.prediction_steps_per_second() / c.track_steps_per_second(); }
int TrackStep(const MotionMetricsConfig& c, int s) { return c.track_history_samples() + (s + 1) * (c.track_steps_per_second() / c.prediction_steps_per_second()); }

World RandWorld(vh::Rng* r, const MotionMetricsConfig& cfg, int id) {
  World w;
  w.cfg = cfg;
  w.sc.set_scenario_id("scenario" + std::to_string(id));
  w.pred.set_scenario_id(w.sc.scenario_id());
  const int n = r->range(1, 7), len = cfg.track_history_samples() + cfg.track_future_samples() + 1;
  const double spread = r->chance(0.5) ? 10 : 40;
  const double invalid = r->chance(0.4) ? 0 : r->uni(0, 0.5);
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) ids.push_back(i * 7 + r->range(0, 6) - 3);
  for (int i = 0; i < n; ++i) {
    Track* t = w.sc.add_tracks();
    t->set_id(ids[i]);
    t->set_object_type(static_cast<Track::ObjectType>(r->range(0, 4)));
    double x = r->uni(-spread, spread), y = r->uni(-spread, spread), h = r->uni(-3.2, 3.2);
    double v = r->chance(0.25) ? r->uni(0, 0.5) : r->uni(0, 15), turn = r->chance(0.5) ? 0 : r->uni(-1.5, 1.5) ;
    const double dt = 1.0 / cfg.track_steps_per_second(), l0 = r->uni(0.5, 6), wd0 = r->uni(0.5, 3);
    const bool resized = r->chance(0.3);  // Measured anew at each step.
    for (int s = 0; s < len; ++s) {
      ObjectState* st = t->add_states();
      const bool valid = !r->chance(invalid) || (s == cfg.track_history_samples() && r->chance(0.7));
      st->set_valid(valid);
      if (valid || r->chance(0.3)) {
        st->set_center_x(x);
        st->set_center_y(y);
        st->set_heading(r->chance(0.05) ? h + 2 * M_PI : h);
        st->set_velocity_x(v * cos(h));
        st->set_velocity_y(v * sin(h));
        st->set_length(resized ? l0 * r->uni(0.6, 1.5) : l0);
        st->set_width(resized ? wd0 * r->uni(0.6, 1.5) : wd0);
      }
      x += v * cos(h) * dt;
      y += v * sin(h) * dt;
      h += turn * dt;
      v = std::max(0.0, v + r->uni(-1, 1) * dt);
    }
  }
  // Predictions, of one object or two, cover exactly the required tracks.
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  r->shuffle(&order);
  const int np = r->range(1, n), psteps = PredSteps(cfg);
  for (int i = 0; i < np; ++i) w.sc.add_tracks_to_predict()->set_track_index(order[i]);
  const int conf_kind = r->range(0, 4);
  for (int i = 0; i < np;) {
    const int k = std::min(np - i, r->chance(0.35) ? r->range(2, 3) : 1);
    auto* mm = w.pred.add_multi_modal_predictions();
    const int modes = r->range(1, 9);
    for (int m = 0; m < modes; ++m) {
      auto* jp = mm->add_joint_predictions();
      switch (conf_kind) {
        case 0: jp->set_confidence(r->uni(0, 1)); break;
        case 1: jp->set_confidence(r->range(0, 3) * 0.25); break;
        case 2: jp->set_confidence(r->uni(-8, 0)); break;   // Log likelihoods.
        case 3: jp->set_confidence(r->uni(-3, 3)); break;
        case 4: break;
      }
      const double err = r->chance(0.4) ? r->uni(0, 0.4) : r->uni(0, 5);
      for (int q = 0; q < k; ++q) {
        const Track& t = w.sc.tracks(order[i + (m == 0 ? q : (q + m) % k)]);
        auto* tr = jp->add_trajectories();
        tr->set_object_id(t.id());
        const double a = r->uni(-3.2, 3.2);
        for (int s = 0; s < psteps; ++s) {
          const ObjectState& st = t.states(TrackStep(cfg, s));
          tr->add_center_x(st.center_x() + err * cos(a) * r->uni(0.5, 1));
          tr->add_center_y(st.center_y() + err * sin(a) * r->uni(0.5, 1));
        }
        if (r->chance(0.1)) {  // Standing still.
          for (int s = 0; s < psteps; ++s) {
            tr->set_center_x(s, tr->center_x(0));
            tr->set_center_y(s, tr->center_y(0));
          }
        }
      }
    }
    i += k;
  }
  return w;
}

// ------------------------------------------------------------ the reference
struct Acc {
  double total = 0;
  int n = 0;
  bool unsure = false;
};
struct Stats {
  Acc ade, fde, miss, overlap;
  bool map_unsure = false;
  std::map<int, std::vector<std::pair<float, bool>>> hard, soft;
  std::map<int, int> num;
};
typedef std::map<std::pair<int, int>, Stats> AllStats;  // (type, step)

const Track* Find(const Scenario& sc, int id) {
  for (const auto& t : sc.tracks())
    if (t.id() == id) return &t;
  return nullptr;
}

// 1 match, 0 miss, -1 not measurable, 2 too close to tell.
int RefMatch(const MotionMetricsConfig& c, const Scenario& sc, const JointTrajectories& jp, const MotionMetricsConfig::MeasurementStepConfig& sg) {
  bool miss = false, unsure = false;
  for (const auto& tr : jp.trajectories()) {
    const Track* t = Find(sc, tr.object_id());
    const ObjectState& st = t->states(TrackStep(c, sg.measurement_step()));
    if (!st.valid()) return -1;
    const long double dx = tr.center_x(sg.measurement_step()) - static_cast<long double>(st.center_x());
    const long double dy = tr.center_y(sg.measurement_step()) - static_cast<long double>(st.center_y());
    const long double h = st.heading(), lon = dx * cosl(h) + dy * sinl(h), lat = -dx * sinl(h) + dy * cosl(h);
    const ObjectState& now = t->states(c.track_history_samples());
    const double speed = hypot(now.velocity_x(), now.velocity_y());
    double scale;
    const double lo = c.speed_lower_bound(), hi = c.speed_upper_bound();
    if (speed <= lo) scale = c.speed_scale_lower();
    else if (speed >= hi) scale = c.speed_scale_upper();
    else scale = c.speed_scale_lower() + (c.speed_scale_upper() - c.speed_scale_lower()) * (speed - lo) / (hi - lo);
    const double a = fabsl(lat) - scale * sg.lateral_miss_threshold(), b = fabsl(lon) - scale * sg.longitudinal_miss_threshold();
    if (a > kTol || b > kTol) miss = true;
    else if (a > -kTol || b > -kTol) unsure = true;
  }
  if (miss) return 0;
  return unsure ? 2 : 1;
}

// Trajectory shape; -1 none, -2 too close to tell.
int RefShape(const MotionMetricsConfig& c, const Track& t) {
  const int cur = c.track_history_samples();
  int last = -1;
  for (int i = cur + 1; i < t.states_size(); ++i)
    if (t.states(i).valid()) last = i;
  if (last < 0 || !t.states(cur).valid()) return -1;
  const ObjectState &a = t.states(cur), &b = t.states(last);
  const double dx = b.center_x() - a.center_x(), dy = b.center_y() - a.center_y(), d = hypot(dx, dy), h = a.heading();
  const double lon = dx * cos(h) + dy * sin(h), lat = -dx * sin(h) + dy * cos(h);
  const double sp = std::max(hypot(a.velocity_x(), a.velocity_y()), hypot(b.velocity_x(), b.velocity_y()));
  const double hd = fabs(remainder(static_cast<double>(b.heading()) - a.heading(), 2 * M_PI));
  auto close = [](double x, double y) { return fabs(x - y) < 1e-4; };
  if (close(sp, 2) || close(d, 3) || close(hd, M_PI / 6) || close(fabs(lat), 2.5) || close(lat, 0) || close(lon, 0)) return -2;
  if (sp < 2 && d < 3) return TrajectoryType::STATIONARY;
  if (hd < M_PI / 6) {
    if (fabs(lat) < 2.5) return TrajectoryType::STRAIGHT;
    return lat < 0 ? TrajectoryType::STRAIGHT_RIGHT : TrajectoryType::STRAIGHT_LEFT;
  }
  if (lat < 0) return lon < 0 ? TrajectoryType::RIGHT_U_TURN : TrajectoryType::RIGHT_TURN;
  return lon < 0 ? TrajectoryType::LEFT_U_TURN : TrajectoryType::LEFT_TURN;
}

int ShapeRank(int s) {
  switch (s) {
    case TrajectoryType::STATIONARY: return 0;
    case TrajectoryType::STRAIGHT: return 1;
    case TrajectoryType::STRAIGHT_RIGHT: return 2;
    case TrajectoryType::STRAIGHT_LEFT: return 3;
    case TrajectoryType::RIGHT_TURN: return 4;
    case TrajectoryType::LEFT_TURN: return 5;
    case TrajectoryType::LEFT_U_TURN: return 6;
    default: return 7;
  }
}

int RefOverlap(const MotionMetricsConfig& c, const Scenario& sc, const MultimodalPrediction& mm, int upto) {
  const int k = std::min(c.max_predictions(), mm.joint_predictions_size());
  int best = 0, ties = 0;
  for (int i = 1; i < k; ++i)
    if (mm.joint_predictions(i).confidence() > mm.joint_predictions(best).confidence()) best = i;
  bool unsure = false;
  for (int i = 0; i < k; ++i) {
    if (i == best) continue;
    const float a = mm.joint_predictions(i).confidence(), b = mm.joint_predictions(best).confidence();
    if (b - a < 1e-5 * std::max(1.0f, std::fabs(b))) ++ties;
  }
  if (ties) return 2;
  for (const auto& tr : mm.joint_predictions(best).trajectories()) {
    const Track* me = Find(sc, tr.object_id());
    for (int s = 0; s <= upto; ++s) {
      const int n = tr.center_x_size();
      auto ang = [&](int i) { return atan2(static_cast<double>(tr.center_y(i + 1)) - tr.center_y(i), static_cast<double>(tr.center_x(i + 1)) - tr.center_x(i)); };
      double h;
      if (s == 0) h = ang(0);
      else if (s == n - 1) h = ang(n - 2);
      else {
        const double a = ang(s - 1), b = ang(s), ss = sin(a) + sin(b), cc = cos(a) + cos(b);
        if (hypot(ss, cc) < 1e-3) unsure = true;
        h = atan2(ss, cc);
      }
      const ObjectState& dim = me->states(TrackStep(c, s));
      const auto pb = ref::Corners(tr.center_x(s), tr.center_y(s), dim.length(), dim.width(), h);
      for (const auto& t : sc.tracks()) {
        if (t.id() == tr.object_id() || !t.states(c.track_history_samples()).valid()) continue;
        const ObjectState& o = t.states(TrackStep(c, s));
        if (!o.valid()) continue;
        if (dim.length() <= 0 || dim.width() <= 0 || o.length() <= 0 || o.width() <= 0) continue;
        const auto ob = ref::Corners(o.center_x(), o.center_y(), o.length(), o.width(), o.heading());
        const double area = ref::IntersectionArea(pb, ob);
        if (area > 1e-4) return 1 + (unsure ? 1 : 0);
        const auto grown = ref::Corners(o.center_x(), o.center_y(), o.length() + 1e-3, o.width() + 1e-3, o.heading());
        if (area > 0 || ref::IntersectionArea(pb, grown) > 0) unsure = true;
      }
    }
  }
  return unsure ? 2 : 0;
}

void RefStats(const World& w, AllStats* out) {
  const auto& c = w.cfg;
  for (const auto& mm : w.pred.multi_modal_predictions()) {
    if (mm.joint_predictions().empty() || mm.joint_predictions(0).trajectories().empty()) continue;
    int type = 0, rank = 0;
    // The type of highest priority: cyclist, pedestrian, vehicle, other, unset.
    auto trank = [](int t) { return t == Track::TYPE_CYCLIST ? 4 : t == Track::TYPE_PEDESTRIAN ? 3 : t == Track::TYPE_VEHICLE ? 2 : t == Track::TYPE_OTHER ? 1 : 0; };
    for (const auto& tr : mm.joint_predictions(0).trajectories()) {
      const int t = Find(w.sc, tr.object_id())->object_type();
      if (trank(t) > rank) rank = trank(t), type = t;
    }
    const int k = std::min(c.max_predictions(), mm.joint_predictions_size());
    for (const auto& sg : c.step_configurations()) {
      Stats& st = (*out)[{type, sg.measurement_step()}];
      double best_ade = 1e300, best_fde = 1e300;
      bool matched = false, missed = false, unsure = false;
      for (int i = 0; i < k; ++i) {
        const auto& jp = mm.joint_predictions(i);
        double ade = 0, fde = 0;
        bool ade_ok = true, fde_ok = true;
        for (const auto& tr : jp.trajectories()) {
          const Track* t = Find(w.sc, tr.object_id());
          double sum = 0, last = 0;
          int cnt = 0;
          bool last_ok = false;
          for (int s = 0; s <= sg.measurement_step(); ++s) {
            const ObjectState& os = t->states(TrackStep(c, s));
            last_ok = os.valid();
            if (!last_ok) continue;
            last = hypot(tr.center_x(s) - os.center_x(), tr.center_y(s) - os.center_y());
            sum += last;
            ++cnt;
          }
          if (cnt == 0) ade_ok = false;
          else ade += sum / cnt;
          if (!last_ok) fde_ok = false;
          fde += last;
        }
        if (ade_ok) best_ade = std::min(best_ade, ade / jp.trajectories_size());
        if (fde_ok) best_fde = std::min(best_fde, fde / jp.trajectories_size());
        const int m = RefMatch(c, w.sc, jp, sg);
        if (m == 1) matched = true;
        if (m == 0) missed = true;
        if (m == 2) unsure = true;
      }
      if (best_ade < 1e299) st.ade.total += best_ade, ++st.ade.n, vh::Count("ades");
      if (best_fde < 1e299) st.fde.total += best_fde, ++st.fde.n, vh::Count("fdes");
      if (best_ade < 1e299 && best_fde > 1e299) vh::Count("ade_without_fde");
      if (matched) ++st.miss.n, vh::Count("hits");
      else if (unsure) st.miss.unsure = true, ++st.miss.n;
      else if (missed) ++st.miss.n, st.miss.total += 1, vh::Count("misses");
      else vh::Count("not_measurable");

      const int ov = RefOverlap(c, w.sc, mm, sg.measurement_step());
      ++st.overlap.n;
      if (ov == 2) st.overlap.unsure = true;
      else st.overlap.total += ov, vh::Count(ov ? "overlaps" : "no_overlaps");

      // Samples of the precision/recall curves.
      int shape = -1;
      for (const auto& tr : mm.joint_predictions(0).trajectories()) {
        const int s = RefShape(c, *Find(w.sc, tr.object_id()));
        if (s == -2) st.map_unsure = true;
        if (s >= 0 && (shape < 0 || ShapeRank(s) > ShapeRank(shape))) shape = s;
      }
      if (shape < 0) continue;
      if (shape == TrajectoryType::RIGHT_U_TURN) shape = TrajectoryType::RIGHT_TURN;
      vh::Count("shape_" + std::to_string(shape));
      std::vector<int> idx;
      for (int i = 0; i < k; ++i) idx.push_back(i);
      std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return mm.joint_predictions(a).confidence() > mm.joint_predictions(b).confidence(); });
      bool found = false, measured = false;
      for (int i : idx) {
        const int m = RefMatch(c, w.sc, mm.joint_predictions(i), sg);
        if (m == 2) st.map_unsure = true;
        if (m < 0) continue;
        measured = true;
        const float conf = mm.joint_predictions(i).confidence();
        if (m == 1 && found) {
          st.hard[shape].push_back({conf, false});
          vh::Count("duplicate_hits");
        } else {
          st.hard[shape].push_back({conf, m == 1});
          st.soft[shape].push_back({conf, m == 1});
        }
        if (m == 1) found = true;
      }
      if (measured) ++st.num[shape];
    }
  }
}

// Area under the interpolated precision/recall curve of one bucket.
double RefAp(std::vector<std::pair<float, bool>> s, int num) {
  std::sort(s.begin(), s.end(), [](const std::pair<float, bool>& a, const std::pair<float, bool>& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; });
  double area = 0;
  std::vector<double> prec;
  std::vector<bool> tp;
  int n = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    n += s[i].second;
    prec.push_back(n / (i + 1.0));
    tp.push_back(s[i].second);
  }
  double env = 0;
  for (int i = static_cast<int>(s.size()) - 1; i >= 0; --i) {
    env = std::max(env, prec[i]);
    if (tp[i]) area += env / num;
  }
  return area;
}
double RefMap(const std::map<int, std::vector<std::pair<float, bool>>>& b, const std::map<int, int>& num) {
  double t = 0;
  int n = 0;
  for (const auto& kv : b)
    if (!kv.second.empty()) t += RefAp(kv.second, num.at(kv.first)), ++n;
  return n ? t / n : 0;
}

void CheckAcc(const Accumulator& got, const Acc& want, const char* key, const std::string& d) {
  VH_EXPECT(got.num_measurements == want.n, key, d << " measurements " << got.num_measurements << " want " << want.n);
  if (want.unsure) return;
  VH_EXPECT(vh::Near(got.total, want.total, 1e-5), key, d << " total " << got.total << " want " << want.total);
}
std::vector<std::pair<float, bool>> SortedSamples(std::vector<std::pair<float, bool>> v) {
  std::sort(v.begin(), v.end());
  return v;
}
void CheckBuckets(const MeanAveragePrecisionStats& got, const std::map<int, std::vector<std::pair<float, bool>>>& want, const std::map<int, int>& num, const char* key,
                  const std::string& d) {
  for (int b = 0; b < TrajectoryType::NUM_TYPES; ++b) {
    std::vector<std::pair<float, bool>> g, w;
    int gn = 0;
    if (b < static_cast<int>(got.pr_buckets.size())) {
      for (const auto& s : got.pr_buckets[b].samples) g.push_back({s.confidence, s.true_positive});
      gn = got.pr_buckets[b].num_trajectories;
    }
    if (want.count(b)) w = want.at(b);
    VH_EXPECT(gn == (num.count(b) ? num.at(b) : 0), key, d << " bucket " << b << " trajectories " << gn);
    VH_EXPECT(SortedSamples(g) == SortedSamples(w), key, d << " bucket " << b << " samples " << g.size() << " want " << w.size());
  }
}

void CheckStats(const BucketedMetricsStats& got, const AllStats& want, bool disp, bool map, const std::string& d) {
  size_t n = 0;
  for (const auto& kv : got.stats) n += kv.second.size();
  VH_EXPECT(n == want.size(), "motion_types", d << " (type, step) pairs " << n << " want " << want.size());
  for (const auto& kv : want) {
    const auto t = got.stats.find(static_cast<Track::ObjectType>(kv.first.first));
    if (t == got.stats.end() || !t->second.count(kv.first.second)) {
      VH_EXPECT(false, "motion_types", d << " no stats for type " << kv.first.first << " step " << kv.first.second);
      continue;
    }
    const MetricsStats& g = t->second.at(kv.first.second);
    const Stats& s = kv.second;
    const std::string dd = "type " + std::to_string(kv.first.first) + " step " + std::to_string(kv.first.second) + " of " + d;
    if (disp) {
      CheckAcc(g.min_average_displacement, s.ade, "min_ade", dd);
      CheckAcc(g.min_final_displacement, s.fde, "min_fde", dd);
      CheckAcc(g.miss_rate, s.miss, "miss_rate", dd);
      CheckAcc(g.overlap_rate, s.overlap, "overlap_rate", dd);
    }
    if (map && !s.map_unsure) {
      CheckBuckets(g.mean_average_precision, s.hard, s.num, "map_samples", dd);
      CheckBuckets(g.soft_mean_average_precision, s.soft, s.num, "soft_map_samples", dd);
    }
  }
}

void Add(Acc* a, const Acc& b) {
  a->total += b.total;
  a->n += b.n;
  a->unsure |= b.unsure;
}
void AddAll(AllStats* a, const AllStats& b) {
  for (const auto& kv : b) {
    Stats& s = (*a)[kv.first];
    Add(&s.ade, kv.second.ade);
    Add(&s.fde, kv.second.fde);
    Add(&s.miss, kv.second.miss);
    Add(&s.overlap, kv.second.overlap);
    s.map_unsure |= kv.second.map_unsure;
    for (const auto& x : kv.second.hard) s.hard[x.first].insert(s.hard[x.first].end(), x.second.begin(), x.second.end());
    for (const auto& x : kv.second.soft) s.soft[x.first].insert(s.soft[x.first].end(), x.second.begin(), x.second.end());
    for (const auto& x : kv.second.num) s.num[x.first] += x.second;
  }
}
double Mean(const Acc& a) { return a.n ? a.total / a.n : 0; }

void CheckBundle(const MotionMetricsBundle& b, const Stats& s, bool disp, bool map, const std::string& d) {
  if (disp) {
    VH_EXPECT(vh::Near(b.min_ade(), Mean(s.ade), 1e-5), "bundle_min_ade", d << " " << b.min_ade() << " want " << Mean(s.ade));
    VH_EXPECT(vh::Near(b.min_fde(), Mean(s.fde), 1e-5), "bundle_min_fde", d << " " << b.min_fde() << " want " << Mean(s.fde));
    if (!s.miss.unsure) VH_EXPECT(vh::Near(b.miss_rate(), Mean(s.miss), 1e-5), "bundle_miss_rate", d << " " << b.miss_rate() << " want " << Mean(s.miss));
    if (!s.overlap.unsure) VH_EXPECT(vh::Near(b.overlap_rate(), Mean(s.overlap), 1e-5), "bundle_overlap_rate", d << " " << b.overlap_rate() << " want " << Mean(s.overlap));
    VH_EXPECT(b.miss_rate() >= 0 && b.miss_rate() <= 1 && b.overlap_rate() >= 0 && b.overlap_rate() <= 1, "bundle_range", d);
  }
  if (map && !s.map_unsure) {
    const double m = RefMap(s.hard, s.num), ms = RefMap(s.soft, s.num);
    VH_EXPECT(vh::Near(b.mean_average_precision(), m, 1e-4), "bundle_map", d << " " << b.mean_average_precision() << " want " << m);
    VH_EXPECT(vh::Near(b.soft_mean_average_precision(), ms, 1e-4), "bundle_soft_map", d << " " << b.soft_mean_average_precision() << " want " << ms);
    VH_EXPECT(b.soft_mean_average_precision() >= b.mean_average_precision() - 1e-5, "soft_map_below_map", d);
    if (m > 0 && m < 1) vh::Count("maps_inside");
    if (ms > m + 1e-6) vh::Count("soft_above_hard");
  }
}

void RunCase(vh::Rng* r, bool disp, bool map) {
  const MotionMetricsConfig cfg = RandConfig(r);
  const int scenes = r->range(1, 4);
  std::vector<World> ws;
  for (int i = 0; i < scenes; ++i) ws.push_back(RandWorld(r, cfg, i));
  std::string all;
  AllStats total;
  BucketedMetricsStats got_total;
  absl::flat_hash_map<std::string, ScenarioPredictions> preds;
  absl::flat_hash_map<std::string, Scenario> scs;
  for (const World& w : ws) {
    const std::string d = Describe(w);
    all += d;
    vh::Crumb(d);
    AllStats want;
    RefStats(w, &want);
    BucketedMetricsStats got;
    int custom = 0;
    const Status st = ComputeMetricsStats(w.cfg, w.pred, w.sc, &got, [&](const MotionMetricsConfig&, const absl::flat_hash_map<int, const Track*>& tracks, const Scenario& s, int step,
                                                                      const MultimodalPrediction& p, MetricsStats& m) -> Status {
      ++custom;
      for (const auto& tr : p.joint_predictions(0).trajectories()) VH_EXPECT(tracks.count(tr.object_id()), "custom_metric", d);
      m.custom_metrics["a"].Add(step);
      m.custom_metrics["b"].Add(p.joint_predictions_size());
      return OkStatus();
    });
    VH_EXPECT(st.ok(), "valid_rejected", d << " " << st.message());
    if (!st.ok()) return;
    CheckStats(got, want, disp, map, d);
    VH_EXPECT(custom == cfg.step_configurations_size() * w.pred.multi_modal_predictions_size(), "custom_metric", d << " called " << custom);
    AddAll(&total, want);
    if (r->chance(0.5)) {
      got_total.Accumulate(got);
    } else {  // Another grouping.
      BucketedMetricsStats x;
      x.Accumulate(got);
      x.Accumulate(got_total);
      got_total = x;
    }
    preds[w.sc.scenario_id()] = w.pred;
    scs[w.sc.scenario_id()] = w.sc;
  }
  vh::Sample(all);
  vh::Nontrivial(vh::Hash(all));
  CheckStats(got_total, total, disp, map, all);
  MotionMetrics m;
  vh::Crumb(all);
  const Status st = ComputeMotionMetrics(cfg, preds, scs, &m);
  VH_EXPECT(st.ok(), "valid_rejected", all << " " << st.message());
  VH_EXPECT(m.metrics_bundles_size() == static_cast<int>(total.size()), "bundles", all << " bundles " << m.metrics_bundles_size());
  MotionMetrics m2 = ComputeMotionMetrics(&got_total);
  std::set<std::pair<int, int>> seen;
  for (MotionMetrics* x : {&m, &m2}) {
    for (const auto& b : x->metrics_bundles()) {
      const std::pair<int, int> k(b.object_filter(), b.measurement_step());
      if (!total.count(k)) {
        VH_EXPECT(false, "bundles", all << " unexpected bundle " << b.ShortDebugString());
        continue;
      }
      if (x == &m) VH_EXPECT(seen.insert(k).second, "bundles", all << " two bundles for " << b.ShortDebugString());
      CheckBundle(b, total[k], disp, map, all);
    }
  }
  for (const auto& b : m2.metrics_bundles()) {
    VH_EXPECT(b.custom_metrics().count("a") && vh::Near(b.custom_metrics().at("a"), b.measurement_step(), 1e-5), "custom_metric", all << b.ShortDebugString());
  }
  // Across the types.
  std::map<int, Stats> by_step;
  for (const auto& kv : total) {
    AllStats one, two;
    one[{0, kv.first.second}] = by_step[kv.first.second];
    two[{0, kv.first.second}] = kv.second;
    AddAll(&one, two);
    by_step[kv.first.second] = one.begin()->second;
  }
  const auto across = got_total.AccumulateAcrossTypes();
  BucketedMetricsStats ba;
  AllStats aw;
  for (const auto& kv : across) ba.stats[Track::TYPE_UNSET][kv.first] = kv.second;
  for (const auto& kv : by_step) aw[{0, kv.first}] = kv.second;
  CheckStats(ba, aw, disp, map, "across types " + all);
}

void MetricsCase(vh::Rng* r) { RunCase(r, true, false); }
void MapCase(vh::Rng* r) { RunCase(r, false, true); }

// The public curve and average precision functions on their own.
void CurveCase(vh::Rng* r) {
  PredictionStats ps;
  std::vector<std::pair<float, bool>> v;
  const int n = r->range(0, 60);
  int tps = 0;
  std::ostringstream o;
  for (int i = 0; i < n; ++i) {
    const float c = r->chance(0.5) ? r->range(-2, 4) * 0.25f : static_cast<float>(r->uni(-1, 1));
    const bool tp = r->chance(0.4);
    tps += tp;
    ps.samples.push_back(PredictionSample(c, tp));
    v.push_back({c, tp});
    o << c << (tp ? "+ " : "- ");
  }
  const int num = std::max(1, tps + r->range(0, 5));
  ps.num_trajectories = num;
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  std::vector<PredictionSample> copy = ps.samples;
  const auto curve = ComputePrCurve(&copy, num);
  std::sort(v.begin(), v.end(), [](const std::pair<float, bool>& a, const std::pair<float, bool>& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; });
  VH_EXPECT(static_cast<int>(curve.size()) == n, "pr_curve", o.str());
  int t = 0;
  for (int i = 0; i < n && i < static_cast<int>(curve.size()); ++i) {
    t += v[i].second;
    VH_EXPECT(vh::Near(curve[i].precision, t / (i + 1.0), 1e-5) && vh::Near(curve[i].recall, t / static_cast<double>(num), 1e-5), "pr_curve", o.str() << " at " << i);
  }
  const double ap = ComputeMeanAveragePrecision(&ps);
  VH_EXPECT(vh::Near(ap, RefAp(v, num), 1e-4), "ap", o.str() << " / " << num << " got " << ap << " want " << RefAp(v, num));
  VH_EXPECT(ap >= 0 && ap <= 1 + 1e-5, "ap", o.str() << " " << ap);
  MeanAveragePrecisionStats ms;
  ms.pr_buckets.resize(3);
  ms.pr_buckets[1] = ps;
  VH_EXPECT(vh::Near(ComputeMapMetric(&ms), n ? ap : 0, 1e-6), "map_of_buckets", o.str());
  if (ap > 0 && ap < 1) vh::Count("aps_inside");
}

// -------------------------------------------------------------- hostile inputs
void InvalidCase(vh::Rng* r) {
  const MotionMetricsConfig cfg = RandConfig(r);
  World w = RandWorld(r, cfg, 0);
  int expect = 0;  // 0 must be rejected, 1 must be accepted and equal the metrics of the original, 2 must not crash.
  const World orig = w;
  const int kind = r->range(0, 36);
  auto* mm = w.pred.mutable_multi_modal_predictions(r->range(0, w.pred.multi_modal_predictions_size() - 1));
  auto* jp = mm->mutable_joint_predictions(r->range(0, mm->joint_predictions_size() - 1));
  auto* tr = jp->mutable_trajectories(r->range(0, jp->trajectories_size() - 1));
  auto* step = w.cfg.mutable_step_configurations(r->range(0, w.cfg.step_configurations_size() - 1));
  switch (kind) {
    case 0: w.pred.set_scenario_id("other"); break;
    case 1: w.pred.mutable_multi_modal_predictions()->RemoveLast(); break;
    case 2: {
      auto* t = w.sc.add_tracks();
      *t = w.sc.tracks(0);
      t->set_id(1000);
      *w.pred.add_multi_modal_predictions() = w.pred.multi_modal_predictions(0);
      auto* last = w.pred.mutable_multi_modal_predictions(w.pred.multi_modal_predictions_size() - 1);
      for (auto& j : *last->mutable_joint_predictions()) {
        while (j.trajectories_size() > 1) j.mutable_trajectories()->RemoveLast();
        j.mutable_trajectories(0)->set_object_id(1000);
      }
      break;
    }
    case 3: tr->add_center_x(1); break;
    case 4: tr->add_center_y(1); break;
    case 5: tr->mutable_center_x()->RemoveLast(); break;
    case 6: tr->mutable_center_y()->RemoveLast(); break;
    case 7: w.sc.mutable_tracks(w.sc.tracks_to_predict(0).track_index())->mutable_states()->RemoveLast(); break;
    case 8: w.sc.mutable_tracks(w.sc.tracks_to_predict(0).track_index())->clear_states(); break;
    case 9: {  // A context track without enough states.
      auto* t = w.sc.add_tracks();
      t->set_id(1001);
      const int n = r->range(0, cfg.track_history_samples() + cfg.track_future_samples());
      for (int i = 0; i < n; ++i) *t->add_states() = w.sc.tracks(0).states(i), t->mutable_states(i)->set_valid(true);
      break;
    }
    case 10: w.sc.mutable_tracks_to_predict(0)->set_track_index(w.sc.tracks_size() + r->range(0, 3)); break;
    case 11: w.sc.mutable_tracks_to_predict(0)->set_track_index(-r->range(1, 5)); break;
    case 12: tr->set_object_id(4711); break;
    case 13: *mm->add_joint_predictions() = mm->joint_predictions(0); mm->mutable_joint_predictions(mm->joint_predictions_size() - 1)->clear_trajectories(); break;
    case 14: {  // The first joint prediction lacks the objects.
      JointTrajectories empty;
      MultimodalPrediction x;
      *x.add_joint_predictions() = empty;
      for (const auto& j : mm->joint_predictions()) *x.add_joint_predictions() = j;
      *mm = x;
      break;
    }
    case 15: step->set_measurement_step(PredSteps(cfg) + r->range(0, 2)); break;
    case 16: step->set_measurement_step(-r->range(1, 3)); break;
    case 17: w.cfg.set_prediction_steps_per_second(0); break;
    case 18: w.cfg.set_prediction_steps_per_second(-cfg.prediction_steps_per_second()); break;
    case 19: w.cfg.set_prediction_steps_per_second(cfg.track_steps_per_second() * 2); break;
    case 20: w.cfg.set_track_steps_per_second(cfg.prediction_steps_per_second() * 3 + (cfg.prediction_steps_per_second() > 1 ? 1 : 0)); expect = cfg.prediction_steps_per_second() > 1 ? 0 : 2; break;
    case 21: w.cfg.set_max_predictions(-r->range(0, 2)); break;
    case 22: w.cfg.set_track_history_samples(-r->range(1, 3)); break;
    case 23: w.cfg.set_track_future_samples(-cfg.track_future_samples()); break;
    case 24: w.cfg.set_speed_upper_bound(w.cfg.speed_lower_bound() - r->range(0, 1)); expect = 2; break;
    case 25: {  // A multi-modal prediction without content adds nothing and takes nothing away.
      ScenarioPredictions p = w.pred;
      w.pred.clear_multi_modal_predictions();
      w.pred.add_multi_modal_predictions();
      for (const auto& x : p.multi_modal_predictions()) *w.pred.add_multi_modal_predictions() = x;
      expect = 1;
      break;
    }
    case 26: tr->set_center_x(0, r->chance(0.5) ? NAN : INFINITY); expect = 2; break;
    case 27: tr->set_center_y(0, r->chance(0.5) ? 1e38 : -3e38); expect = 2; break;
    case 28:
      for (auto& j : *mm->mutable_joint_predictions()) j.set_confidence(r->chance(0.3) ? NAN : r->chance(0.5) ? INFINITY : -3e38);
      expect = 2;
      break;
    case 29: w.pred.clear_multi_modal_predictions(); break;
    case 30: w.pred.clear_multi_modal_predictions(); w.sc.clear_tracks_to_predict(); expect = 2; break;
    case 31:  // Objects without extent.
      for (auto& t : *w.sc.mutable_tracks())
        for (auto& s : *t.mutable_states()) s.set_length(0), s.set_width(r->chance(0.5) ? 0 : 1);
      expect = 2;
      break;
    case 32: {  // One object is predicted throughout under the id of none, or of an object that is not asked for.
      const int from = tr->object_id();
      int to = 4711;
      if (r->chance(0.5)) {
        std::set<int> asked;
        for (const auto& t : w.sc.tracks_to_predict()) asked.insert(w.sc.tracks(t.track_index()).id());
        for (const auto& t : w.sc.tracks())
          if (!asked.count(t.id())) to = t.id();
      }
      for (auto& m : *w.pred.mutable_multi_modal_predictions())
        for (auto& j : *m.mutable_joint_predictions())
          for (auto& t : *j.mutable_trajectories())
            if (t.object_id() == from) t.set_object_id(to);
      break;
    }
    case 33: {  // A track with more states than the configuration has steps.
      auto* t = r->chance(0.5) ? w.sc.mutable_tracks(r->range(0, w.sc.tracks_size() - 1))
                               : w.sc.mutable_tracks(w.sc.tracks_to_predict(0).track_index());
      const auto s = t->states(t->states_size() - 1);
      for (int i = r->range(1, 3); i > 0; --i) *t->add_states() = s;
      break;
    }
    case 34: {  // One joint prediction holds an object more than the others.
      auto* t = jp->add_trajectories();
      *t = *jp->mutable_trajectories(0);
      t->set_object_id(4712);
      break;
    }
    case 35: {  // The object to predict is one that has no prediction.
      auto* t = w.sc.add_tracks();
      *t = w.sc.tracks(w.sc.tracks_to_predict(0).track_index());
      t->set_id(1002);
      w.sc.mutable_tracks_to_predict(0)->set_track_index(w.sc.tracks_size() - 1);
      break;
    }
    case 36: {  // One of several joint predictions is for another of the objects asked for.
      if (mm->joint_predictions_size() < 2) {
        expect = 2;
        break;
      }
      std::set<int> other;
      for (const auto& t : w.sc.tracks_to_predict()) other.insert(w.sc.tracks(t.track_index()).id());
      for (const auto& t : jp->trajectories()) other.erase(t.object_id());
      if (other.empty()) {
        expect = 2;
        break;
      }
      tr->set_object_id(*std::next(other.begin(), r->range(0, static_cast<int>(other.size()) - 1)));
      vh::Count("other_object");
      break;
    }
  }
  const std::string d = "mutation " + std::to_string(kind) + " " + Describe(w);
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  vh::Sample(d);
  BucketedMetricsStats got;
  const Status st = ComputeMetricsStats(w.cfg, w.pred, w.sc, &got);
  if (expect == 0) {
    VH_EXPECT(!st.ok(), "invalid_accepted_" + std::to_string(kind), d);
    vh::Count("rejected");
  }
  if (expect == 1) {
    VH_EXPECT(st.ok(), "valid_rejected", d << " " << st.message());
    AllStats want;
    RefStats(orig, &want);
    CheckStats(got, want, true, true, d);
    vh::Count("accepted");
  }
  if (st.ok()) (void)ComputeMotionMetrics(&got);
  absl::flat_hash_map<std::string, ScenarioPredictions> preds;
  absl::flat_hash_map<std::string, Scenario> scs;
  preds["x"] = w.pred;
  scs["y"] = w.sc;
  MotionMetrics m;
  VH_EXPECT(!ComputeMotionMetrics(w.cfg, preds, scs, &m).ok(), "unknown_scenario", d);
}

// --------------------------------------------------- challenge submissions
void ChallengeCase(vh::Rng* r) {
  ChallengeScenarioPredictions p;
  p.set_scenario_id("s" + std::to_string(r->range(0, 9)));
  const bool joint = r->chance(0.5), none = r->chance(0.05);
  bool bad_len = false, bad_count = false;
  auto fill = [&](Trajectory* t) {
    const int n = r->range(0, 20);
    for (int i = 0; i < n; ++i) {
      t->add_center_x(r->uni(-1e3, 1e3));
      t->add_center_y(r->uni(-1e3, 1e3));
    }
    if (r->chance(0.01)) t->add_center_x(1), bad_len = true;
    else if (r->chance(0.01)) t->add_center_y(1), bad_len = true;
  };
  if (none) {
  } else if (joint) {
    auto* jp = p.mutable_joint_prediction();
    const int n = r->range(0, 6);
    for (int i = 0; i < n; ++i) {
      auto* j = jp->add_joint_trajectories();
      if (r->chance(0.9)) j->set_confidence(r->uni(-1, 1));
      const int k = r->chance(0.03) ? r->range(0, 3) : 2;
      if (k != 2) bad_count = true;
      for (int q = 0; q < k; ++q) {
        auto* o = j->add_trajectories();
        o->set_object_id(r->range(-5, 1000));
        fill(o->mutable_trajectory());
      }
    }
  } else {
    auto* sp = p.mutable_single_predictions();
    const int n = r->range(0, 5);
    for (int i = 0; i < n; ++i) {
      auto* x = sp->add_predictions();
      x->set_object_id(r->range(-5, 1000));
      const int k = r->range(0, 6);
      for (int q = 0; q < k; ++q) {
        auto* t = x->add_trajectories();
        if (r->chance(0.9)) t->set_confidence(r->uni(-1, 1));
        fill(t->mutable_trajectory());
      }
    }
  }
  const std::string d = p.ShortDebugString();
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  vh::Sample(d);
  ScenarioPredictions got;
  const Status st = ConvertChallengePredictions(p, &got);
  VH_EXPECT(st.ok() == !(none || bad_len || bad_count), "convert_status", d << " " << st.message());
  vh::Count(st.ok() ? "converted" : "refused");
  if (st.ok()) {
    ScenarioPredictions want;
    want.set_scenario_id(p.scenario_id());
    if (joint) {
      auto* mm = want.add_multi_modal_predictions();
      for (const auto& j : p.joint_prediction().joint_trajectories()) {
        auto* jp = mm->add_joint_predictions();
        jp->set_confidence(j.confidence());
        for (const auto& o : j.trajectories()) {
          auto* t = jp->add_trajectories();
          t->set_object_id(o.object_id());
          *t->mutable_center_x() = o.trajectory().center_x();
          *t->mutable_center_y() = o.trajectory().center_y();
        }
      }
    } else {
      for (const auto& x : p.single_predictions().predictions()) {
        auto* mm = want.add_multi_modal_predictions();
        for (const auto& s : x.trajectories()) {
          auto* jp = mm->add_joint_predictions();
          jp->set_confidence(s.confidence());
          auto* t = jp->add_trajectories();
          t->set_object_id(x.object_id());
          *t->mutable_center_x() = s.trajectory().center_x();
          *t->mutable_center_y() = s.trajectory().center_y();
        }
      }
    }
    VH_EXPECT(got.SerializeAsString() == want.SerializeAsString(), "convert_content", d << " got " << got.ShortDebugString());
    VH_EXPECT(ValidateChallengePredictions(got, joint ? MotionChallengeSubmission::INTERACTION_PREDICTION : MotionChallengeSubmission::MOTION_PREDICTION).ok(),
              "validate_own", d);
  }
  // Challenge validation.
  ScenarioPredictions v;
  const int mms = r->range(0, 3);
  bool all1 = true, all2 = true;
  for (int i = 0; i < mms; ++i) {
    auto* mm = v.add_multi_modal_predictions();
    const int n = r->range(0, 3), base = r->range(1, 2);
    for (int j = 0; j < n; ++j) {
      auto* jp = mm->add_joint_predictions();
      const int k = r->chance(0.1) ? r->range(0, 3) : base;
      for (int q = 0; q < k; ++q) jp->add_trajectories()->set_object_id(q);
      all1 &= k == 1;
      all2 &= k == 2;
    }
  }
  const std::string dv = v.ShortDebugString();
  vh::Crumb(dv);
  VH_EXPECT(ValidateChallengePredictions(v, MotionChallengeSubmission::MOTION_PREDICTION).ok() == all1, "validate_motion", dv);
  VH_EXPECT(ValidateChallengePredictions(v, MotionChallengeSubmission::INTERACTION_PREDICTION).ok() == (all2 && mms <= 1), "validate_interaction", dv);
  VH_EXPECT(!ValidateChallengePredictions(v, MotionChallengeSubmission::UNKNOWN).ok(), "validate_unknown", dv);
}
}  // namespace

int main(int argc, char** argv) {
  const char* w = getenv("VERIF_WHICH");
  const std::string which = w ? w : "metrics";
  if (which == "metrics") return vh::Main(argc, argv, {{"displacements", 1.0, MetricsCase}});
  if (which == "map") return vh::Main(argc, argv, {{"map", 0.5, MapCase}, {"curve", 2.0, CurveCase}});
  return vh::Main(argc, argv, {{"invalid", 1.0, InvalidCase}, {"challenge", 1.0, ChallengeCase}});
}
