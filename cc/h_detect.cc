// Monitors for detection metrics: measurements and precision / recall (groups
// "meas*", C07), average precision, cutoffs and merging (groups "ap*", C08),
// breakdowns (groups "bd*", C09) and breakdown names (groups "name*", C10).
#include <set>

#include "scene.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"

using namespace waymo::open_dataset;
using scene::SFrame;
using vh::Rng;

struct Cell {
  int tp = 0, fp = 0, fn = 0;
  double ha = 0, la = 0;
  // One entry per frame.
  struct D {
    std::multiset<std::string> tps, fps, fns;
    std::map<std::string, std::vector<double>> vals;  // pair -> iou, ha, la
  };
  std::vector<D> details;
};
struct RefMeasurements {
  Breakdown::GeneratorId gen;
  int shard, level;
  std::vector<Cell> cells;  // Per cutoff.
};

static double HeadingAccuracy(const Object& p, const Object& g) {
  const long double pi = 3.141592653589793238462643383279502884L;
  const long double d = std::fabs(std::remainder(static_cast<long double>(p.object().box().heading()) - g.object().box().heading(), 2 * pi));
  return static_cast<double>(1 - d / pi);
}

static bool g_ambiguous;

static std::vector<RefMeasurements> RefFrame(const Config& c, const SFrame& f, ComputeIoUFunc iou) {
  std::vector<RefMeasurements> out;
  std::unique_ptr<Matcher> m = Matcher::Create(c);
  if (iou) m->SetCustomIoUComputeFunc(iou);
  m->SetPredictions(f.pds);
  m->SetGroundTruths(f.gts);
  for (int gi = 0; gi < c.breakdown_generator_ids_size(); ++gi) {
    const Breakdown::GeneratorId gen = c.breakdown_generator_ids(gi);
    const bool gt_only = ref::GtOnly(gen);
    for (int shard = 0; shard < ref::NumShards(gen); ++shard) {
      auto in = [&](const Object& o) {
        const std::vector<int> v = ref::MatchShards(gen, o);
        return std::find(v.begin(), v.end(), shard) != v.end();
      };
      std::vector<int> gs, all;
      for (size_t i = 0; i < f.gts.size(); ++i)
        if (in(f.gts[i])) gs.push_back(i);
      for (size_t i = 0; i < f.pds.size(); ++i)
        if (in(f.pds[i])) all.push_back(i);
      const std::vector<int> levels = ref::Levels(c, gi);
      const size_t base = out.size();
      for (int l : levels) {
        out.emplace_back();
        out.back().gen = gen;
        out.back().shard = shard;
        out.back().level = l;
      }
      for (float cut : c.score_cutoffs()) {
        std::vector<int> ps;
        for (int i : all)
          if (f.pds[i].score() >= cut) ps.push_back(i);
        m->SetPredictionSubset(ps);
        m->SetGroundTruthSubset(gs);
        std::vector<int> pm, gm;
        m->Match(&pm, &gm);
        for (size_t li = 0; li < levels.size(); ++li) {
          Cell cell;
          cell.details.emplace_back();
          Cell::D& d = cell.details[0];
          for (size_t i = 0; i < ps.size(); ++i) {
            const Object& p = f.pds[ps[i]];
            if (pm[i] >= 0) {
              const Object& g = f.gts[gs[pm[i]]];
              if (gt_only && ref::Shard(gen, g) != shard) continue;
              const double ha = HeadingAccuracy(p, g);
              if (std::fabs(ha - c.min_heading_accuracy()) < 1e-5) g_ambiguous = true;
              if (ha <= c.min_heading_accuracy()) {
                vh::Count("dropped_by_heading");
                continue;
              }
              const double la = c.let_metric_config().enabled() ? m->LongitudinalAffinity(ps[i], gs[pm[i]]) : 1.0;
              ++cell.tp;
              cell.ha += ha;
              cell.la += la;
              const std::string key = p.object().id() + ">" + g.object().id();
              d.tps.insert(key);
              d.vals[key] = {m->IoU(ps[i], gs[pm[i]]), ha, la};
              continue;
            }
            if (p.overlap_with_nlz()) {
              vh::Count("fp_excused_nlz");
              continue;
            }
            if (gt_only) {
              int best = -1;
              double biou = 0.01;
              for (size_t j = 0; j < gs.size(); ++j) {
                const double v = m->IoU(ps[i], gs[j]);
                if (std::fabs(v - biou) < 1e-9 && (best >= 0 || v > 0)) g_ambiguous = true;
                if (v >= biou) {
                  biou = v;
                  best = j;
                }
              }
              if (best >= 0 && ref::Shard(gen, f.gts[gs[best]]) != shard) {
                vh::Count("fp_excused_other_shard");
                continue;
              }
            }
            ++cell.fp;
            d.fps.insert(p.object().id());
          }
          for (size_t j = 0; j < gs.size(); ++j) {
            const Object& g = f.gts[gs[j]];
            if (gm[j] >= 0) continue;
            if (static_cast<int>(g.object().detection_difficulty_level()) > levels[li]) continue;
            if (gt_only && ref::Shard(gen, g) != shard) continue;
            ++cell.fn;
            d.fns.insert(g.object().id());
          }
          out[base + li].cells.push_back(cell);
        }
      }
    }
  }
  return out;
}

static void Accumulate(const std::vector<RefMeasurements>& add, std::vector<RefMeasurements>* to) {
  if (to->empty()) {
    *to = add;
    return;
  }
  for (size_t i = 0; i < add.size(); ++i)
    for (size_t j = 0; j < add[i].cells.size(); ++j) {
      Cell& a = (*to)[i].cells[j];
      const Cell& b = add[i].cells[j];
      a.tp += b.tp;
      a.fp += b.fp;
      a.fn += b.fn;
      a.ha += b.ha;
      a.la += b.la;
      a.details.insert(a.details.end(), b.details.begin(), b.details.end());
    }
}

static void CompareMeasurements(const Config& c, const std::vector<DetectionMeasurements>& got,
                                const std::vector<RefMeasurements>& want, const std::string& desc, const char* where) {
  VH_EXPECT(got.size() == want.size(), "measurement_count", where << " got " << got.size() << " want " << want.size() << " " << desc);
  if (got.size() != want.size()) return;
  for (size_t i = 0; i < got.size(); ++i) {
    const auto& b = got[i].breakdown();
    VH_EXPECT(b.generator_id() == want[i].gen && b.shard() == want[i].shard && static_cast<int>(b.difficulty_level()) == want[i].level,
              "measurement_order", where << " index " << i << " has " << b.ShortDebugString() << " " << desc);
    VH_EXPECT(got[i].measurements_size() == c.score_cutoffs_size(), "cutoff_count", where << " " << i << " " << desc);
    if (got[i].measurements_size() != c.score_cutoffs_size()) return;
    for (int j = 0; j < got[i].measurements_size(); ++j) {
      const DetectionMeasurement& g = got[i].measurements(j);
      const Cell& w = want[i].cells[j];
      std::ostringstream ctx;
      ctx << where << " " << b.ShortDebugString() << " cutoff " << c.score_cutoffs(j) << " got tp/fp/fn " << g.num_tps() << "/" << g.num_fps()
          << "/" << g.num_fns() << " want " << w.tp << "/" << w.fp << "/" << w.fn << " ";
      VH_EXPECT(g.score_cutoff() == c.score_cutoffs(j), "cutoff_value", ctx.str() << desc);
      VH_EXPECT(g.num_tps() == w.tp, "tp", ctx.str() << desc);
      VH_EXPECT(g.num_fps() == w.fp, "fp", ctx.str() << desc);
      VH_EXPECT(g.num_fns() == w.fn, "fn", ctx.str() << desc);
      VH_EXPECT(vh::Near(g.sum_ha(), w.ha, 2e-5), "sum_ha", ctx.str() << g.sum_ha() << " vs " << w.ha << " " << desc);
      VH_EXPECT(vh::Near(g.sum_longitudinal_affinity(), w.la, 2e-5), "sum_la", ctx.str() << g.sum_longitudinal_affinity() << " vs " << w.la << " " << desc);
      vh::Count("tps", w.tp);
      vh::Count("fps", w.fp);
      vh::Count("fns", w.fn);
      if (!c.include_details_in_measurements()) {
        VH_EXPECT(g.details_size() == 0, "details_unasked", ctx.str());
        continue;
      }
      VH_EXPECT(g.details_size() == static_cast<int>(w.details.size()), "details_frames",
                ctx.str() << g.details_size() << " vs " << w.details.size() << " " << desc);
      if (g.details_size() != static_cast<int>(w.details.size())) continue;
      for (int k = 0; k < g.details_size(); ++k) {
        const auto& d = g.details(k);
        const Cell::D& wd = w.details[k];
        bool ok = d.tp_pr_ids_size() == d.tp_gt_ids_size() && d.tp_pr_ids_size() == d.tp_ious_size() &&
                  d.tp_pr_ids_size() == d.tp_heading_accuracies_size() && d.tp_pr_ids_size() == d.tp_longitudinal_affinities_size();
        std::multiset<std::string> tps;
        for (int t = 0; ok && t < d.tp_pr_ids_size(); ++t) {
          const std::string key = d.tp_pr_ids(t) + ">" + d.tp_gt_ids(t);
          tps.insert(key);
          auto it = wd.vals.find(key);
          if (it == wd.vals.end() || !vh::Near(d.tp_ious(t), it->second[0], 1e-6) || !vh::Near(d.tp_heading_accuracies(t), it->second[1], 1e-5) ||
              !vh::Near(d.tp_longitudinal_affinities(t), it->second[2], 1e-6))
            ok = false;
        }
        ok = ok && tps == wd.tps && std::multiset<std::string>(d.fp_ids().begin(), d.fp_ids().end()) == wd.fps &&
             std::multiset<std::string>(d.fn_ids().begin(), d.fn_ids().end()) == wd.fns;
        VH_EXPECT(ok, "details", ctx.str() << " frame " << k << " " << d.ShortDebugString() << " " << desc);
        vh::Count("details_checked");
      }
    }
  }
}

// Interpolated average precision; returns NaN where rounding decides.
static double RefAp(const std::vector<float>& p, const std::vector<float>& rc, double delta) {
  if (p.empty()) return 0;
  std::map<double, double> best;
  best[0.0] = 1.0;
  for (size_t i = 0; i < p.size(); ++i) {
    auto it = best.find(rc[i]);
    if (it == best.end())
      best[rc[i]] = p[i];
    else
      it->second = std::max<double>(it->second, p[i]);
  }
  std::vector<double> r, q;  // Descending recall, interpolated precision.
  double mx = 0;
  for (auto it = best.rbegin(); it != best.rend(); ++it) {
    mx = std::max(mx, it->second);
    r.push_back(it->first);
    q.push_back(mx);
  }
  if (r.size() == 1) return 0;
  double area = 0;
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    const bool last = i + 2 == r.size();
    double hi = r[i];
    // Conservative steps with the precision at the higher recall.
    while (hi - r[i + 1] > delta + 1e-6) {
      if (hi - r[i + 1] - delta - 1e-6 < 1e-6) return NAN;
      hi -= delta;
      area += delta * q[i];
    }
    if (delta + 1e-6 - (hi - r[i + 1]) < 0.7e-6 && hi != r[i + 1]) return NAN;
    // The point at recall 0 is fake: it takes the precision next to it.
    const double lo_p = last ? q[i] : q[i + 1];
    area += 0.5 * (hi - r[i + 1]) * (q[i] + lo_p);
  }
  return area;
}

static void CheckMetrics(const Config& c, const DetectionMetrics& m, const DetectionMeasurements& meas, const std::string& desc) {
  VH_EXPECT(m.breakdown().SerializeAsString() == meas.breakdown().SerializeAsString(), "metrics_breakdown", desc);
  VH_EXPECT(m.measurements().SerializeAsString() == meas.SerializeAsString(), "metrics_measurements", desc);
  const int n = meas.measurements_size();
  const bool sizes = m.precisions_size() == n && m.recalls_size() == n && m.precisions_ha_weighted_size() == n && m.recalls_ha_weighted_size() == n &&
                     m.precisions_longitudinal_affinity_weighted_size() == n && m.recalls_longitudinal_affinity_weighted_size() == n &&
                     m.score_cutoffs_size() == n;
  VH_EXPECT(sizes, "metrics_sizes", desc);
  if (!sizes) return;
  for (int i = 0; i < n; ++i) {
    const auto& x = meas.measurements(i);
    VH_EXPECT(m.score_cutoffs(i) == x.score_cutoff(), "metrics_cutoff", desc);
    const double pd = x.num_tps() + x.num_fps(), gt = x.num_tps() + x.num_fns();
    const double rec = gt > 0 ? x.num_tps() / gt : 0;
    const float got_p[3] = {m.precisions(i), m.precisions_ha_weighted(i), m.precisions_longitudinal_affinity_weighted(i)};
    const float got_r[3] = {m.recalls(i), m.recalls_ha_weighted(i), m.recalls_longitudinal_affinity_weighted(i)};
    const double num[3] = {static_cast<double>(x.num_tps()), x.sum_ha(), x.sum_longitudinal_affinity()};
    for (int k = 0; k < 3; ++k) {
      double p = pd > 0 ? num[k] / pd : 0;
      const bool amb = std::fabs(p - c.min_precision()) < 1e-6;
      if (p < c.min_precision()) p = 0;
      if (rec == 0) p = 1;
      VH_EXPECT(vh::Near(got_r[k], rec, 1e-6), "recall", "kind " << k << " got " << got_r[k] << " want " << rec << " " << x.ShortDebugString());
      if (!amb || rec == 0)
        VH_EXPECT(vh::Near(got_p[k], p, 1e-6), "precision", "kind " << k << " got " << got_p[k] << " want " << p << " " << x.ShortDebugString());
      VH_EXPECT(got_p[k] >= 0 && got_p[k] <= 1.00001 && got_r[k] >= 0 && got_r[k] <= 1, "pr_range", x.ShortDebugString());
    }
    if (rec > 0 && rec < 1) vh::Count("partial_recall");
  }
}

static void CheckAp(const Config& c, const DetectionMetrics& m, const std::string& desc) {
  auto ap = [&](const google::protobuf::RepeatedField<float>& p, const google::protobuf::RepeatedField<float>& r, double got, const char* name) {
    const double want = RefAp(std::vector<float>(p.begin(), p.end()), std::vector<float>(r.begin(), r.end()), c.desired_recall_delta());
    if (std::isnan(want)) {
      vh::Count("ap_ambiguous");
      return;
    }
    VH_EXPECT(vh::Near(got, want, 3e-5), "average_precision", name << " got " << got << " want " << want << " " << m.ShortDebugString());
    VH_EXPECT(got >= -1e-6 && got <= 1.00002, "ap_range", name << " " << got);
    if (want > 0 && want < 1) {
      vh::Count("aps_inside");
      vh::Nontrivial(vh::Hash(m.ShortDebugString()));
    }
  };
  ap(m.precisions(), m.recalls(), m.mean_average_precision(), "map");
  ap(m.precisions_ha_weighted(), m.recalls_ha_weighted(), m.mean_average_precision_ha_weighted(), "maph");
  ap(m.precisions_longitudinal_affinity_weighted(), m.recalls_longitudinal_affinity_weighted(),
     m.mean_average_precision_longitudinal_affinity_weighted(), "mapl");
  const bool heading_ok = m.mean_average_precision_ha_weighted() <= m.mean_average_precision() + 1e-4;
  VH_EXPECT(heading_ok || c.min_precision() > 0, "maph_le_map", m.ShortDebugString());
  (void)desc;
}

static float CustomIou(const Label::Box& a, const Label::Box& b) {
  // Any function of the two boxes will do.
  const double d = std::hypot(a.center_x() - b.center_x(), a.center_y() - b.center_y());
  return static_cast<float>(std::exp(-d * 0.37));
}

static void SetCutoffs(Rng* r, const std::vector<SFrame>& fs, Config* c) {
  const int n = r->range(1, 6);
  std::vector<float> v;
  for (int i = 0; i < n; ++i) v.push_back(r->chance(0.2) ? r->pick<float>({0.0f, 1.0f}) : static_cast<float>(r->u()));
  for (auto& f : fs)
    if (!f.pds.empty() && r->chance(0.4)) v.push_back(f.pds[0].score());
  if (r->chance(0.9)) std::sort(v.begin(), v.end());
  for (float x : v) c->add_score_cutoffs(x);
}

static bool ScenesMeasured(Rng* r, int max_frames, int max_objects, Config* c, std::vector<SFrame>* fs, ComputeIoUFunc* iou, std::string* desc) {
  const bool images = r->chance(0.25);
  *c = scene::RandConfig(r, images, true);
  *fs = scene::RandFrames(r, c->box_type(), max_frames, max_objects, images);
  *iou = nullptr;
  if (r->chance(0.15)) *iou = CustomIou;
  SetCutoffs(r, *fs, c);
  *desc = scene::Describe(*c, *fs);
  vh::Crumb(*desc);
  return true;
}

static void Measure(Rng* r, int max_objects) {
  Config c;
  std::vector<SFrame> fs;
  ComputeIoUFunc iou;
  std::string desc;
  ScenesMeasured(r, r->chance(0.1) ? 6 : 3, max_objects, &c, &fs, &iou, &desc);
  g_ambiguous = false;
  std::vector<RefMeasurements> total;
  std::vector<std::vector<DetectionMeasurements>> per_frame;
  std::vector<std::vector<Object>> pds, gts;
  for (const SFrame& f : fs) {
    const std::vector<RefMeasurements> want = RefFrame(c, f, iou);
    if (g_ambiguous) {
      vh::Count("ambiguous");
      return;
    }
    const SFrame copy = f;
    per_frame.push_back(ComputeDetectionMeasurements(c, f.pds, f.gts, iou));
    CompareMeasurements(c, per_frame.back(), want, desc, "frame");
    Accumulate(want, &total);
    pds.push_back(f.pds);
    gts.push_back(f.gts);
  }
  const std::vector<DetectionMeasurements> merged = MergeDetectionMeasurements(c, per_frame);
  CompareMeasurements(c, merged, total, desc, "merged");
  if (per_frame.size() > 1) {  // Part by part.
    const int k = r->range(1, static_cast<int>(per_frame.size()) - 1);
    const std::vector<std::vector<DetectionMeasurements>> head(per_frame.begin(), per_frame.begin() + k), tail(per_frame.begin() + k, per_frame.end());
    CompareMeasurements(c, MergeDetectionMeasurements(c, {MergeDetectionMeasurements(c, head), MergeDetectionMeasurements(c, tail)}), total, desc, "merged_parts");
    vh::Count("merged_parts");
  }
  for (int way = 0; way < 2; ++way) {
    const std::vector<DetectionMetrics> metrics =
        way == 0 ? ComputeDetectionMetrics(c, pds, gts, iou) : ComputeDetectionMetrics(c, per_frame);
    VH_EXPECT(metrics.size() == total.size(), "metrics_count", desc);
    std::vector<DetectionMeasurements> ms;
    for (auto& m : metrics) ms.push_back(m.measurements());
    CompareMeasurements(c, ms, total, desc, way == 0 ? "metrics" : "metrics_from_measurements");
    for (size_t i = 0; i < metrics.size(); ++i) CheckMetrics(c, metrics[i], ms[i], desc);
  }
  bool some = false;
  for (auto& m : total)
    for (auto& x : m.cells)
      if (x.tp > 0) some = true;
  if (some) vh::Nontrivial(vh::Hash(desc));
  vh::Sample(desc);
}

static void Ap(Rng* r) {
  Config c;
  std::vector<SFrame> fs;
  ComputeIoUFunc iou;
  std::string desc;
  ScenesMeasured(r, 4, 6, &c, &fs, &iou, &desc);
  std::vector<std::vector<Object>> pds, gts;
  for (auto& f : fs) {
    pds.push_back(f.pds);
    gts.push_back(f.gts);
  }
  for (auto& m : ComputeDetectionMetrics(c, pds, gts, iou)) {
    CheckAp(c, m, desc);
    CheckMetrics(c, m, m.measurements(), desc);
  }
  if (r->chance(0.3)) {
    // Without cutoffs, those of the scores are used, for every frame the same.
    Config open = c;
    open.clear_score_cutoffs();
    open.set_num_desired_score_cutoffs(r->range(1, 12));
    std::vector<float> scores;
    for (auto& f : fs)
      for (auto& p : f.pds) scores.push_back(p.score());
    std::sort(scores.begin(), scores.end());
    Config fixed = c;
    fixed.clear_score_cutoffs();
    for (float x : internal::DecideScoreCutoffs(scores, open.num_desired_score_cutoffs())) fixed.add_score_cutoffs(x);
    const auto a = ComputeDetectionMetrics(open, pds, gts, iou), b = ComputeDetectionMetrics(fixed, pds, gts, iou);
    VH_EXPECT(a.size() == b.size(), "estimated_cutoffs_metrics", desc);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
      VH_EXPECT(a[i].SerializeAsString() == b[i].SerializeAsString(), "estimated_cutoffs_metrics", a[i].ShortDebugString() << " want " << b[i].ShortDebugString() << " " << desc);
    vh::Count("cutoffs_estimated");
  }
  // Any grouping of the frames gives the same measurements.
  std::vector<std::vector<DetectionMeasurements>> per;
  for (auto& f : fs) per.push_back(ComputeDetectionMeasurements(c, f.pds, f.gts, iou));
  const auto whole = MergeDetectionMeasurements(c, per);
  for (auto& m : ComputeDetectionMetrics(c, per)) {
    CheckAp(c, m, desc);
    CheckMetrics(c, m, m.measurements(), desc);
  }
  std::vector<std::vector<DetectionMeasurements>> groups;
  for (size_t i = 0; i < per.size();) {
    const size_t k = r->range(1, static_cast<int>(per.size() - i));
    groups.push_back(MergeDetectionMeasurements(c, std::vector<std::vector<DetectionMeasurements>>(per.begin() + i, per.begin() + i + k)));
    i += k;
  }
  const auto regrouped = MergeDetectionMeasurements(c, groups);
  VH_EXPECT(regrouped.size() == whole.size(), "merge_size", desc);
  for (size_t i = 0; i < whole.size() && i < regrouped.size(); ++i) {
    const auto &a = whole[i], &b = regrouped[i];
    VH_EXPECT(a.breakdown().SerializeAsString() == b.breakdown().SerializeAsString() && a.measurements_size() == b.measurements_size(), "merge_breakdown", desc);
    for (int j = 0; j < a.measurements_size() && j < b.measurements_size(); ++j) {
      const auto &x = a.measurements(j), &y = b.measurements(j);
      VH_EXPECT(x.num_tps() == y.num_tps() && x.num_fps() == y.num_fps() && x.num_fns() == y.num_fns() && vh::Near(x.sum_ha(), y.sum_ha(), 1e-5) &&
                    vh::Near(x.sum_longitudinal_affinity(), y.sum_longitudinal_affinity(), 1e-5) && x.score_cutoff() == y.score_cutoff(),
                "merge_sums", desc);
      VH_EXPECT(x.details_size() == y.details_size() && x.details_size() == (c.include_details_in_measurements() ? static_cast<int>(fs.size()) : 0),
                "merge_details", "whole " << x.details_size() << " regrouped " << y.details_size() << " frames " << fs.size() << " " << desc);
    }
  }
  vh::Count("merge_groupings");
}

// Direct calls with arbitrary points.
static void ApPoints(Rng* r) {
  const int n = r->range(0, 40);
  const int grid = r->pick<int>({4, 7, 20, 100, 1000});
  std::vector<float> p, rc;
  for (int i = 0; i < n; ++i) {
    rc.push_back(r->chance(0.1) ? 0.0f : r->range(0, grid) / static_cast<float>(grid));
    p.push_back(r->chance(0.1) ? 0.0f : static_cast<float>(r->u()));
  }
  if (r->chance(0.5)) {
    std::sort(rc.begin(), rc.end());
    std::sort(p.rbegin(), p.rend());
  }
  const float delta = r->pick<float>({0.05f, 0.01f, 0.1f, 0.25f, 0.3f, 1.0f});
  std::ostringstream o;
  o << "delta " << delta << " points ";
  for (int i = 0; i < n; ++i) o << rc[i] << ":" << p[i] << " ";
  vh::Crumb(o.str());
  const double want = RefAp(p, rc, delta);
  const float got = internal::ComputeMeanAveragePrecision(p, rc, delta);
  if (std::isnan(want)) {
    vh::Count("ap_ambiguous");
    return;
  }
  VH_EXPECT(vh::Near(got, want, 3e-5), "average_precision_points", "got " << got << " want " << want << " " << o.str());
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  r->shuffle(&perm);
  std::vector<float> p2, r2;
  for (int i : perm) {
    p2.push_back(p[i]);
    r2.push_back(rc[i]);
  }
  VH_EXPECT(vh::Near(internal::ComputeMeanAveragePrecision(p2, r2, delta), got, 1e-6), "ap_order_dependent", o.str());
  if (want > 0) vh::Nontrivial(vh::Hash(o.str()));
  vh::Count("ap_points");
}

static void Cutoffs(Rng* r) {
  std::vector<float> s(r->range(0, r->chance(0.5) ? 12 : 200));
  const bool distinct = r->chance(0.6);
  for (float& x : s) x = distinct ? static_cast<float>(r->u()) : r->range(0, 10) / 10.0f;
  std::sort(s.begin(), s.end());
  const int want_n = r->range(1, r->chance(0.5) ? 8 : 110);
  const int n = s.size();
  std::ostringstream o;
  o << "n " << n << " desired " << want_n << " scores ";
  for (int i = 0; i < n && i < 60; ++i) o << s[i] << " ";
  vh::Crumb(o.str());
  std::vector<float> c;
  Config cfg = Config();
  if (r->chance(0.5)) {
    c = internal::DecideScoreCutoffs(s, want_n);
  } else {
    // The same through the public entry, scores spread over frames.
    std::vector<std::vector<Object>> pds(r->range(1, 4)), gts;
    gts.resize(pds.size());
    for (float x : s) {
      Object ob;
      ob.set_score(x);
      pds[r->range(0, static_cast<int>(pds.size()) - 1)].push_back(ob);
    }
    cfg.set_num_desired_score_cutoffs(want_n);
    cfg.add_iou_thresholds(0.25f);
    const Config e = EstimateScoreCutoffs(cfg, pds, gts);
    c.assign(e.score_cutoffs().begin(), e.score_cutoffs().end());
    Config rest = e;
    rest.clear_score_cutoffs();
    VH_EXPECT(rest.SerializeAsString() == cfg.SerializeAsString(), "cutoff_config_changed", e.ShortDebugString());
    vh::Count("cutoffs_public");
  }
  VH_EXPECT(static_cast<int>(c.size()) == want_n, "cutoffs_number", "got " << c.size() << " " << o.str());
  if (static_cast<int>(c.size()) != want_n) return;
  VH_EXPECT(std::is_sorted(c.begin(), c.end()), "cutoffs_sorted", o.str());
  if (want_n == 1) {
    VH_EXPECT(c[0] == 0, "cutoffs_single", o.str());
  } else if (want_n >= n) {
    for (int i = 0; i < want_n; ++i)
      VH_EXPECT(vh::Near(c[i], i / (want_n - 1.0), 2e-5), "cutoffs_uniform", i << " is " << c[i] << " " << o.str());
  } else {
    VH_EXPECT(c[0] == s[0] && c.back() == 1.0f, "cutoffs_ends", o.str());
    // Interior cutoffs are scores, and leave equally many scores between them.
    const int nb = want_n - 1;
    int last = 0;
    for (int i = 1; i + 1 < want_n; ++i) {
      if (!distinct) {
        VH_EXPECT(std::binary_search(s.begin(), s.end(), c[i]), "cutoffs_buckets", "cutoff " << i << " = " << c[i] << " " << o.str());
        continue;
      }
      int at = -1;
      for (int k = last + n / nb; k <= last + (n + nb - 1) / nb && k < n; ++k)
        if (s[k] == c[i]) {
          at = k;
          break;
        }
      VH_EXPECT(at >= 0, "cutoffs_buckets", "cutoff " << i << " = " << c[i] << " " << o.str());
      if (at < 0) return;
      last = at;
    }
    if (distinct && nb > 1) {
      VH_EXPECT(n - last >= n / nb && n - last <= (n + nb - 1) / nb, "cutoffs_last_bucket", "left " << n - last << " " << o.str());
      vh::Count("cutoffs_buckets");
    }
  }
  vh::Nontrivial(vh::Hash(o.str()));
}

// An object whose size, place and speed are chosen apart from each other, often on a boundary.
static Object OddObject(Rng* r) {
  Object o;
  o.set_score(static_cast<float>(r->u()));
  o.mutable_object()->set_type(static_cast<Label::Type>(r->range(0, Label::Type_MAX)));
  auto* b = o.mutable_object()->mutable_box();
  auto dim = [r] { return r->pick<double>({0.1, 1, 6.999, 7, 7.001, 12}); };
  b->set_length(dim());
  b->set_width(dim());
  b->set_height(dim());
  b->set_heading(r->uni(-4, 4));
  // Right on 30 and 50 m, just beside, or anywhere.
  static const double kAt[][3] = {{18, 24, 0}, {30, 0, 0}, {10, 20, 20}, {0, 0, 30}, {30, 40, 0}, {0, 50, 0}, {0, 0, 50}, {24, 32, 30}, {0, 0, 0}};
  const double* at = kAt[r->range(0, 8)];
  const double k = r->pick<double>({1, 1, 0.999, 1.001, 1.7});
  std::vector<double> p(at, at + 3);
  r->shuffle(&p);
  b->set_center_x(k * p[0] * (r->chance(0.5) ? 1 : -1));
  b->set_center_y(k * p[1] * (r->chance(0.5) ? 1 : -1));
  b->set_center_z(k * p[2] * (r->chance(0.5) ? 1 : -1));
  if (r->chance(0.3)) {
    const double a = r->pick<double>({0, 20, 25, 25.4, 45, 70, 70.4, 90, 115, 115.4, 180}) * (r->chance(0.5) ? 1 : -1) * 0.017453292519943295;
    b->set_center_x(20 * std::cos(a));
    b->set_center_y(20 * std::sin(a));
  }
  auto* m = o.mutable_object()->mutable_metadata();
  static const double kV[][2] = {{0, 0}, {0.1, 0}, {0, 0.19}, {0.15, 0.15}, {1, 0}, {0.6, 0.8}, {0.999, 0}, {3, 0}, {0, 2.999}, {1.8, 2.4}, {6, 8}, {0, 10}, {9.999, 0}, {30, 1}};
  const double* v = kV[r->range(0, 13)];
  const bool turn = r->chance(0.5);
  if (r->chance(0.95)) m->set_speed_x(v[turn] * (r->chance(0.5) ? 1 : -1));
  if (r->chance(0.95)) m->set_speed_y(v[!turn] * (r->chance(0.5) ? 1 : -1));
  if (r->chance(0.3)) o.set_camera_name(static_cast<CameraName::Name>(r->range(0, 5)));
  if (r->chance(0.3)) o.mutable_object()->set_most_visible_camera_name(r->pick<std::string>({"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", "UNKNOWN", "", "front"}));
  return o;
}

static void BreakdownCase(Rng* r) {
  const bool images = r->chance(0.3);
  auto fs = scene::RandFrames(r, Label::Box::TYPE_3D, 1, 8, images, true);
  for (int i = r->range(0, 12); i > 0; --i) {
    const Object o = OddObject(r);
    if (ref::NearBoundary(o)) continue;
    (r->chance(0.5) ? fs[0].pds : fs[0].gts).push_back(o);
    vh::Count("odd_objects");
  }
  for (auto gen : ref::Generators()) {
    auto g = BreakdownGenerator::Create(gen);
    for (int s = 0; s < ref::NumShards(gen); ++s)
      VH_EXPECT(g->ShardName(s) == ref::ShardName(gen, s), "shard_name", "generator " << gen << " shard " << s << " " << g->ShardName(s));
    VH_EXPECT(g->Id() == gen, "generator_id", gen);
    VH_EXPECT(g->NumShards() == ref::NumShards(gen), "num_shards", gen << " " << g->NumShards());
    VH_EXPECT(g->IsGroundTruthOnlyBreakdown() == ref::GtOnly(gen), "gt_only", gen);
    VH_EXPECT(internal::IsGroundTruthOnlyBreakdown([&] {
                Breakdown b;
                b.set_generator_id(gen);
                return b;
              }()) == ref::GtOnly(gen), "gt_only", gen);
    for (int k = 0; k < 2; ++k)
      for (const Object& o : k ? fs[0].pds : fs[0].gts) {
        vh::Crumb("generator " + std::to_string(gen) + " object " + o.ShortDebugString());
        const int s = g->Shard(o);
        const int want = ref::Shard(gen, o);
        VH_EXPECT(s == want, "shard", "generator " << gen << " got " << s << " want " << want << " " << o.ShortDebugString());
        std::vector<int> v = g->ShardsForMatching(o);
        // -1 is "no shard" where matching uses the plain shard.
        if (!ref::GtOnly(gen)) v.erase(std::remove(v.begin(), v.end(), -1), v.end());
        std::sort(v.begin(), v.end());
        std::vector<int> w = ref::MatchShards(gen, o);
        std::sort(w.begin(), w.end());
        VH_EXPECT(v == w, "matching_shards", "generator " << gen << " " << o.ShortDebugString());
        Breakdown b;
        b.set_generator_id(gen);
        for (int sh : {want, static_cast<int>(r->next() % ref::NumShards(gen))}) {
          b.set_shard(sh);
          VH_EXPECT(internal::IsInBreakdown(o, b) == (want == sh), "in_breakdown", b.ShortDebugString() << o.ShortDebugString());
        }
        vh::Count(s >= 0 ? "objects_in_shard" : "objects_in_none");
        vh::Nontrivial(vh::Hash(o.ShortDebugString()) + gen);
      }
  }
  // Every subset the metrics work on.
  Config c = scene::RandConfig(r, images, true);
  SetCutoffs(r, fs, &c);
  for (int k = 0; k < 4; ++k) {
    const bool gt = k & 1, det = k & 2;
    const auto& objs = gt ? fs[0].gts : fs[0].pds;
    const auto subs = internal::BuildSubsets(c, objs, gt, det);
    size_t idx = 0;
    for (int gi = 0; gi < c.breakdown_generator_ids_size(); ++gi) {
      const auto gen = c.breakdown_generator_ids(gi);
      for (int s = 0; s < ref::NumShards(gen); ++s, ++idx) {
        if (idx >= subs.size()) break;
        VH_EXPECT(subs[idx].breakdown_generator_id_index == gi && subs[idx].breakdown_shard == s, "subset_order", idx);
        const int cuts = gt ? 1 : c.score_cutoffs_size();
        VH_EXPECT(static_cast<int>(subs[idx].indices.size()) == cuts, "subset_cutoffs", idx);
        for (int j = 0; j < cuts && j < static_cast<int>(subs[idx].indices.size()); ++j) {
          std::vector<int> want;
          for (size_t i = 0; i < objs.size(); ++i) {
            if (!gt && objs[i].score() < c.score_cutoffs(j)) continue;
            if (det && ref::GtOnly(gen)) {
              const auto v = ref::MatchShards(gen, objs[i]);
              if (std::find(v.begin(), v.end(), s) != v.end()) want.push_back(i);
            } else if (ref::Shard(gen, objs[i]) == s) {
              want.push_back(i);
            }
          }
          std::vector<int> got = subs[idx].indices[j];
          std::sort(got.begin(), got.end());
          VH_EXPECT(got == want, "subset", "generator " << gen << " shard " << s << " gt " << gt << " detection " << det);
          vh::Count("subset_members", want.size());
        }
      }
    }
    VH_EXPECT(idx == subs.size(), "subset_count", idx << " vs " << subs.size());
  }
}

static void NameCase(Rng* r) {
  Config c = scene::RandConfig(r, false, true);
  c.add_score_cutoffs(0.5f);
  vh::Crumb(c.ShortDebugString());
  const std::vector<std::string> names = GetBreakdownNamesFromConfig(c);
  std::vector<std::string> want;
  for (int gi = 0; gi < c.breakdown_generator_ids_size(); ++gi)
    for (int s = 0; s < ref::NumShards(c.breakdown_generator_ids(gi)); ++s)
      for (int l : ref::Levels(c, gi)) want.push_back(ref::ShardName(c.breakdown_generator_ids(gi), s) + "_" + ref::LevelName(l));
  VH_EXPECT(names == want, "names", c.ShortDebugString());
  VH_EXPECT(std::set<std::string>(names.begin(), names.end()).size() == names.size(), "names_unique", c.ShortDebugString());
  // The i-th name labels the i-th measurement.
  const auto meas = ComputeDetectionMeasurements(c, {}, {});
  VH_EXPECT(meas.size() == names.size(), "names_measurements", c.ShortDebugString());
  for (size_t i = 0; i < meas.size() && i < names.size(); ++i) {
    const auto& b = meas[i].breakdown();
    VH_EXPECT(names[i] == ref::ShardName(b.generator_id(), b.shard()) + "_" + ref::LevelName(b.difficulty_level()), "name_of_measurement",
              names[i] << " " << b.ShortDebugString());
  }
  MotionMetricsConfig mc;
  for (int i = r->range(0, 5); i > 0; --i) mc.add_step_configurations()->set_measurement_step(r->range(0, 90));
  std::vector<std::string> mwant;
  for (const char* t : {"TYPE_VEHICLE", "TYPE_PEDESTRIAN", "TYPE_CYCLIST"})
    for (auto& s : mc.step_configurations()) mwant.push_back(std::string(t) + "_" + std::to_string(s.measurement_step()));
  VH_EXPECT(GetBreakdownNamesFromMotionConfig(mc) == mwant, "motion_names", mc.ShortDebugString());
  vh::Nontrivial(vh::Hash(c.ShortDebugString()));
  vh::Sample(c.ShortDebugString());
  vh::Count("names", names.size());
}

int main(int argc, char** argv) {
  const std::string which = getenv("VERIF_WHICH") ? getenv("VERIF_WHICH") : "";
  std::vector<vh::Group> groups;
  if (which == "meas") {
    groups.push_back({"meas_small", 1.0, [](Rng* r) { Measure(r, 4); }});
    groups.push_back({"meas_large", 0.4, [](Rng* r) { Measure(r, 12); }});
  } else if (which == "ap") {
    groups.push_back({"ap_scene", 0.3, Ap});
    groups.push_back({"ap_points", 10, ApPoints});
    groups.push_back({"ap_cutoffs", 10, Cutoffs});
  } else if (which == "breakdown") {
    groups.push_back({"bd", 1.0, BreakdownCase});
  } else {
    groups.push_back({"name", 1.0, NameCase});
  }
  return vh::Main(argc, argv, groups);
}
