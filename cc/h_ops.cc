// Monitors for the TensorFlow operations (C19, C20): the registered kernels on
// tensors against the library on objects made from the same rows.
#include <sys/wait.h>
#include <atomic>
#include <thread>

#include "camera_gen.h"
#include "ops_run.h"
#include "scene.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"

using namespace waymo::open_dataset;
using ops::Attrs;
using ops::Result;
using tensorflow::Tensor;
using tensorflow::TensorShape;
using vh::Rng;
namespace tf = tensorflow;

namespace {
// One row of the tensors.
struct Row {
  std::string seq;
  int64_t frame = 0, id = 0;
  Object o;
};
struct Table {
  int dof = 7;
  std::vector<Row> pds, gts;
};

std::vector<float> BoxRow(const Label::Box& b, int dof) {
  auto f = [](double x) { return static_cast<float>(x); };
  if (dof == 4) return {f(b.center_x()), f(b.center_y()), f(b.length()), f(b.width())};
  if (dof == 5) return {f(b.center_x()), f(b.center_y()), f(b.length()), f(b.width()), f(b.heading())};
  return {f(b.center_x()), f(b.center_y()), f(b.center_z()), f(b.length()), f(b.width()), f(b.height()), f(b.heading())};
}
Label::Box RowBox(const std::vector<float>& v) {
  Label::Box b;
  size_t i = 0;
  b.set_center_x(v[i++]);
  b.set_center_y(v[i++]);
  if (v.size() == 7) b.set_center_z(v[i++]);
  b.set_length(v[i++]);
  b.set_width(v[i++]);
  if (v.size() == 7) b.set_height(v[i++]);
  if (v.size() > 4) b.set_heading(v[i++]);
  return b;
}

// What the library is given for a row.
Object Given(const Row& r, int dof, bool gt, bool tracking) {
  Object o;
  Label* l = o.mutable_object();
  l->set_type(r.o.object().type());
  *l->mutable_box() = RowBox(BoxRow(r.o.object().box(), dof));
  if (tracking) l->set_id(std::to_string(r.id));
  if (gt) {
    l->set_detection_difficulty_level(r.o.object().detection_difficulty_level());
    if (tracking) l->set_tracking_difficulty_level(r.o.object().detection_difficulty_level());
    l->mutable_metadata()->set_speed_x(static_cast<float>(r.o.object().metadata().speed_x()));
    l->mutable_metadata()->set_speed_y(static_cast<float>(r.o.object().metadata().speed_y()));
  } else {
    o.set_score(r.o.score());
    o.set_overlap_with_nlz(r.o.overlap_with_nlz());
  }
  return o;
}

std::vector<Tensor> Tensors(const Table& t, bool tracking) {
  std::vector<Tensor> out;
  for (int g = 0; g < 2; ++g) {
    const auto& rows = g ? t.gts : t.pds;
    std::vector<std::vector<float>> box, speed;
    std::vector<uint8_t> type, diff;
    std::vector<float> score;
    std::vector<int64_t> frame, id;
    std::vector<tf::tstring> seq;
    Tensor nlz(tf::DT_BOOL, TensorShape({static_cast<int64_t>(rows.size())}));
    for (size_t i = 0; i < rows.size(); ++i) {
      const Row& r = rows[i];
      box.push_back(BoxRow(r.o.object().box(), t.dof));
      type.push_back(r.o.object().type());
      diff.push_back(r.o.object().detection_difficulty_level());
      speed.push_back({static_cast<float>(r.o.object().metadata().speed_x()), static_cast<float>(r.o.object().metadata().speed_y())});
      score.push_back(r.o.score());
      nlz.vec<bool>()(i) = r.o.overlap_with_nlz();
      frame.push_back(r.frame);
      id.push_back(r.id);
      seq.push_back(r.seq);
    }
    out.push_back(ops::Mat(box, t.dof));
    out.push_back(ops::Vec(tf::DT_UINT8, type));
    if (!g) out.push_back(ops::Vec(tf::DT_FLOAT, score));
    out.push_back(ops::Vec(tf::DT_INT64, frame));
    if (tracking) {
      out.push_back(ops::Vec(tf::DT_STRING, seq));
      out.push_back(ops::Vec(tf::DT_INT64, id));
    }
    if (!g) out.push_back(nlz);
    if (g) {
      out.push_back(ops::Vec(tf::DT_UINT8, diff));
      out.push_back(ops::Mat(speed, 2));
    }
  }
  return out;
}

Attrs WithConfig(const google::protobuf::MessageLite& m) {
  Attrs a;
  a.has_config = true;
  a.config = m.SerializeAsString();
  return a;
}

bool Same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-6f * std::max(std::fabs(a), std::fabs(b)); }

Config RandOpConfig(Rng* r, bool images, bool detection) {
  Config c = scene::RandConfig(r, images, detection);
  if (r->chance(0.6)) {
    const int n = r->range(1, 6);
    std::vector<float> s;
    for (int i = 0; i < n; ++i) s.push_back(r->chance(0.2) ? 0.0f : static_cast<float>(r->u()));
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    for (float x : s) c.add_score_cutoffs(x);
  } else {
    c.set_num_desired_score_cutoffs(r->range(1, 6));
  }
  return c;
}

// ---------------------------------------------------------------- detection
Table RandTable(Rng* r, bool images) {
  const auto frames = scene::RandFrames(r, Label::Box::TYPE_3D, 4, 10, images);
  Table t;
  t.dof = images ? r->pick<int>({4, 4, 5}) : 7;
  int64_t base = r->pick<int64_t>({0, -5, 1ll << 40});
  std::vector<int64_t> ids;
  // Frames near one another, or equal in their low bits, or too large for a double.
  const int64_t step = r->pick<int64_t>({3, 3, 3, 1ll << 8, 1ll << 16, 1ll << 32, 1ll << 53});
  const int wide = step > 3 ? 0 : 2;
  for (size_t f = 0; f < frames.size(); ++f) ids.push_back(base + r->range(0, wide) + step * f);
  r->shuffle(&ids);
  for (size_t f = 0; f < frames.size(); ++f) {
    for (const auto& o : frames[f].pds) {
      t.pds.emplace_back();
      t.pds.back().frame = ids[f];
      t.pds.back().o = o;
    }
    for (const auto& o : frames[f].gts) {
      t.gts.emplace_back();
      t.gts.back().frame = ids[f];
      t.gts.back().o = o;
    }
  }
  if (r->chance(0.7)) r->shuffle(&t.pds);
  if (r->chance(0.7)) r->shuffle(&t.gts);
  return t;
}

std::string Describe(const Config& c, const Table& t) {
  std::ostringstream o;
  o << "config{" << c.ShortDebugString() << "} dof " << t.dof;
  for (int g = 0; g < 2; ++g) {
    o << (g ? " gts:" : " pds:");
    for (const Row& r : g ? t.gts : t.pds)
      o << r.seq << "/" << r.frame << "/" << r.id << " t" << r.o.object().type() << " s" << r.o.score() << " d" << r.o.object().detection_difficulty_level() << gen::Str(r.o.object().box()) << ";";
  }
  return o.str();
}

typedef std::vector<std::vector<Object>> Frames;
void Group(const Table& t, bool tracking, const std::string* seq, Frames* pds, Frames* gts) {
  std::map<int64_t, std::pair<std::vector<Object>, std::vector<Object>>> f;
  for (const Row& r : t.pds)
    if (!seq || r.seq == *seq) f[r.frame].first.push_back(Given(r, t.dof, false, tracking));
  for (const Row& r : t.gts)
    if (!seq || r.seq == *seq) f[r.frame].second.push_back(Given(r, t.dof, true, tracking));
  for (auto& kv : f) {
    pds->push_back(kv.second.first);
    gts->push_back(kv.second.second);
  }
}

void CheckDetectionOutput(const Config& cfg, const Result& got, const std::vector<DetectionMetrics>& want, double tol, const std::string& key, const std::string& d) {
  VH_EXPECT(got.ok && got.out.size() == 7, key + "_fails", got.error << " for " << d);
  if (!got.ok || got.out.size() != 7) return;
  const int nb = want.size(), ns = cfg.score_cutoffs_size();
  const bool shapes = got.out[0].shape() == TensorShape({nb}) && got.out[1].shape() == TensorShape({nb}) && got.out[2].shape() == TensorShape({nb}) &&
                      got.out[3].shape() == TensorShape({nb, ns, 5}) && got.out[4].shape() == TensorShape({nb, ns, 2}) &&
                      got.out[5].shape() == TensorShape({nb, ns, 2}) && got.out[6].shape() == TensorShape({nb, 3});
  VH_EXPECT(shapes, key + "_shapes", got.out[3].shape().DebugString() << " want " << nb << " breakdowns " << ns << " cutoffs for " << d);
  if (!shapes) return;
  auto same = [&](float a, float b, const char* what, int i) {
    VH_EXPECT(Same(a, b) || std::fabs(a - b) <= tol, key + "_" + what, a << " want " << b << " at breakdown " << i << " for " << d);
  };
  for (int i = 0; i < nb; ++i) {
    const auto& m = want[i];
    same(got.out[0].vec<float>()(i), m.mean_average_precision(), "ap", i);
    same(got.out[1].vec<float>()(i), m.mean_average_precision_ha_weighted(), "ap_ha", i);
    same(got.out[2].vec<float>()(i), m.mean_average_precision_longitudinal_affinity_weighted(), "ap_la", i);
    if (m.mean_average_precision() > 0) vh::Count("aps");
    VH_EXPECT(got.out[6].matrix<uint8_t>()(i, 0) == m.breakdown().generator_id() && got.out[6].matrix<uint8_t>()(i, 1) == m.breakdown().shard() &&
                  got.out[6].matrix<uint8_t>()(i, 2) == m.breakdown().difficulty_level(),
              key + "_breakdown", "at " << i << " want " << m.breakdown().ShortDebugString() << " for " << d);
    for (int j = 0; j < ns; ++j) {
      auto pr = got.out[3].tensor<float, 3>();
      same(pr(i, j, 0), m.precisions(j), "precision", i);
      same(pr(i, j, 1), m.recalls(j), "recall", i);
      same(pr(i, j, 2), m.measurements().measurements(j).num_tps(), "tps", i);
      same(pr(i, j, 3), m.measurements().measurements(j).num_fps(), "fps", i);
      same(pr(i, j, 4), m.measurements().measurements(j).num_fns(), "fns", i);
      same(got.out[4].tensor<float, 3>()(i, j, 0), m.precisions_ha_weighted(j), "precision_ha", i);
      same(got.out[4].tensor<float, 3>()(i, j, 1), m.recalls_ha_weighted(j), "recall_ha", i);
      same(got.out[5].tensor<float, 3>()(i, j, 0), m.precisions_longitudinal_affinity_weighted(j), "precision_la", i);
      same(got.out[5].tensor<float, 3>()(i, j, 1), m.recalls_longitudinal_affinity_weighted(j), "recall_la", i);
    }
  }
}

void DetectionCase(Rng* r) {
  const bool images = r->chance(0.3);
  Config cfg = RandOpConfig(r, images, true);
  Table t = RandTable(r, images);
  if (images && t.dof == 5 && r->chance(0.5)) cfg.set_box_type(Label::Box::TYPE_2D);
  if (r->chance(0.04)) t.pds.clear();
  if (r->chance(0.04)) t.gts.clear();
  const std::string d = Describe(cfg, t);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  Frames pds, gts;
  Group(t, false, nullptr, &pds, &gts);
  if (pds.empty()) {
    pds.emplace_back();
    gts.emplace_back();
    vh::Count("empty_tables");
  }
  Config full = cfg;
  if (full.score_cutoffs_size() == 0) {
    full = EstimateScoreCutoffs(cfg, pds, gts);
    vh::Count("estimated_cutoffs");
  }
  std::vector<std::vector<DetectionMeasurements>> ms;
  for (size_t i = 0; i < pds.size(); ++i) ms.push_back(ComputeDetectionMeasurements(full, pds[i], gts[i]));
  const std::vector<DetectionMetrics> want = ComputeDetectionMetrics(full, ms);
  const std::vector<Tensor> in = Tensors(t, false);
  CheckDetectionOutput(full, ops::Run("DetectionMetrics", in, WithConfig(cfg)), want, 0, "detection", d);
  vh::Count("detection_ops");
  if (pds.size() > 1) vh::Count("several_frames");

  // The state operation holds the merged counts.
  const auto merged = MergeDetectionMeasurements(full, ms);
  const Result st = ops::Run("DetectionMetricsState", in, WithConfig(cfg));
  const int nb = merged.size(), ns = full.score_cutoffs_size();
  VH_EXPECT(st.ok && st.out[0].shape() == TensorShape({nb, ns, 5}), "state_shape", st.error << " for " << d);
  if (!st.ok || st.out[0].shape() != TensorShape({nb, ns, 5})) return;
  auto s = st.out[0].tensor<float, 3>();
  for (int i = 0; i < nb; ++i)
    for (int j = 0; j < ns; ++j) {
      const auto& m = merged[i].measurements(j);
      VH_EXPECT(s(i, j, 0) == m.num_fps() && s(i, j, 1) == m.num_tps() && s(i, j, 2) == m.num_fns() && Same(s(i, j, 3), m.sum_ha()) &&
                    Same(s(i, j, 4), m.sum_longitudinal_affinity()),
                "state_value", "at " << i << " " << j << " want " << m.ShortDebugString() << " for " << d);
    }
  // States of disjoint sets of frames add up to the state of all frames.
  std::set<int64_t> ids;
  for (const Row& x : t.pds) ids.insert(x.frame);
  for (const Row& x : t.gts) ids.insert(x.frame);
  Tensor sum(tf::DT_FLOAT, TensorShape({nb, ns, 5}));
  sum.flat<float>().setZero();
  Table part[2];
  for (int p = 0; p < 2; ++p) part[p].dof = t.dof;
  std::map<int64_t, int> side;
  for (int64_t id : ids) side[id] = r->range(0, 1);
  for (const Row& x : t.pds) part[side[x.frame]].pds.push_back(x);
  for (const Row& x : t.gts) part[side[x.frame]].gts.push_back(x);
  for (int p = 0; p < 2; ++p) {
    const Result b = ops::Run("DetectionMetricsState", Tensors(part[p], false), WithConfig(full));
    VH_EXPECT(b.ok && b.out[0].shape() == sum.shape(), "state_of_part", b.error << " for " << d);
    if (!b.ok || b.out[0].shape() != sum.shape()) return;
    sum.flat<float>() += b.out[0].flat<float>();
  }
  // Such a state has no details, whatever was configured.
  CheckDetectionOutput(full, ops::Run("DetectionMetricsResult", {sum}, WithConfig(full)), want, 2e-4, "result", d);
  vh::Count("summed_states");
}

// ----------------------------------------------------------------- tracking
Table RandTracks(Rng* r, bool images) {
  Table t;
  t.dof = images ? 4 : 7;
  const int ns = r->range(1, 3);
  std::vector<float> used;
  for (int s = 0; s < ns; ++s) {
    static const std::string names[] = {"seq", "seq-FRONT", "seq2", ""};
    const std::string seq = names[(s + r->range(0, 1)) % 4 == s ? s : s];
    auto frames = scene::RandFrames(r, Label::Box::TYPE_3D, 1, 8, images);
    const int nf = r->range(1, 6);
    int64_t fid = r->pick<int64_t>({0, 3, -40, 1ll << 33});
    const int64_t far = r->pick<int64_t>({0, 0, 0, 1ll << 16, 1ll << 32, 1ll << 53});
    const int64_t id_step = r->pick<int64_t>({11, 11, 1ll << 16, 1ll << 32, 1ll << 53});
    for (int f = 0; f < nf; ++f) {
      auto add = [&](const std::vector<Object>& os, std::vector<Row>* rows) {
        for (size_t i = 0; i < os.size(); ++i) {
          if (r->chance(0.1)) continue;
          Row x;
          x.seq = seq;
          x.frame = fid;
          x.id = static_cast<int64_t>(i) * id_step - 5 + (r->chance(0.03) ? 1000 : 0);
          x.o = os[i];
          rows->push_back(x);
        }
      };
      add(frames[0].pds, &t.pds);
      add(frames[0].gts, &t.gts);
      for (auto* v : {&frames[0].pds, &frames[0].gts})
        for (auto& o : *v) *o.mutable_object()->mutable_box() = gen::Jitter(r, o.object().box(), 0.1);
      fid += far ? far : r->range(1, 3);
    }
  }
  // Distinct scores over all.
  std::vector<int> rank(t.pds.size());
  std::iota(rank.begin(), rank.end(), 1);
  r->shuffle(&rank);
  for (size_t i = 0; i < rank.size(); ++i) t.pds[i].o.set_score(rank[i] / (rank.size() + 1.0f));
  if (r->chance(0.7)) r->shuffle(&t.pds);
  if (r->chance(0.7)) r->shuffle(&t.gts);
  return t;
}

void TrackingCase(Rng* r) {
  const bool images = r->chance(0.2);
  const Config cfg = RandOpConfig(r, images, false);
  Table t = RandTracks(r, images);
  if (r->chance(0.04)) t.pds.clear();
  if (r->chance(0.04)) t.gts.clear();
  const std::string d = Describe(cfg, t);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  std::set<std::string> seqs;
  for (const Row& x : t.pds) seqs.insert(x.seq);
  for (const Row& x : t.gts) seqs.insert(x.seq);
  if (seqs.empty()) return;
  std::vector<Frames> pds, gts;
  for (const std::string& s : seqs) {
    pds.emplace_back();
    gts.emplace_back();
    Group(t, true, &s, &pds.back(), &gts.back());
  }
  Config full = cfg;
  if (full.score_cutoffs_size() == 0) full = EstimateScoreCutoffs(cfg, pds, gts);
  std::vector<std::vector<TrackingMeasurements>> ms;
  for (size_t i = 0; i < pds.size(); ++i) ms.push_back(ComputeTrackingMeasurements(full, pds[i], gts[i]));
  const std::vector<TrackingMetrics> want = ComputeTrackingMetrics(full, ms);
  const Result got = ops::Run("TrackingMetrics", Tensors(t, true), WithConfig(cfg));
  VH_EXPECT(got.ok && got.out.size() == 7, "tracking_fails", got.error << " for " << d);
  if (!got.ok) return;
  const int nb = want.size();
  for (int k = 0; k < 6; ++k) {
    VH_EXPECT(got.out[k].shape() == TensorShape({nb}), "tracking_shape", got.out[k].shape().DebugString() << " for " << d);
    if (got.out[k].shape() != TensorShape({nb})) return;
  }
  VH_EXPECT(got.out[6].shape() == TensorShape({nb, 3}), "tracking_shape", d);
  for (int i = 0; i < nb; ++i) {
    const auto& m = want[i];
    const float w[] = {m.mota(), m.motp(), m.miss(), m.mismatch(), m.fp(), m.score_cutoff()};
    static const char* n[] = {"mota", "motp", "miss", "mismatch", "fp", "score_cutoff"};
    for (int k = 0; k < 6; ++k) VH_EXPECT(Same(got.out[k].vec<float>()(i), w[k]), std::string("tracking_") + n[k], got.out[k].vec<float>()(i) << " want " << w[k] << " for " << m.breakdown().ShortDebugString() << " of " << d);
    VH_EXPECT(got.out[6].matrix<uint8_t>()(i, 0) == m.breakdown().generator_id() && got.out[6].matrix<uint8_t>()(i, 1) == m.breakdown().shard() &&
                  got.out[6].matrix<uint8_t>()(i, 2) == m.breakdown().difficulty_level(),
              "tracking_breakdown", "at " << i << " want " << m.breakdown().ShortDebugString() << " for " << d);
    if (m.mota() > 0) vh::Count("motas");
    if (m.breakdown().difficulty_level() == 1 && i + 1 < nb && m.miss() != want[i + 1].miss()) vh::Count("difficulty_matters");
  }
  if (seqs.size() > 1) vh::Count("several_sequences");
  vh::Count("tracking_ops");
}

// ------------------------------------------------------------------- motion
struct MotionIn {
  MotionMetricsConfig cfg;
  std::vector<Tensor> in;
  // As the documentation of the operation reads the tensors.
  std::map<std::string, std::pair<Scenario, ScenarioPredictions>> worlds;
  std::string text;
};

MotionIn RandMotion(Rng* r) {
  MotionIn m;
  MotionMetricsConfig& c = m.cfg;
  const int pps = r->range(1, 3), ratio = r->range(1, 3), tp = r->range(2, 6);
  c.set_prediction_steps_per_second(pps);
  c.set_track_steps_per_second(pps * ratio);
  c.set_track_history_samples(r->range(0, 3));
  c.set_track_future_samples(tp * ratio);
  c.set_max_predictions(r->range(1, 6));
  if (r->chance(0.5)) {
    c.set_speed_lower_bound(1.4);
    c.set_speed_upper_bound(11);
    c.set_speed_scale_lower(0.5);
    c.set_speed_scale_upper(1);
  }
  std::vector<int> steps;
  for (int i = 0; i < tp; ++i) steps.push_back(i);
  r->shuffle(&steps);
  for (int i = r->range(1, std::min(3, tp)); i > 0; --i) {
    auto* s = c.add_step_configurations();
    s->set_measurement_step(steps[i - 1]);
    s->set_lateral_miss_threshold(r->uni(0.5, 3));
    s->set_longitudinal_miss_threshold(r->uni(0.5, 6));
  }
  const int B = r->range(1, 4), A = r->range(1, 7), N = r->range(1, std::min(A, 3)), M = r->range(1, A / N), K = r->range(1, 7);
  const int TG = c.track_history_samples() + 1 + c.track_future_samples();
  Tensor pt(tf::DT_FLOAT, TensorShape({B, M, K, N, tp, 2})), ps(tf::DT_FLOAT, TensorShape({B, M, K})), gt(tf::DT_FLOAT, TensorShape({B, A, TG, 7})),
      gv(tf::DT_BOOL, TensorShape({B, A, TG})), pi(tf::DT_INT64, TensorShape({B, M, N})), pm(tf::DT_BOOL, TensorShape({B, M, N})),
      ot(tf::DT_INT64, TensorShape({B, A})), oi(tf::DT_INT64, TensorShape({B, A})), si(tf::DT_STRING, TensorShape({B}));
  std::vector<int> rank(B * M * K);
  std::iota(rank.begin(), rank.end(), 1);
  r->shuffle(&rank);
  const double room = r->chance(0.5) ? 30 : 8;
  const bool sized = r->chance(0.6), resized = sized && r->chance(0.5);  // Agents of other sizes, measured anew at each step.
  const double gone = r->chance(0.5) ? 0 : 0.3, gaps = r->chance(0.5) ? 0 : 0.2, masked = r->chance(0.5) ? 0 : 0.3;
  for (int b = 0; b < B; ++b) {
    std::string name = "scene" + std::to_string(r->range(0, 9)) + "/" + std::to_string(b);
    if (b > 0 && r->chance(0.2)) {
      // Another row of the same scenario, with other agents.
      name = si.vec<tf::tstring>()(r->range(0, b - 1));
      vh::Count("shared_scenarios");
    }
    si.vec<tf::tstring>()(b) = name;
    Scenario& sc = m.worlds[name].first;
    ScenarioPredictions& pr = m.worlds[name].second;
    sc.set_scenario_id(name);
    pr.set_scenario_id(name);
    std::vector<int> track(A, -1), present;
    for (int a = 0; a < A; ++a) {
      const bool absent = r->chance(gone) && a > 0;
      const int id = b * 100 + a * 13 + r->range(-6, 6);
      oi.matrix<int64_t>()(b, a) = id;
      const int type = r->range(1, 3);
      ot.matrix<int64_t>()(b, a) = type;
      double x = r->uni(-room, room), y = r->uni(-room, room), h = r->uni(-3, 3), v = r->chance(0.3) ? 0 : r->uni(0, 12);
      const double turn = r->uni(-0.8, 0.8), dt = 1.0 / c.track_steps_per_second();
      float size[] = {4.5f, 2.0f};
      bool any = false;
      Track t;
      t.set_id(id);
      t.set_object_type(static_cast<Track::ObjectType>(type));
      for (int s = 0; s < TG; ++s) {
        if (sized && (s == 0 || resized)) size[0] = r->uni(0.5, 9), size[1] = r->uni(0.5, 4);
        const bool valid = !absent && (s == c.track_history_samples() || !r->chance(gaps));
        any |= valid;
        gv.tensor<bool, 3>()(b, a, s) = valid;
        const float f[] = {static_cast<float>(x), static_cast<float>(y), size[0], size[1], static_cast<float>(h), static_cast<float>(v * cos(h)), static_cast<float>(v * sin(h))};
        for (int k = 0; k < 7; ++k) gt.tensor<float, 4>()(b, a, s, k) = f[k];
        auto* st = t.add_states();
        st->set_valid(valid);
        st->set_center_x(f[0]);
        st->set_center_y(f[1]);
        st->set_length(f[2]);
        st->set_width(f[3]);
        st->set_heading(f[4]);
        st->set_velocity_x(f[5]);
        st->set_velocity_y(f[6]);
        x += v * cos(h) * dt;
        y += v * sin(h) * dt;
        h += turn * dt;
      }
      if (any) {
        track[a] = sc.tracks_size();
        *sc.add_tracks() = t;
        present.push_back(a);
      } else {
        vh::Count("absent_agents");
      }
    }
    r->shuffle(&present);
    size_t next = 0;
    for (int g = 0; g < M; ++g) {
      std::vector<int> members(N, -1);
      for (int n = 0; n < N; ++n) {
        const bool use = next < present.size() && !r->chance(masked);
        pm.tensor<bool, 3>()(b, g, n) = use;
        if (use) members[n] = present[next++];
        pi.tensor<int64_t, 3>()(b, g, n) = use ? members[n] : r->pick<int>({0, -1, A});
        if (!use) vh::Count("masked_agents");
      }
      for (int k = 0; k < K; ++k) {
        const float score = rank[(b * M + g) * K + k] / (rank.size() + 1.0f);
        ps.tensor<float, 3>()(b, g, k) = score;
        const double err = r->chance(0.4) ? r->uni(0, 0.4) : r->uni(0, 6);
        for (int n = 0; n < N; ++n)
          for (int s = 0; s < tp; ++s) {
            const int ts = c.track_history_samples() + (s + 1) * ratio, a = members[n] < 0 ? 0 : members[n];
            for (int q = 0; q < 2; ++q) pt.tensor<float, 6>()(b, g, k, n, s, q) = gt.tensor<float, 4>()(b, a, ts, q) + err * r->uni(-1, 1);
          }
      }
      MultimodalPrediction mm;
      for (int n = 0; n < N; ++n) {
        if (members[n] < 0) continue;
        auto* req = sc.add_tracks_to_predict();
        req->set_track_index(track[members[n]]);
        req->set_difficulty(RequiredPrediction::LEVEL_1);
        sc.add_objects_of_interest(sc.tracks(track[members[n]]).id());
      }
      for (int k = 0; k < K; ++k) {
        auto* jp = mm.add_joint_predictions();
        jp->set_confidence(ps.tensor<float, 3>()(b, g, k));
        for (int n = 0; n < N; ++n) {
          if (members[n] < 0) continue;
          auto* tr = jp->add_trajectories();
          tr->set_object_id(sc.tracks(track[members[n]]).id());
          for (int s = 0; s < tp; ++s) {
            tr->add_center_x(pt.tensor<float, 6>()(b, g, k, n, s, 0));
            tr->add_center_y(pt.tensor<float, 6>()(b, g, k, n, s, 1));
          }
        }
      }
      if (mm.joint_predictions(0).trajectories_size() > 0) *pr.add_multi_modal_predictions() = mm;
    }
  }
  m.in = {pt, ps, gt, gv, pi, pm, ot, oi, si};
  m.text = "config {" + c.ShortDebugString() + "}";
  for (const auto& kv : m.worlds) m.text += " predictions {" + kv.second.second.ShortDebugString() + "} scenario {" + kv.second.first.ShortDebugString() + "}";
  return m;
}

void MotionCase(Rng* r) {
  const MotionIn m = RandMotion(r);
  vh::Crumb(m.text);
  vh::Sample(m.text);
  vh::Nontrivial(vh::Hash(m.text));
  BucketedMetricsStats total;
  for (const auto& kv : m.worlds) {
    BucketedMetricsStats one;
    const Status st = ComputeMetricsStats(m.cfg, kv.second.second, kv.second.first, &one);
    VH_EXPECT(st.ok(), "motion_input", st.message() << " for " << m.text);
    if (!st.ok()) return;
    total.Accumulate(one);
  }
  const MotionMetrics want = ComputeMotionMetrics(&total);
  const Result got = ops::Run("MotionMetrics", m.in, WithConfig(m.cfg));
  VH_EXPECT(got.ok && got.out.size() == 5, "motion_fails", got.error << " for " << m.text);
  if (!got.ok) return;
  std::map<std::pair<int, int>, const MotionMetricsBundle*> by;
  for (const auto& b : want.metrics_bundles()) by[{b.has_object_filter() ? b.object_filter() : -1, b.measurement_step()}] = &b;
  const auto names = GetBreakdownNamesFromMotionConfig(m.cfg);
  const int nb = 3 * m.cfg.step_configurations_size();
  VH_EXPECT(static_cast<int>(names.size()) == nb, "motion_names", names.size() << " for " << m.text);
  for (int k = 0; k < 5; ++k) {
    VH_EXPECT(got.out[k].shape() == TensorShape({nb}), "motion_shape", got.out[k].shape().DebugString() << " for " << m.text);
    if (got.out[k].shape() != TensorShape({nb})) return;
  }
  int i = 0;
  for (int type : {1, 2, 3})
    for (const auto& s : m.cfg.step_configurations()) {
      auto f = by.find({type, s.measurement_step()});
      float w[] = {-1, -1, -1, -1, -1};
      if (f != by.end()) {
        w[0] = f->second->min_ade();
        w[1] = f->second->min_fde();
        w[2] = f->second->miss_rate();
        w[3] = f->second->overlap_rate();
        w[4] = f->second->mean_average_precision();
        vh::Count("bundles");
      } else {
        vh::Count("missing_bundles");
      }
      static const char* n[] = {"min_ade", "min_fde", "miss_rate", "overlap_rate", "map"};
      for (int k = 0; k < 5; ++k) {
        const float g = got.out[k].vec<float>()(i);
        VH_EXPECT(Same(g, w[k]) || std::fabs(g - w[k]) <= 2e-5, std::string("motion_") + n[k], g << " want " << w[k] << " for type " << type << " step " << s.measurement_step() << " of " << m.text);
      }
      ++i;
    }
  vh::Count("motion_ops");
  if (m.worlds.size() > 1) vh::Count("several_scenarios");
}

// -------------------------------------------------------------------- match
void MatchCase(Rng* r) {
  const int kind = r->range(0, 3);
  const int dof = std::vector<int>{4, 5, 7, 7}[kind];
  Config c;
  c.set_box_type(kind == 0 ? Label::Box::TYPE_AA_2D : kind == 3 ? Label::Box::TYPE_3D : Label::Box::TYPE_2D);
  c.set_matcher_type(r->chance(0.5) ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST);
  for (int i = 0; i < 5; ++i) c.add_iou_thresholds(r->pick<float>({0.05f, 0.3f, 0.6f}));
  if (kind == 3 && r->chance(0.3)) {
    auto* l = c.mutable_let_metric_config();
    l->set_enabled(true);
    l->mutable_sensor_location()->set_z(2);
    l->set_longitudinal_tolerance_percentage(0.1f);
    l->set_min_longitudinal_tolerance_meter(0.5f);
    l->set_align_type(static_cast<Config::LongitudinalErrorTolerantConfig::AlignType>(r->range(1, 6)));
  }
  const int B = r->range(0, 3), N = r->range(0, 7), M = r->range(0, 7);
  Tensor p(tf::DT_FLOAT, TensorShape({B, N, dof})), g(tf::DT_FLOAT, TensorShape({B, M, dof}));
  std::ostringstream text;
  text << c.ShortDebugString() << " ";
  const double spread = r->pick<double>({3, 10});
  for (int b = 0; b < B; ++b) {
    std::vector<Label::Box> gb;
    for (int k = 0; k < M + N; ++k) {
      Label::Box box;
      if (!r->chance(0.15)) {
        box = gen::RandBox(r, spread);
        if (k >= M && !gb.empty() && r->chance(0.7)) box = gen::Jitter(r, gb[r->range(0, gb.size() - 1)], r->pick<double>({0.05, 0.4}));
      }
      if (k < M) gb.push_back(box);
      const auto row = BoxRow(box, dof);
      for (int q = 0; q < dof; ++q) {
        if (k < M)
          g.tensor<float, 3>()(b, k, q) = row[q];
        else
          p.tensor<float, 3>()(b, k - M, q) = row[q];
        text << row[q] << (q + 1 == dof ? ";" : ",");
      }
    }
  }
  const std::string d = text.str();
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  const Attrs attrs = WithConfig(c);
  const Result got = ops::Run("Match", {p, g}, attrs);
  VH_EXPECT(got.ok && got.out.size() == 4, "match_fails", got.error << " for " << d);
  if (!got.ok) return;
  std::vector<int> wp, wg;
  std::vector<float> wi, wl;
  for (int b = 0; b < B; ++b) {
    std::vector<Object> o[2];
    std::vector<int> at[2];
    for (int side = 0; side < 2; ++side)
      for (int k = 0; k < (side ? M : N); ++k) {
        std::vector<float> row(dof);
        for (int q = 0; q < dof; ++q) row[q] = side ? g.tensor<float, 3>()(b, k, q) : p.tensor<float, 3>()(b, k, q);
        Object x;
        *x.mutable_object()->mutable_box() = RowBox(row);
        auto* box = x.mutable_object()->mutable_box();
        // Boxes without extent are padding.
        if (!(box->length() > 0 && box->width() > 0 && (kind != 3 || box->height() > 0))) continue;
        // The boxes of this operation stand on their z.
        if (dof == 7) box->set_center_z(box->center_z() + row[5] / 2);
        x.mutable_object()->set_type(Label::TYPE_VEHICLE);
        x.set_score(1);
        o[side].push_back(x);
        at[side].push_back(k);
      }
    if (o[0].size() < static_cast<size_t>(N)) vh::Count("padded");
    auto m = Matcher::Create(c);
    m->SetPredictions(o[0]);
    m->SetGroundTruths(o[1]);
    std::vector<int> all[2];
    for (int side = 0; side < 2; ++side)
      for (size_t k = 0; k < o[side].size(); ++k) all[side].push_back(k);
    m->SetPredictionSubset(all[0]);
    m->SetGroundTruthSubset(all[1]);
    std::vector<int> pm;
    m->Match(&pm, nullptr);
    for (size_t k = 0; k < pm.size(); ++k) {
      if (pm[k] < 0) continue;
      wp.push_back(b * N + at[0][k]);
      wg.push_back(b * M + at[1][pm[k]]);
      wi.push_back(m->IoU(k, pm[k]));
      wl.push_back(m->LongitudinalAffinity(k, pm[k]));
      vh::Count("op_matches");
      if (b) vh::Count("op_matches_later_batch");
    }
  }
  const TensorShape shape({static_cast<int64_t>(wp.size())});
  std::string err;
  const auto declared = ops::Shapes("Match", {p, g}, attrs, &err);
  VH_EXPECT(err.empty(), "match_shape_fn", err);
  for (int k = 0; k < 4; ++k) {
    VH_EXPECT(got.out[k].shape() == shape, "match_count", got.out[k].shape().DebugString() << " want " << wp.size() << " for " << d);
    if (got.out[k].shape() != shape) return;
    VH_EXPECT(declared.size() == 4 && declared[k].IsCompatibleWith(got.out[k].shape()), "match_declared", d);
  }
  for (size_t k = 0; k < wp.size(); ++k)
    VH_EXPECT(got.out[0].vec<int>()(k) == wp[k] && got.out[1].vec<int>()(k) == wg[k] && Same(got.out[2].vec<float>()(k), wi[k]) && Same(got.out[3].vec<float>()(k), wl[k]), "match_pair",
              got.out[0].vec<int>()(k) << "-" << got.out[1].vec<int>()(k) << " " << got.out[2].vec<float>()(k) << " want " << wp[k] << "-" << wg[k] << " " << wi[k] << " " << wl[k] << " for " << d);
  vh::Count("match_ops");
}

// ------------------------------------------------------------------- camera
template <class T>
struct CameraIn {
  CameraCalibration c;
  CameraImage img;
  std::vector<Tensor> in;  // extrinsic, intrinsic, metadata, image
};
template <class T>
CameraIn<T> RandCameraIn(Rng* r) {
  CameraIn<T> x;
  x.c = cam::RandCalibration(r, r->range(1, 5));
  x.img = cam::RandImage(r, false);
  const tf::DataType dt = tf::DataTypeToEnum<T>::value;
  Tensor e(dt, TensorShape({4, 4})), in(dt, TensorShape({9})), md(tf::DT_INT32, TensorShape({3})), im(dt, TensorShape({26}));
  for (int i = 0; i < 16; ++i) {
    e.flat<T>()(i) = x.c.extrinsic().transform(i);
    x.c.mutable_extrinsic()->set_transform(i, e.flat<T>()(i));
    im.vec<T>()(i) = x.img.pose().transform(i);
    x.img.mutable_pose()->set_transform(i, im.vec<T>()(i));
  }
  for (int i = 0; i < 9; ++i) {
    in.vec<T>()(i) = x.c.intrinsic(i);
    x.c.set_intrinsic(i, in.vec<T>()(i));
  }
  md.vec<int>()(0) = x.c.width();
  md.vec<int>()(1) = x.c.height();
  md.vec<int>()(2) = x.c.rolling_shutter_direction();
  auto* v = x.img.mutable_velocity();
  const double f[] = {v->v_x(), v->v_y(), v->v_z(), v->w_x(), v->w_y(), v->w_z(), x.img.pose_timestamp(), x.img.shutter(), x.img.camera_trigger_time(), x.img.camera_readout_done_time()};
  for (int i = 0; i < 10; ++i) im.vec<T>()(16 + i) = static_cast<T>(f[i]);
  auto at = [&](int i) { return static_cast<double>(im.vec<T>()(16 + i)); };
  v->set_v_x(at(0));
  v->set_v_y(at(1));
  v->set_v_z(at(2));
  v->set_w_x(at(3));
  v->set_w_y(at(4));
  v->set_w_z(at(5));
  x.img.set_pose_timestamp(at(6));
  x.img.set_shutter(at(7));
  x.img.set_camera_trigger_time(at(8));
  x.img.set_camera_readout_done_time(at(9));
  x.in = {e, in, md, im};
  return x;
}

template <class T>
void CameraOps(Rng* r) {
  CameraIn<T> x = RandCameraIn<T>(r);
  const tf::DataType dt = tf::DataTypeToEnum<T>::value;
  const int n = r->chance(0.05) ? 0 : r->range(1, 30);
  Tensor pts(dt, TensorShape({n, 3})), vel(dt, TensorShape({n, 3})), px(dt, TensorShape({n, 3}));
  for (int i = 0; i < n; ++i) {
    const cam::Pose pose = cam::At(x.c, x.img, 0);
    const double depth = r->chance(0.2) ? r->uni(-30, 5) : r->uni(4, 80);
    const cam::V3 p = cam::Add(cam::Mul(pose.r, cam::V3{depth, r->uni(-0.8, 0.8) * depth, r->uni(-0.6, 0.6) * depth}), pose.p);
    for (int k = 0; k < 3; ++k) {
      pts.matrix<T>()(i, k) = p[k];
      vel.matrix<T>()(i, k) = r->uni(-20, 20);
    }
    px.matrix<T>()(i, 0) = x.c.width() * r->u();
    px.matrix<T>()(i, 1) = x.c.height() * r->u();
    px.matrix<T>()(i, 2) = r->uni(1, 70);
  }
  const std::string d = "calibration{" + x.c.ShortDebugString() + "} image{" + x.img.ShortDebugString() + "}";
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  CameraModel m(x.c);
  m.PrepareProjection(x.img);
  for (int op = 0; op < 3; ++op) {
    for (int with_depth = 0; with_depth < (op < 2 ? 2 : 1); ++with_depth) {
      static const char* names[] = {"WorldToImage", "WorldToImageMovingPoint", "ImageToWorld"};
      std::vector<Tensor> in = x.in;
      in.push_back(op == 2 ? px : pts);
      if (op == 1) in.push_back(vel);
      Attrs a;
      a.type = dt;
      if (op < 2 && (with_depth || r->chance(0.5))) a.depth = with_depth;
      const Result got = ops::Run(names[op], in, a);
      const int cols = op == 2 ? 3 : 3 + with_depth;
      VH_EXPECT(got.ok && got.out[0].shape() == TensorShape({n, cols}), "camera_op", names[op] << " " << got.error << " on " << d);
      if (!got.ok || got.out[0].shape() != TensorShape({n, cols})) continue;
      std::string err;
      const auto declared = ops::Shapes(names[op], in, a, &err);
      VH_EXPECT(err.empty() && declared.size() == 1 && declared[0].IsCompatibleWith(got.out[0].shape()), "camera_declared", names[op] << " " << err);
      for (int i = 0; i < n; ++i) {
        double w[4] = {0, 0, 0, 0};
        auto p = (op == 2 ? px : pts).matrix<T>();
        if (op == 2) {
          m.ImageToWorld(p(i, 0), p(i, 1), p(i, 2), &w[0], &w[1], &w[2]);
        } else {
          double depth = 0;
          const bool ok = op ? m.WorldToImageMovingPointWithDepth(p(i, 0), p(i, 1), p(i, 2), vel.matrix<T>()(i, 0), vel.matrix<T>()(i, 1), vel.matrix<T>()(i, 2), false, &w[0], &w[1], &depth)
                             : m.WorldToImageWithDepth(p(i, 0), p(i, 1), p(i, 2), false, &w[0], &w[1], &depth);
          if (with_depth) w[2] = depth;
          w[cols - 1] = ok;
          vh::Count(ok ? "op_valid_pixels" : "op_invalid_pixels");
        }
        for (int k = 0; k < cols; ++k)
          VH_EXPECT(got.out[0].matrix<T>()(i, k) == static_cast<T>(w[k]), std::string(names[op]), got.out[0].matrix<T>()(i, k) << " want " << w[k] << " column " << k << " of point " << i << " on " << d);
      }
      vh::Count("camera_ops");
    }
  }
}
void CameraCase(Rng* r) {
  if (r->chance(0.5))
    CameraOps<float>(r);
  else
    CameraOps<double>(r);
}

// ------------------------------------------------- inputs that do not fit
enum Refusal { kRan = 0, kRefused = 3, kMemory = 99 };
// Runs an operation in a child process: an error or a failed check is a refusal.
int RunApart(const std::string& op, const std::vector<Tensor>& in, const Attrs& a) {
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    signal(SIGABRT, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) _exit(5);
    if (!freopen("/dev/null", "w", stdout)) _exit(5);
    const Result res = ops::Run(op, in, a);
    _exit(res.ok ? kRan : kRefused);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return WTERMSIG(st) == SIGABRT ? kRefused : 1000 + WTERMSIG(st);
}
// The same values with another number of entries along a dimension.
Tensor Resized(const Tensor& t, int dim, int delta) {
  TensorShape s = t.shape();
  s.set_dim(dim, std::max<int64_t>(0, s.dim_size(dim) + delta));
  Tensor o(t.dtype(), s);
  if (t.dtype() == tf::DT_STRING) {
    for (int64_t i = 0; i < o.NumElements(); ++i) o.flat<tf::tstring>()(i) = t.NumElements() ? t.flat<tf::tstring>()(i % t.NumElements()) : tf::tstring("a");
    return o;
  }
  const size_t n = o.TotalBytes(), have = t.TotalBytes();
  char* p = static_cast<char*>(o.data());
  const char* q = static_cast<const char*>(t.data());
  for (size_t i = 0; i < n; ++i) p[i] = have ? q[i % have] : 0;
  return o;
}
Tensor Fewer(const Tensor& t, int dim) { return Resized(t, dim, -1); }

void RefusedCase(Rng* r) {
  const int kind = r->range(0, 7);
  std::vector<Tensor> in;
  Attrs a;
  std::string op, what;
  switch (kind) {
    case 0:
    case 1:
    case 2: {  // Detection and tracking tables.
      static const char* names[] = {"DetectionMetrics", "DetectionMetricsState", "TrackingMetrics"};
      op = names[kind];
      Config c = RandOpConfig(r, false, kind < 2);
      Table t = kind < 2 ? RandTable(r, false) : RandTracks(r, false);
      if (t.pds.size() < 2 || t.gts.size() < 2) return;
      in = Tensors(t, kind == 2);
      const int k = r->range(0, in.size() + 1);
      if (k == static_cast<int>(in.size())) {
        c.set_box_type(Label::Box::TYPE_UNKNOWN);
        what = "box type unknown";
      } else if (k == static_cast<int>(in.size()) + 1) {
        in[0] = Resized(in[0], 1, r->pick<int>({-1, 1, -6}));
        what = "boxes of " + std::to_string(in[0].dim_size(1));
      } else if (k == static_cast<int>(in.size()) - 1 && r->chance(0.5)) {
        in[k] = Resized(in[k], 1, -1);
        what = "speeds of one column";
      } else {
        in[k] = Resized(in[k], 0, r->chance(0.8) ? -1 : 1);
        what = "length of input " + std::to_string(k);
      }
      a = WithConfig(c);
      if (r->chance(0.05)) {
        a.config = "\xff\xff\xff";
        what += " and config";
      }
      break;
    }
    case 3: {
      op = "MotionMetrics";
      const MotionIn m = RandMotion(r);
      in = m.in;
      MotionMetricsConfig c = m.cfg;
      switch (r->range(0, 4)) {
        case 0: {
          // Index of an agent that does not exist, in use.
          in[4] = tf::tensor::DeepCopy(in[4]);
          int used = -1;
          for (int i = 0; i < in[5].NumElements(); ++i)
            if (in[5].flat<bool>()(i)) used = i;
          if (used < 0) return;
          in[4].flat<int64_t>()(used) = r->pick<int64_t>({-1, in[2].dim_size(1), 1ll << 40});
          what = "agent index";
          break;
        }
        case 1: {  // Index of an agent that is never valid.
          if (in[2].dim_size(1) < 2) return;
          in[3] = tf::tensor::DeepCopy(in[3]);
          int used = -1;
          for (int i = 0; i < in[5].NumElements(); ++i)
            if (in[5].flat<bool>()(i)) used = i;
          if (used < 0) return;
          const int b = used / (in[5].NumElements() / in[5].dim_size(0)), g = in[4].flat<int64_t>()(used);
          bool others = false;
          for (int j = 0; j < in[3].dim_size(1); ++j)
            for (int s = 0; s < in[3].dim_size(2); ++s) {
              if (j == g)
                in[3].tensor<bool, 3>()(b, j, s) = false;
              else
                others |= in[3].tensor<bool, 3>()(b, j, s);
            }
          if (!others) return;
          what = "agent never valid";
          break;
        }
        case 2:
          in[2] = Resized(in[2], r->range(0, 3), -1);
          what = "truth size";
          break;
        case 3: {
          const int k = r->pick<int>({1, 3, 4, 5, 6, 7, 8});
          in[k] = Resized(in[k], r->range(0, in[k].dims() - 1), k == 8 ? 1 : -1);
          what = "size of input " + std::to_string(k);
          break;
        }
        case 4:
          in[0] = Resized(in[0], r->range(0, 4), -1);
          what = "prediction size";
          break;
      }
      a = WithConfig(c);
      break;
    }
    case 4: {
      op = "Match";
      Config c;
      c.set_box_type(Label::Box::TYPE_2D);
      c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
      for (int i = 0; i < 5; ++i) c.add_iou_thresholds(0.5);
      const int dof = r->pick<int>({5, 7});
      Tensor p(tf::DT_FLOAT, TensorShape({2, 3, dof})), g(tf::DT_FLOAT, TensorShape({2, 4, dof}));
      p.flat<float>().setConstant(1);
      g.flat<float>().setConstant(1);
      in = {p, g};
      switch (r->range(0, 3)) {
        case 0:
          in[r->range(0, 1)] = Resized(g, 0, r->pick<int>({-1, 1}));
          what = "batches";
          break;
        case 1:
          in[r->range(0, 1)] = Resized(g, 2, r->pick<int>({-1, 1}));
          what = "columns";
          break;
        case 2:
          c.set_box_type(r->pick<Label::Box::Type>({Label::Box::TYPE_AA_2D, Label::Box::TYPE_UNKNOWN}));
          what = "box type";
          break;
        case 3:
          in[r->range(0, 1)] = Tensor(tf::DT_FLOAT, TensorShape({3, dof}));
          what = "rank";
          break;
      }
      a = WithConfig(c);
      break;
    }
    case 5:
    case 6: {
      CameraIn<double> x = RandCameraIn<double>(r);
      const int n = r->range(2, 6);
      Tensor p(tf::DT_DOUBLE, TensorShape({n, 3}));
      p.flat<double>().setConstant(r->uni(1, 50));
      in = x.in;
      in.push_back(p);
      op = kind == 5 ? r->pick<std::string>({"WorldToImage", "ImageToWorld"}) : "WorldToImageMovingPoint";
      if (kind == 6) in.push_back(p);
      const int k = r->range(0, in.size() - 1);
      const int dim = k == 0 ? r->range(0, 1) : k < 4 ? 0 : k == 4 && kind == 5 ? 1 : r->range(0, 1);
      in[k] = Fewer(in[k], dim);
      if (kind == 6 && k == 4 && dim == 0) return;  // More velocities than points.
      what = "size of input " + std::to_string(k);
      a.type = tf::DT_DOUBLE;
      break;
    }
    case 7: {
      op = "DetectionMetricsResult";
      Config c = RandOpConfig(r, false, true);
      if (c.score_cutoffs_size() == 0) c.add_score_cutoffs(0);
      Config copy = c;
      const int nb = GetBreakdownNamesFromConfig(c).size(), ns = c.score_cutoffs_size();
      Tensor s(tf::DT_FLOAT, TensorShape({nb, ns, 5}));
      s.flat<float>().setZero();
      const int dim = r->range(0, 2);
      in = {Fewer(s, dim)};
      what = "state of " + in[0].shape().DebugString();
      a = WithConfig(c);
      break;
    }
  }
  const std::string d = op + ": " + what;
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d) ^ r->next());
  const int rc = RunApart(op, in, a);
  VH_EXPECT(rc == kRefused, "accepted_" + op, (rc == kRan ? std::string("ran") : rc == kMemory ? std::string("read memory it must not") : "ended with " + std::to_string(rc)) << " with wrong " << d);
  vh::Count("refused_" + op);
}

// ------------------------------------------------------------------ threads
// The same work in several threads at once, on shared inputs.
void ThreadsCase(Rng* r) {
  const bool images = r->chance(0.3);
  const Config det = RandOpConfig(r, images, true), trk = RandOpConfig(r, images, false);
  const Table t = RandTable(r, images);
  Table tt = RandTracks(r, images);
  const MotionIn mo = RandMotion(r);
  const std::string d = Describe(det, t);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  Frames pds, gts, tp, tg;
  Group(t, false, nullptr, &pds, &gts);
  const std::string seq = "seq";
  Group(tt, true, &seq, &tp, &tg);
  Config dc = det, tc = trk;
  if (dc.score_cutoffs_size() == 0) dc = EstimateScoreCutoffs(det, pds, gts);
  if (tc.score_cutoffs_size() == 0) tc = EstimateScoreCutoffs(trk, {tp}, {tg});
  const auto& world = *mo.worlds.begin();
  CameraIn<double> camera = RandCameraIn<double>(r);
  CameraModel model(camera.c);
  model.PrepareProjection(camera.img);
  const uint64_t point_seed = r->next();
  SegmentationMetricsConfig seg;
  for (int k = 1; k <= 22; ++k)
    if (r->chance(0.6)) seg.add_segmentation_types(static_cast<Segmentation::Type>(k));
  std::vector<std::pair<std::vector<Segmentation::Type>, std::vector<Segmentation::Type>>> labels(r->range(1, 3));
  for (auto& f : labels)
    for (int k = r->range(0, 40); k > 0; --k) {
      f.first.push_back(static_cast<Segmentation::Type>(r->range(0, 22)));
      f.second.push_back(r->chance(0.5) ? f.first.back() : static_cast<Segmentation::Type>(r->range(0, 22)));
    }
  Config uncut = det;
  uncut.clear_score_cutoffs();
  uncut.set_num_desired_score_cutoffs(r->range(2, 20));
  constexpr int kParts = 6;
  auto work = [&](int order) {
    std::string out[kParts];
    for (int q = 0; q < kParts; ++q) {
      const int k = (q + order) % kParts;
      if (k == 0) {
        std::vector<std::vector<DetectionMeasurements>> ms;
        for (size_t i = 0; i < pds.size(); ++i) ms.push_back(ComputeDetectionMeasurements(dc, pds[i], gts[i]));
        for (const auto& m : ComputeDetectionMetrics(dc, ms)) out[k] += m.ShortDebugString();
      } else if (k == 1) {
        // The details and the sums follow the order of a hash table.
        for (auto m : ComputeTrackingMeasurements(tc, tp, tg)) {
          for (auto& x : *m.mutable_measurements()) {
            x.clear_details();
            x.set_matching_cost(std::round(x.matching_cost() * 1e3 + 0.123));
          }
          out[k] += m.ShortDebugString();
        }
      } else if (k == 2) {
        BucketedMetricsStats s;
        const Status st = ComputeMetricsStats(mo.cfg, world.second.second, world.second.first, &s);
        out[k] = st.ok() ? ComputeMotionMetrics(&s).ShortDebugString() : std::string(st.message());
      } else if (k == 4) {
        SegmentationMetricsIOU iou(seg);
        for (const auto& f : labels) iou.Update(f.first, f.second);
        out[k] = iou.ComputeIOU().ShortDebugString();
      } else if (k == 5) {
        for (const Config* c : {&det, &trk})
          for (const auto& x : GetBreakdownNamesFromConfig(*c)) out[k] += x + ",";
        for (const auto& x : GetBreakdownNamesFromMotionConfig(mo.cfg)) out[k] += x + ",";
        out[k] += EstimateScoreCutoffs(uncut, pds, gts).ShortDebugString() + EstimateScoreCutoffs(uncut, {tp}, {tg}).ShortDebugString();
      } else {
        Rng pr(point_seed);
        std::ostringstream os;
        os.precision(17);
        for (int i = 0; i < 20; ++i) {
          double u = 0, v = 0, depth = 0, x = 0, y = 0, z = 0;
          model.ImageToWorld(pr.uni(0, camera.c.width()), pr.uni(0, camera.c.height()), pr.uni(1, 60), &x, &y, &z);
          bool ok = model.WorldToImageMovingPointWithDepth(x, y, z, pr.uni(-9, 9), pr.uni(-9, 9), 0, false, &u, &v, &depth);
          os << ok << " " << u << " " << v << " " << depth << " ";
          ok = model.WorldToImageWithDepth(x, y, z, true, &u, &v, &depth);
          double fx = 0, fy = 0, fz = 0;
          model.ImageToVehicleGlobalShutter(pr.uni(0, camera.c.width()), pr.uni(0, camera.c.height()), pr.uni(1, 60), &fx, &fy, &fz);
          os << fx << " " << fy << " " << fz << " ";
          os << ok << " " << u << " " << v << " " << depth << " " << x << " " << y << " " << z << ";";
        }
        out[k] = os.str();
      }
    }
    return std::vector<std::string>(out, out + kParts);
  };
  const int n = r->range(2, 4);
  std::vector<std::vector<std::string>> got(n);
  std::vector<std::thread> ts;
  // All with the same part first, or each with another; at the same moment.
  const int first = r->range(0, kParts - 1), apart = r->chance(0.5);
  std::atomic<int> ready{0};
  for (int i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) {}
      got[i] = work(first + apart * i);
    });
  for (auto& x : ts) x.join();
  // Alone only afterwards: nothing that is set up on first use is ready when the threads start.
  const std::vector<std::string> want = work(0);
  static const char* const parts[] = {"detection", "tracking", "motion", "camera", "segmentation", "names"};
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < kParts; ++k) {
      size_t at = 0;
      while (at < got[i][k].size() && at < want[k].size() && got[i][k][at] == want[k][at]) ++at;
      const size_t from = at > 60 ? at - 60 : 0;
      VH_EXPECT(got[i][k] == want[k], std::string("thread_") + parts[k], "thread " << i << " of " << n << " differs: " << got[i][k].substr(from, 120) << " for " << want[k].substr(from, 120) << " on " << d);
    }
  vh::Count("thread_runs", n);
}
}  // namespace

int main(int argc, char** argv) {
  const char* w = getenv("VERIF_WHICH");
  if (w && std::string(w) == "threads") {
    // Threads come first in every process, before anything is set up.
    const auto after_threads = [](void (*fn)(Rng*)) {
      return [fn](Rng* r) {
        static bool begun = false;
        if (!begun) {
          begun = true;
          Rng copy = *r;
          ThreadsCase(&copy);
        }
        fn(r);
      };
    };
    return vh::Main(argc, argv, {{"threads", 1.0, ThreadsCase}, {"detection", 1.0, after_threads(DetectionCase)}, {"tracking", 1.0, after_threads(TrackingCase)}, {"motion", 1.0, after_threads(MotionCase)}});
  }
  return vh::Main(argc, argv, {{"detection", 1.0, DetectionCase}, {"tracking", 1.0, TrackingCase}, {"motion", 1.0, MotionCase}, {"match", 2.0, MatchCase}, {"camera", 1.0, CameraCase}, {"refused", 1.0, RefusedCase}});
}
