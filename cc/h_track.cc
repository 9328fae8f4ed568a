// Monitors for multi object tracking metrics (C11): a CLEAR-MOT reference fed
// with the same frames, per breakdown shard, difficulty level and cutoff.
#include <set>

#include "scene.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"

using namespace waymo::open_dataset;
using scene::SFrame;
using vh::Rng;

struct Cell {
  int misses = 0, fps = 0, mismatches = 0, matches = 0, objects = 0;
  double cost = 0;
  struct D {
    std::set<std::string> tps, fps_counted, fps_all, fns_counted, fns_all;
  };
  std::vector<D> details;
};

// The mapping procedure of the CLEAR MOT paper on one shard.
static Cell RefMot(const Config& c, const std::vector<std::vector<Object>>& pds, const std::vector<SFrame>& fs, Breakdown::GeneratorId gen, int shard,
                   int level, float cutoff) {
  Cell cell;
  std::map<std::string, std::string> prev;  // gt -> pd
  for (size_t t = 0; t < fs.size(); ++t) {
    const auto &P = pds[t], &G = fs[t].gts;
    std::unique_ptr<Matcher> m = Matcher::Create(c);
    m->SetPredictions(P);
    m->SetGroundTruths(G);
    std::map<std::string, int> pi, gi;
    for (size_t i = 0; i < P.size(); ++i)
      if (P[i].score() >= cutoff && ref::Shard(gen, P[i]) == shard) pi[P[i].object().id()] = i;
    for (size_t i = 0; i < G.size(); ++i)
      if (ref::Shard(gen, G[i]) == shard) gi[G[i].object().id()] = i;
    std::map<std::string, std::string> now;
    std::set<std::string> used;
    for (auto& kv : prev) {
      auto g = gi.find(kv.first);
      auto p = pi.find(kv.second);
      if (g == gi.end() || p == pi.end()) continue;
      if (!m->CanMatch(p->second, g->second)) continue;
      now[kv.first] = kv.second;
      used.insert(kv.second);
      cell.cost += 1.0 - m->IoU(p->second, g->second);
      vh::Count("kept_matches");
    }
    std::vector<int> ps, gs;
    for (auto& kv : pi)
      if (!used.count(kv.first)) ps.push_back(kv.second);
    for (auto& kv : gi)
      if (!now.count(kv.first)) gs.push_back(kv.second);
    m->SetPredictionSubset(ps);
    m->SetGroundTruthSubset(gs);
    std::vector<int> pm, gm;
    m->Match(&pm, &gm);
    Cell::D d;
    for (size_t i = 0; i < ps.size(); ++i) {
      const std::string& id = P[ps[i]].object().id();
      if (pm[i] >= 0) {
        now[G[gs[pm[i]]].object().id()] = id;
        cell.cost += 1.0 - m->IoU(ps[i], gs[pm[i]]);
      } else {
        d.fps_all.insert(id);
        if (!P[ps[i]].overlap_with_nlz()) {
          ++cell.fps;
          d.fps_counted.insert(id);
        } else {
          vh::Count("nlz_excused");
        }
      }
    }
    int above = 0;
    for (size_t j = 0; j < gs.size(); ++j) {
      if (gm[j] >= 0) continue;
      const std::string& id = G[gs[j]].object().id();
      d.fns_all.insert(id);
      if (static_cast<int>(G[gs[j]].object().tracking_difficulty_level()) <= level) {
        ++cell.misses;
        d.fns_counted.insert(id);
      } else {
        ++above;
      }
    }
    cell.objects += gi.size() - above;
    cell.matches += now.size();
    // Mismatches: a ground truth follows another prediction than before, or a
    // prediction is taken from a ground truth which is no longer there.
    std::map<std::string, std::string> owner;
    for (auto& kv : prev) owner[kv.second] = kv.first;
    for (auto& kv : now) {
      auto it = prev.find(kv.first);
      if (it != prev.end() && it->second != kv.second) {
        ++cell.mismatches;
        vh::Count("mismatch_switch");
      }
      auto ow = owner.find(kv.second);
      if (ow != owner.end() && ow->second != kv.first && !gi.count(ow->second)) {
        ++cell.mismatches;
        vh::Count("mismatch_evicted");
      }
    }
    for (auto& kv : now) {
      auto ow = owner.find(kv.second);
      if (ow != owner.end() && ow->second != kv.first && !now.count(ow->second)) prev.erase(ow->second);
    }
    for (auto& kv : now) prev[kv.first] = kv.second;
    for (auto& kv : now) d.tps.insert(kv.first + "<" + kv.second);
    cell.details.push_back(d);
  }
  return cell;
}

struct RefM {
  Breakdown::GeneratorId gen;
  int shard, level;
  std::vector<Cell> cells;
};

static std::vector<std::vector<Object>> WithSpeed(const Config& c, const std::vector<SFrame>& fs) {
  std::vector<std::vector<Object>> out;
  for (auto& f : fs) out.push_back(f.pds);
  bool velocity = false;
  for (auto id : c.breakdown_generator_ids()) velocity |= id == Breakdown::VELOCITY;
  if (!velocity) return out;
  // Predictions without speed take the speed of the nearest ground truth.
  bool has = true;
  for (auto& f : out)
    if (!f.empty()) {
      has = f[0].object().metadata().has_speed_x();
      break;
    }
  if (has) return out;
  vh::Count("speed_estimated");
  for (size_t t = 0; t < out.size(); ++t)
    for (Object& p : out[t]) {
      double vx = 0, vy = 0, best = 1e300;
      for (auto& g : fs[t].gts) {
        const auto &a = p.object().box(), &b = g.object().box();
        const double d = std::hypot(std::hypot(a.center_x() - b.center_x(), a.center_y() - b.center_y()), a.center_z() - b.center_z());
        if (d < best) {
          best = d;
          vx = g.object().metadata().speed_x();
          vy = g.object().metadata().speed_y();
        }
      }
      p.mutable_object()->mutable_metadata()->set_speed_x(vx);
      p.mutable_object()->mutable_metadata()->set_speed_y(vy);
    }
  return out;
}

static std::vector<RefM> RefScene(const Config& c, const std::vector<SFrame>& fs) {
  const auto pds = WithSpeed(c, fs);
  std::vector<RefM> out;
  for (int gi = 0; gi < c.breakdown_generator_ids_size(); ++gi)
    for (int s = 0; s < ref::NumShards(c.breakdown_generator_ids(gi)); ++s)
      for (int l : ref::Levels(c, gi)) {
        RefM m{c.breakdown_generator_ids(gi), s, l, {}};
        for (float cut : c.score_cutoffs()) m.cells.push_back(RefMot(c, pds, fs, m.gen, s, l, cut));
        out.push_back(m);
      }
  return out;
}

static void CompareM(const Config& c, const TrackingMeasurement& g, const Cell& w, const std::string& ctx) {
  VH_EXPECT(g.num_misses() == w.misses, "misses", g.num_misses() << " want " << w.misses << " " << ctx);
  VH_EXPECT(g.num_fps() == w.fps, "fps", g.num_fps() << " want " << w.fps << " " << ctx);
  VH_EXPECT(g.num_mismatches() == w.mismatches, "mismatches", g.num_mismatches() << " want " << w.mismatches << " " << ctx);
  VH_EXPECT(g.num_matches() == w.matches, "matches", g.num_matches() << " want " << w.matches << " " << ctx);
  VH_EXPECT(g.num_objects_gt() == w.objects, "objects_gt", g.num_objects_gt() << " want " << w.objects << " " << ctx);
  VH_EXPECT(g.num_objects_gt() == g.num_matches() + g.num_misses(), "conservation", g.ShortDebugString() << " " << ctx);
  VH_EXPECT(vh::Near(g.matching_cost(), w.cost, 1e-5), "matching_cost", g.matching_cost() << " want " << w.cost << " " << ctx);
  if (!c.include_details_in_measurements()) {
    VH_EXPECT(g.details_size() == 0, "details_unasked", ctx);
    return;
  }
  VH_EXPECT(g.details_size() == static_cast<int>(w.details.size()), "details_frames", g.details_size() << " want " << w.details.size() << " " << ctx);
  if (g.details_size() != static_cast<int>(w.details.size())) return;
  for (int k = 0; k < g.details_size(); ++k) {
    const auto& d = g.details(k);
    const Cell::D& wd = w.details[k];
    bool ok = d.tp_gt_ids_size() == d.tp_pred_ids_size();
    std::set<std::string> tps;
    for (int i = 0; ok && i < d.tp_gt_ids_size(); ++i) tps.insert(d.tp_gt_ids(i) + "<" + d.tp_pred_ids(i));
    ok = ok && tps == wd.tps && d.tp_gt_ids_size() == static_cast<int>(tps.size());
    const std::set<std::string> fp(d.fp_pred_ids().begin(), d.fp_pred_ids().end()), fn(d.fn_gt_ids().begin(), d.fn_gt_ids().end());
    // Excused objects may or may not be listed.
    ok = ok && std::includes(fp.begin(), fp.end(), wd.fps_counted.begin(), wd.fps_counted.end()) &&
         std::includes(wd.fps_all.begin(), wd.fps_all.end(), fp.begin(), fp.end()) &&
         std::includes(fn.begin(), fn.end(), wd.fns_counted.begin(), wd.fns_counted.end()) &&
         std::includes(wd.fns_all.begin(), wd.fns_all.end(), fn.begin(), fn.end()) && static_cast<int>(fp.size()) == d.fp_pred_ids_size() &&
         static_cast<int>(fn.size()) == d.fn_gt_ids_size();
    VH_EXPECT(ok, "details", "frame " << k << " " << d.ShortDebugString() << " " << ctx);
    vh::Count("details_checked");
  }
}

// Tracks over time: ids persist, with switches, gaps and births.
static std::vector<SFrame> TrackScene(Rng* r, const Config& c, int max_frames, int max_objects) {
  const int nf = r->range(1, max_frames), ng = r->range(1, max_objects);
  const double spread = r->pick<double>({2.5, 8.0, 30.0});
  const int nt = r->range(1, 4);
  std::vector<SFrame> fs(nf);
  struct Tr {
    Object gt;
    double vx, vy;
    std::string pd_id;
    bool lost = false;
  };
  std::vector<Tr> tr(ng);
  const bool speeds = r->chance(0.5), others = r->chance(0.3), stacked = r->chance(0.2);
  for (int i = 0; i < ng; ++i) {
    Object& o = tr[i].gt;
    *o.mutable_object()->mutable_box() = gen::RandBox(r, spread);
    if (stacked && i > 0) {  // One above the other, as on a bridge.
      const auto& below = tr[i - 1].gt.object().box();
      o.mutable_object()->mutable_box()->set_center_x(below.center_x() + r->uni(-0.3, 0.3));
      o.mutable_object()->mutable_box()->set_center_y(below.center_y() + r->uni(-0.3, 0.3));
      o.mutable_object()->mutable_box()->set_center_z(below.center_z() + r->uni(-6, 6));
    }
    o.mutable_object()->set_type(scene::RandType(r, nt, false));
    o.mutable_object()->set_id("g" + std::to_string(i));
    o.mutable_object()->set_tracking_difficulty_level(static_cast<Label::DifficultyLevel>(r->range(0, 2)));
    o.mutable_object()->set_detection_difficulty_level(static_cast<Label::DifficultyLevel>(r->range(0, 2)));
    tr[i].vx = r->pick<double>({0, 0, 0.3, 2, 6}) * r->uni(-1, 1);
    tr[i].vy = r->pick<double>({0, 0, 0.3, 2, 6}) * r->uni(-1, 1);
    o.mutable_object()->mutable_metadata()->set_speed_x(tr[i].vx);
    o.mutable_object()->mutable_metadata()->set_speed_y(tr[i].vy);
    tr[i].pd_id = "p" + std::to_string(i);
  }
  int next_id = ng;
  const double drop = r->pick<double>({0.05, 0.3}), sw = r->pick<double>({0.05, 0.3}), gone = r->pick<double>({0.02, 0.2});
  const double noise = r->pick<double>({0.05, 0.4, 0.8});
  for (auto& f : fs) {
    for (auto& t : tr) {
      // Ids move between tracks.
      if (r->chance(sw)) {
        if (r->chance(0.5)) {
          std::swap(t.pd_id, tr[r->range(0, ng - 1)].pd_id);
        } else {
          t.pd_id = "p" + std::to_string(next_id++);
        }
      }
    }
    for (auto& t : tr) {
      auto* b = t.gt.mutable_object()->mutable_box();
      b->set_center_x(b->center_x() + 0.1 * t.vx);
      b->set_center_y(b->center_y() + 0.1 * t.vy);
      if (r->chance(gone)) t.lost = !t.lost;
      if (!t.lost && !ref::NearBoundary(t.gt)) f.gts.push_back(t.gt);
      if (r->chance(drop)) continue;
      if (t.lost && r->chance(0.4)) continue;
      Object p = t.gt;
      *p.mutable_object()->mutable_box() = gen::Jitter(r, t.gt.object().box(), noise);
      p.mutable_object()->set_id(t.pd_id);
      if (!speeds) {
        p.mutable_object()->clear_metadata();
        if (others) p.mutable_object()->mutable_metadata()->set_accel_x(0.5);
      }
      if (r->chance(0.3)) p.set_overlap_with_nlz(r->chance(0.4));
      if (!ref::NearBoundary(p)) f.pds.push_back(p);
    }
    if (r->chance(0.3)) {
      Object p;
      *p.mutable_object()->mutable_box() = gen::RandBox(r, spread);
      p.mutable_object()->set_type(scene::RandType(r, nt, false));
      p.mutable_object()->set_id("x" + std::to_string(r->range(0, 3)));
      if (speeds) {
        p.mutable_object()->mutable_metadata()->set_speed_x(1.5);
        p.mutable_object()->mutable_metadata()->set_speed_y(0);
      }
      if (!ref::NearBoundary(p)) f.pds.push_back(p);
    }
    if (r->chance(0.05)) f.pds.clear();
    r->shuffle(&f.pds);
    r->shuffle(&f.gts);
  }
  if (r->chance(0.15)) fs[0].pds.clear();
  scene::SetScores(r, &fs);
  (void)c;
  return fs;
}

static std::string Desc(const Config& c, const std::vector<std::vector<SFrame>>& scenes) {
  std::string s;
  for (auto& f : scenes) s += " SCENE " + scene::Describe(c, f);
  return s;
}

static void CheckMetrics(const TrackingMetrics& m, const std::string& desc) {
  // The cutoff with the best accuracy.
  double best = 0;
  const TrackingMeasurement* arg = nullptr;
  bool close = false, zero = false;
  for (auto& x : m.measurements().measurements()) {
    if (x.num_objects_gt() == 0) continue;
    const double mota = 1.0 - (x.num_misses() + x.num_fps() + x.num_mismatches()) / static_cast<double>(x.num_objects_gt());
    if (arg && std::fabs(mota - best) < 1e-6 &&
        (x.num_misses() != arg->num_misses() || x.num_fps() != arg->num_fps() || x.num_mismatches() != arg->num_mismatches() ||
         x.num_objects_gt() != arg->num_objects_gt()))
      close = true;
    if (!arg && std::fabs(mota) < 1e-6) zero = true;  // Rounding decides.
    if (mota > best + 1e-9) {
      close = std::fabs(mota - best) < 1e-6;
      best = mota;
      arg = &x;
    }
  }
  VH_EXPECT(vh::Near(m.mota(), best, 1e-5), "mota", m.mota() << " want " << best << " " << m.ShortDebugString());
  if (!arg) {
    VH_EXPECT(zero || !m.has_score_cutoff(), "no_cutoff", m.ShortDebugString());
    return;
  }
  VH_EXPECT(m.mota() <= 1.0, "mota_range", m.ShortDebugString());
  vh::Count("mota_positive");
  if (close) return;
  VH_EXPECT(m.score_cutoff() == arg->score_cutoff(), "best_cutoff", m.ShortDebugString());
  const double n = arg->num_objects_gt();
  VH_EXPECT(vh::Near(m.miss(), arg->num_misses() / n, 1e-5), "miss_ratio", m.ShortDebugString());
  VH_EXPECT(vh::Near(m.fp(), arg->num_fps() / n, 1e-5), "fp_ratio", m.ShortDebugString());
  VH_EXPECT(vh::Near(m.mismatch(), arg->num_mismatches() / n, 1e-5), "mismatch_ratio", m.ShortDebugString());
  VH_EXPECT(vh::Near(m.motp(), arg->num_matches() > 0 ? arg->matching_cost() / arg->num_matches() : 0, 1e-5), "motp", m.ShortDebugString());
  bool seen = false;
  for (auto& x : m.measurements().measurements()) seen |= x.num_objects_gt() == m.num_objects_gt();
  VH_EXPECT(seen, "metrics_objects_gt", m.ShortDebugString());
  (void)desc;
}

static void Track(Rng* r, int max_frames, int max_objects, int max_scenes) {
  Config c = scene::RandConfig(r, false, false);
  if (c.breakdown_generator_ids_size() > 4) {
    c.mutable_breakdown_generator_ids()->Truncate(4);
    while (c.difficulties_size() > 4) c.mutable_difficulties()->RemoveLast();
  }
  std::vector<std::vector<SFrame>> scenes;
  const int ns = r->range(1, max_scenes);
  for (int i = 0; i < ns; ++i) scenes.push_back(TrackScene(r, c, max_frames, max_objects));
  if (r->chance(0.15)) {  // A scene without frames takes nothing away.
    scenes.insert(scenes.begin() + r->range(0, ns), std::vector<SFrame>());
    vh::Count("empty_scenes");
  }
  const bool estimate = r->chance(0.25);
  std::vector<std::vector<std::vector<Object>>> pds, gts;
  std::vector<float> scores;
  for (auto& s : scenes) {
    pds.emplace_back();
    gts.emplace_back();
    for (auto& f : s) {
      pds.back().push_back(f.pds);
      gts.back().push_back(f.gts);
      for (auto& p : f.pds) scores.push_back(p.score());
    }
  }
  std::sort(scores.begin(), scores.end());
  if (estimate) {
    c.set_num_desired_score_cutoffs(r->range(1, 6));
  } else {
    for (int i = r->range(1, 4); i > 0; --i) c.add_score_cutoffs(r->chance(0.3) ? 0.0f : static_cast<float>(r->u()));
    if (!scores.empty() && r->chance(0.4)) c.add_score_cutoffs(r->pick(scores));
    if (r->chance(0.9)) std::sort(c.mutable_score_cutoffs()->begin(), c.mutable_score_cutoffs()->end());
  }
  const std::string desc = Desc(c, scenes);
  vh::Crumb(desc);
  Config used = c;
  if (estimate) {
    used = EstimateScoreCutoffs(c, pds, gts);
    const std::vector<float> want = internal::DecideScoreCutoffs(scores, c.num_desired_score_cutoffs());
    VH_EXPECT(std::vector<float>(used.score_cutoffs().begin(), used.score_cutoffs().end()) == want, "estimated_cutoffs", used.ShortDebugString() << desc);
    vh::Count("cutoffs_estimated");
  }
  std::vector<std::vector<TrackingMeasurements>> per_scene;
  std::vector<RefM> total;
  for (size_t i = 0; i < scenes.size(); ++i) {
    const auto got = ComputeTrackingMeasurements(used, pds[i], gts[i]);
    if (scenes[i].empty()) {
      for (const auto& m : got)
        for (const auto& x : m.measurements())
          VH_EXPECT(x.num_misses() + x.num_fps() + x.num_mismatches() + x.num_matches() + x.num_objects_gt() == 0, "empty_scene", m.ShortDebugString());
      per_scene.push_back(got);
      continue;
    }
    const std::vector<RefM> want = RefScene(used, scenes[i]);
    VH_EXPECT(got.size() == want.size(), "measurement_count", got.size() << " want " << want.size() << " " << desc);
    if (got.size() != want.size()) return;
    for (size_t k = 0; k < got.size(); ++k) {
      const auto& b = got[k].breakdown();
      VH_EXPECT(b.generator_id() == want[k].gen && b.shard() == want[k].shard && static_cast<int>(b.difficulty_level()) == want[k].level, "measurement_order",
                b.ShortDebugString() << " at " << k << " " << desc);
      VH_EXPECT(got[k].measurements_size() == used.score_cutoffs_size(), "cutoff_count", desc);
      for (int j = 0; j < got[k].measurements_size() && j < used.score_cutoffs_size(); ++j) {
        VH_EXPECT(got[k].measurements(j).score_cutoff() == used.score_cutoffs(j), "cutoff_value", desc);
        CompareM(used, got[k].measurements(j), want[k].cells[j], b.ShortDebugString() + " cutoff " + std::to_string(used.score_cutoffs(j)) + " scene " + std::to_string(i) + desc);
      }
    }
    per_scene.push_back(got);
    if (total.empty()) {
      total = want;
    } else {
      for (size_t k = 0; k < want.size(); ++k)
        for (size_t j = 0; j < want[k].cells.size(); ++j) {
          Cell& a = total[k].cells[j];
          const Cell& b = want[k].cells[j];
          a.misses += b.misses;
          a.fps += b.fps;
          a.mismatches += b.mismatches;
          a.matches += b.matches;
          a.objects += b.objects;
          a.cost += b.cost;
          a.details.insert(a.details.end(), b.details.begin(), b.details.end());
        }
    }
  }
  for (int way = 0; way < 2; ++way) {
    const auto metrics = way ? ComputeTrackingMetrics(c, per_scene) : ComputeTrackingMetrics(c, pds, gts);
    VH_EXPECT(metrics.size() == total.size(), "metrics_count", desc);
    if (metrics.size() != total.size()) return;
    for (size_t k = 0; k < metrics.size(); ++k) {
      const auto& b = metrics[k].breakdown();
      VH_EXPECT(b.generator_id() == total[k].gen && b.shard() == total[k].shard && static_cast<int>(b.difficulty_level()) == total[k].level, "metrics_order", desc);
      VH_EXPECT(metrics[k].measurements().measurements_size() == used.score_cutoffs_size(), "metrics_cutoffs", desc);
      for (int j = 0; j < metrics[k].measurements().measurements_size(); ++j)
        CompareM(used, metrics[k].measurements().measurements(j), total[k].cells[j], "merged way " + std::to_string(way) + desc);
      CheckMetrics(metrics[k], desc);
    }
  }
  bool some = false;
  for (auto& m : total)
    for (auto& x : m.cells) some |= x.matches > 0;
  if (some) vh::Nontrivial(vh::Hash(desc));
  vh::Count("scenes", scenes.size());
  vh::Sample(desc);
}

// A tracker object used on its own, many frames, one shard.
static void LongMot(Rng* r) {
  Config c = scene::RandConfig(r, false, false);
  c.clear_breakdown_generator_ids();
  c.clear_difficulties();
  c.add_breakdown_generator_ids(Breakdown::ONE_SHARD);
  c.add_difficulties();
  const auto fs = TrackScene(r, c, 40, 8);
  const int level = r->range(1, 2);
  const std::string desc = scene::Describe(c, fs);
  vh::Crumb(desc);
  MOT mot;
  std::vector<std::vector<Object>> pds;
  for (auto& f : fs) pds.push_back(f.pds);
  for (size_t t = 0; t < fs.size(); ++t) {
    std::unique_ptr<Matcher> m = Matcher::Create(c);
    m->SetPredictions(pds[t]);
    m->SetGroundTruths(fs[t].gts);
    std::vector<int> ps(pds[t].size()), gs(fs[t].gts.size());
    std::iota(ps.begin(), ps.end(), 0);
    std::iota(gs.begin(), gs.end(), 0);
    r->shuffle(&ps);
    r->shuffle(&gs);
    m->SetPredictionSubset(ps);
    m->SetGroundTruthSubset(gs);
    mot.Eval(m.get(), static_cast<Label::DifficultyLevel>(level), c.include_details_in_measurements());
  }
  CompareM(c, mot.measurement(), RefMot(c, pds, fs, Breakdown::ONE_SHARD, 0, level, -1.0f), desc);
  vh::Count("long_frames", fs.size());
  vh::Nontrivial(vh::Hash(desc));
}

int main(int argc, char** argv) {
  return vh::Main(argc, argv,
                  {{"track_short", 1.0, [](Rng* r) { Track(r, 4, 4, 3); }},
                   {"track_dense", 0.3, [](Rng* r) { Track(r, 8, 7, 2); }},
                   {"mot_long", 2.0, LongMot}});
}
