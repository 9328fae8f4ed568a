// Random detection / tracking scenes and metrics configurations.
#ifndef VERIF_SCENE_H_
#define VERIF_SCENE_H_
#include <algorithm>
#include <numeric>

#include "gen.h"
#include "ref_breakdown.h"
#include "vh.h"

namespace scene {
using namespace waymo::open_dataset;
using vh::Rng;

struct SFrame {
  std::vector<Object> pds, gts;
};

inline Label::Type RandType(Rng* r, int num_types, bool unknown) {
  static const Label::Type kT[] = {Label::TYPE_VEHICLE, Label::TYPE_PEDESTRIAN, Label::TYPE_SIGN, Label::TYPE_CYCLIST};
  if (unknown && r->chance(0.05)) return Label::TYPE_UNKNOWN;
  return kT[r->range(0, num_types - 1)];
}
inline CameraName::Name RandCamera(Rng* r) { return static_cast<CameraName::Name>(r->chance(0.1) ? 0 : r->range(1, 5)); }

inline void Decorate(Rng* r, Object* o, bool images) {
  Label* l = o->mutable_object();
  if (r->chance(0.8)) {
    const double v = r->pick<double>({0, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 12.0});
    if (r->chance(0.5)) {
      l->mutable_metadata()->set_speed_x(v);
      l->mutable_metadata()->set_speed_y(0);
    } else {
      const double a = r->uni(-3.1, 3.1);
      l->mutable_metadata()->set_speed_x(v * std::cos(a) * 1.01);
      l->mutable_metadata()->set_speed_y(v * std::sin(a) * 1.01);
    }
    if (r->chance(0.1)) l->mutable_metadata()->clear_speed_y();
  }
  if (images) o->set_camera_name(RandCamera(r));
  if (!images && r->chance(0.4)) {
    static const char* k[] = {"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", "UNKNOWN", "REAR", ""};
    l->set_most_visible_camera_name(k[r->chance(0.1) ? r->range(5, 7) : r->range(0, 4)]);
  }
}

// Distinct scores, in the order given by a random permutation.
inline void SetScores(Rng* r, std::vector<SFrame>* frames) {
  std::vector<Object*> all;
  for (auto& f : *frames)
    for (auto& p : f.pds) all.push_back(&p);
  std::vector<int> rank(all.size());
  std::iota(rank.begin(), rank.end(), 1);
  r->shuffle(&rank);
  for (size_t i = 0; i < all.size(); ++i) all[i]->set_score(rank[i] / (all.size() + 1.0f));
  if (r->chance(0.2))  // Ground truths count whatever their score.
    for (auto& f : *frames)
      for (auto& g : f.gts) g.set_score(static_cast<float>(r->u()));
}

// tracking: ids persist over the frames.
inline std::vector<SFrame> RandFrames(Rng* r, Label::Box::Type bt, int max_frames, int max_objects, bool images, bool unknown_pds = false) {
  const int nf = r->range(1, max_frames);
  const double spread = r->pick<double>({3.0, 12.0, 45.0});
  const int nt = r->range(1, 4);
  const bool unknown = r->chance(0.3);
  std::vector<SFrame> frames(nf);
  for (auto& f : frames) {
    const int ng = r->chance(0.08) ? 0 : r->range(0, max_objects);
    for (int i = 0; i < ng; ++i) {
      Object o;
      *o.mutable_object()->mutable_box() = gen::RandBox(r, spread);
      auto* b = o.mutable_object()->mutable_box();
      if (r->chance(0.04)) {  // Exactly on a range boundary.
        b->set_center_x(r->pick<double>({18, 30, 0, 30, 40}) * r->pick<double>({1, -1}));
        b->set_center_y(b->center_x() == 0 ? 50 : (std::fabs(b->center_x()) == 18 ? 24 : (std::fabs(b->center_x()) == 40 ? 30 : 0)));
        b->set_center_z(0);
      }
      if (r->chance(0.05)) b->set_length(7);
      if (r->chance(0.05)) b->set_height(r->uni(6, 9));
      o.mutable_object()->set_type(RandType(r, nt, unknown));
      o.mutable_object()->set_id("g" + std::to_string(i));
      o.mutable_object()->set_detection_difficulty_level(static_cast<Label::DifficultyLevel>(r->range(0, 2)));
      o.mutable_object()->set_tracking_difficulty_level(static_cast<Label::DifficultyLevel>(r->range(0, 2)));
      if (r->chance(0.2)) {
        o.mutable_object()->clear_detection_difficulty_level();
        o.mutable_object()->clear_tracking_difficulty_level();
      }
      if (r->chance(0.3)) o.set_overlap_with_nlz(r->chance(0.3));
      Decorate(r, &o, images);
      if (!ref::NearBoundary(o)) f.gts.push_back(o);
    }
    int id = 0;
    auto add = [&](Object o) {
      o.mutable_object()->set_id("p" + std::to_string(id++));
      o.clear_overlap_with_nlz();
      if (r->chance(0.4)) o.set_overlap_with_nlz(r->chance(0.4));
      if (r->chance(0.7)) o.mutable_object()->clear_metadata();
      if (!ref::NearBoundary(o)) f.pds.push_back(o);
    };
    for (const Object& g : f.gts) {
      const int copies = r->pick<int>({0, 1, 1, 1, 2});
      for (int c = 0; c < copies; ++c) {
        Object o = g;
        *o.mutable_object()->mutable_box() = gen::Jitter(r, g.object().box(), r->pick<double>({0.02, 0.2, 0.5, 1.0}));
        if (r->chance(0.1)) o.mutable_object()->set_type(RandType(r, nt, unknown && unknown_pds));
        if (o.object().type() == Label::TYPE_UNKNOWN && !unknown_pds) continue;  // The matcher requires a type.
        if (r->chance(0.1)) Decorate(r, &o, images);
        add(o);
      }
    }
    for (int i = r->range(0, 3); i > 0; --i) {
      Object o;
      *o.mutable_object()->mutable_box() = gen::RandBox(r, spread);
      o.mutable_object()->set_type(RandType(r, nt, unknown && unknown_pds));
      Decorate(r, &o, images);
      add(o);
    }
    r->shuffle(&f.pds);
  }
  SetScores(r, &frames);
  (void)bt;
  return frames;
}

inline Config RandConfig(Rng* r, bool images, bool detection) {
  Config c;
  std::vector<Breakdown::GeneratorId> g = ref::Generators();
  r->shuffle(&g);
  const int ng = r->range(1, r->chance(0.3) ? 7 : 3);
  for (int i = 0; i < ng; ++i) {
    c.add_breakdown_generator_ids(g[i]);
    auto* d = c.add_difficulties();
    switch (r->range(0, 4)) {
      case 0:
        break;
      case 1:
        d->add_levels(Label::LEVEL_1);
        break;
      case 2:
        d->add_levels(Label::LEVEL_2);
        break;
      case 3:
        d->add_levels(Label::LEVEL_1);
        d->add_levels(Label::LEVEL_2);
        break;
      case 4:
        d->add_levels(Label::LEVEL_2);
        d->add_levels(Label::LEVEL_1);
        break;
    }
  }
  c.set_matcher_type(r->chance(0.5) ? MatcherProto::TYPE_HUNGARIAN : MatcherProto::TYPE_SCORE_FIRST);
  const double base = r->pick<double>({0.05, 0.3, 0.5, 0.7});
  c.add_iou_thresholds(0.0f);
  for (int i = 0; i < 4; ++i) c.add_iou_thresholds(base * r->uni(0.8, 1.2));
  if (r->chance(0.5)) c.set_iou_thresholds(0, 0.3f);
  c.set_box_type(images ? Label::Box::TYPE_AA_2D : (r->chance(0.5) ? Label::Box::TYPE_3D : Label::Box::TYPE_2D));
  if (r->chance(0.3)) c.set_include_details_in_measurements(true);
  if (detection) {
    if (r->chance(0.5)) c.set_desired_recall_delta(r->pick<float>({0.05f, 0.1f, 0.01f, 1.0f, 0.33f}));
    if (r->chance(0.3)) c.set_min_precision(r->pick<float>({0.05f, 0.35f}));
    if (r->chance(0.25)) c.set_min_heading_accuracy(r->pick<float>({0.3f, 0.9f, 0.97f}));
    if (!images && r->chance(0.25)) {
      auto* l = c.mutable_let_metric_config();
      l->set_enabled(true);
      l->mutable_sensor_location()->set_x(1.43);
      l->mutable_sensor_location()->set_y(0);
      l->mutable_sensor_location()->set_z(2.18);
      l->set_longitudinal_tolerance_percentage(0.1f);
      l->set_min_longitudinal_tolerance_meter(0.5f);
      if (r->chance(0.7))
        l->set_align_type(static_cast<Config::LongitudinalErrorTolerantConfig::AlignType>(r->range(1, 6)));
    }
  }
  return c;
}

inline std::string Describe(const Config& c, const std::vector<SFrame>& fs) {
  std::ostringstream o;
  o << "config{" << c.ShortDebugString() << "}";
  for (auto& f : fs) {
    o << " FRAME pds:";
    for (auto& p : f.pds)
      o << p.object().id() << "t" << p.object().type() << "s" << p.score() << "n" << p.overlap_with_nlz() << gen::Str(p.object().box()) << ";";
    o << " gts:";
    for (auto& p : f.gts)
      o << p.object().id() << "t" << p.object().type() << "d" << p.object().detection_difficulty_level() << gen::Str(p.object().box()) << ";";
  }
  return o.str();
}
}  // namespace scene
#endif
