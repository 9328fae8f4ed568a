// Monitors for the assignment solver and the prediction/ground-truth matchers.
// Groups starting with "hung" decide C02, those starting with "match" C01.
#include <memory>
#include <numeric>

#include "gen.h"
#include "ref_assign.h"
#include "vh.h"
#include "waymo_open_dataset/metrics/hungarian.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"

using namespace waymo::open_dataset;
using vh::Rng;
typedef Config::LongitudinalErrorTolerantConfig Let;

static std::string MatStr(const std::vector<int>& e, int n) {
  std::ostringstream o;
  o << n << ":";
  for (size_t i = 0; i < e.size() && i < 500; ++i) o << e[i] << ",";
  return o.str();
}

static void HungarianCase(Rng* r, int max_n) {
  const int n = r->range(1, max_n);
  std::vector<int> e(n * n);
  const int kind = r->range(0, 8);
  const int top = kind == 8 ? 500000000 : r->pick<int>({1, 3, 10, 1000, 1000000});
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      int v = 0;
      switch (kind) {
        case 0:
          v = r->range(0, top);
          break;
        case 1:  // Sparse: as the matcher makes it.
          v = r->chance(2.0 / n) ? r->range(0, top) : 0;
          break;
        case 2:  // Every greedy choice is wrong.
          v = (i + 1) * (j + 1);
          break;
        case 3:
          v = (n - std::abs(i - j)) * top / n;
          break;
        case 4:  // Few distinct values.
          v = r->range(0, 2) * top;
          break;
        case 5:  // Padded rows or columns.
          v = (i < (n + 1) / 2) ? r->range(0, top) : 0;
          break;
        case 6:
          v = (j < (n + 1) / 2 && r->chance(0.5)) ? r->range(0, top) : 0;
          break;
        case 7:  // Constant rows plus noise.
          v = (i % 3) * top / 3 + r->range(0, 1);
          break;
        case 8:
          v = r->range(0, top);
          break;
      }
      e[i * n + j] = v;
    }
  vh::Crumb("Hungarian " + MatStr(e, n));
  const std::vector<int> before = e;
  std::vector<int> perm(n, -7), lx(n, -7), ly(n, -7), perm2(n, -7);
  Hungarian(n, e.data(), perm.data(), lx.data(), ly.data());
  Hungarian(n, e.data(), perm2.data());
  VH_EXPECT(e == before, "input_changed", MatStr(before, n));
  std::vector<int> seen(n, 0);
  long long got = 0, got2 = 0;
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    if (perm[i] < 0 || perm[i] >= n || perm2[i] < 0 || perm2[i] >= n || seen[perm[i]]++) {
      ok = false;
      break;
    }
    got += e[i * n + perm[i]];
    got2 += e[i * n + perm2[i]];
  }
  VH_EXPECT(ok, "not_a_permutation", MatStr(e, n) << " perm " << MatStr(perm, n));
  if (!ok) return;
  const long long best = ref::MaxWeightAssignment(n, e);
  VH_EXPECT(got == best, "not_optimal", "got " << got << " best " << best << " " << MatStr(e, n));
  VH_EXPECT(got2 == best, "not_optimal", "got " << got2 << " best " << best << " " << MatStr(e, n));
  long long dual = 0;
  for (int i = 0; i < n; ++i) {
    dual += static_cast<long long>(lx[i]) + ly[i];
    for (int j = 0; j < n; ++j)
      VH_EXPECT(static_cast<long long>(lx[i]) + ly[j] >= e[i * n + j], "labeling_infeasible",
                "i " << i << " j " << j << " " << MatStr(e, n));
  }
  VH_EXPECT(dual == best, "labeling_not_tight", "dual " << dual << " best " << best);
  vh::Count("hungarian_n_total", n);
  if (n > 1) vh::Nontrivial(vh::Hash(MatStr(e, n)));
  vh::Sample("n=" + std::to_string(n) + " kind=" + std::to_string(kind) + " best=" + std::to_string(best));
}

struct Scene {
  std::vector<Object> pds, gts;
};

static Scene MakeScene(Rng* r, Label::Box::Type bt) {
  Scene s;
  const int ng = r->chance(0.08) ? 0 : r->range(1, r->chance(0.1) ? 30 : 9);
  const double spread = r->pick<double>({2.0, 6.0, 30.0});
  const int num_types = r->range(1, 4);
  auto rand_type = [&]() {
    static const Label::Type kT[] = {Label::TYPE_VEHICLE, Label::TYPE_PEDESTRIAN, Label::TYPE_SIGN,
                                     Label::TYPE_CYCLIST};
    return kT[r->range(0, num_types - 1)];
  };
  for (int i = 0; i < ng; ++i) {
    Object o;
    *o.mutable_object()->mutable_box() = gen::RandBox(r, spread);
    o.mutable_object()->set_type(rand_type());
    s.gts.push_back(o);
  }
  std::vector<float> scores;
  const int np_extra = r->range(0, 4);
  for (int i = 0; i < ng; ++i) {
    const int copies = r->pick<int>({0, 1, 1, 1, 2, 3});
    for (int c = 0; c < copies; ++c) {
      Object o = s.gts[i];
      *o.mutable_object()->mutable_box() = gen::Jitter(r, s.gts[i].object().box(), r->pick<double>({0.0, 0.2, 0.5, 1.0}));
      if (r->chance(0.1)) o.mutable_object()->set_type(rand_type());
      s.pds.push_back(o);
    }
  }
  for (int i = 0; i < np_extra; ++i) {
    Object o;
    *o.mutable_object()->mutable_box() = gen::RandBox(r, spread);
    o.mutable_object()->set_type(rand_type());
    s.pds.push_back(o);
  }
  r->shuffle(&s.pds);
  // Distinct scores: the order among equal scores is unspecified.
  std::vector<int> rank(s.pds.size());
  std::iota(rank.begin(), rank.end(), 1);
  r->shuffle(&rank);
  for (size_t i = 0; i < s.pds.size(); ++i) s.pds[i].set_score(rank[i] / (s.pds.size() + 1.0f));
  (void)bt;
  return s;
}

static std::vector<int> RandSubset(Rng* r, int n) {
  std::vector<int> v(n);
  std::iota(v.begin(), v.end(), 0);
  if (r->chance(0.3)) return v;
  r->shuffle(&v);
  v.resize(r->range(0, n));
  if (r->chance(0.5)) std::sort(v.begin(), v.end());
  return v;
}

static std::string SceneStr(const Scene& s, const std::vector<int>& ps, const std::vector<int>& gs) {
  std::ostringstream o;
  o << "pds:";
  for (auto& p : s.pds) o << p.object().type() << gen::Str(p.object().box()) << "s" << p.score() << ";";
  o << " gts:";
  for (auto& p : s.gts) o << p.object().type() << gen::Str(p.object().box()) << ";";
  o << " psub:";
  for (int i : ps) o << i << ",";
  o << " gsub:";
  for (int i : gs) o << i << ",";
  return o.str();
}

struct Model {
  std::vector<float> thr;
  Label::Box::Type bt;
  bool let = false;
  Let let_config;

  float Iou(const Object& p, const Object& g) const {
    if (p.object().type() != g.object().type()) return 0.0f;
    return let ? ComputeLetIoU(p.object().box(), g.object().box(), let_config.sensor_location(),
                               let_config.align_type(), bt)
               : ComputeIoU(p.object().box(), g.object().box(), bt);
  }
  float Aff(const Object& p, const Object& g) const {
    if (!let) return 1.0f;
    if (p.object().type() != g.object().type()) return 0.0f;
    return ComputeLongitudinalAffinity(p.object().box(), g.object().box(), let_config);
  }
  bool Can(const Object& p, const Object& g) const {
    if (let && Aff(p, g) == 0.0f) return false;
    return Iou(p, g) >= thr[p.object().type()];
  }
  int Weight(const Object& p, const Object& g) const {
    float w = Iou(p, g);
    if (let) w *= Aff(p, g);
    return std::round(w * 1000000);
  }
};

static void CheckMatch(Rng* r, Matcher* m, const Model& model, MatcherProto::Type type, const Scene& s,
                       const std::vector<int>& ps, const std::vector<int>& gs) {
  const int P = ps.size(), G = gs.size();
  const std::string desc = SceneStr(s, ps, gs) + " type " + std::to_string(type) + " box " +
                           std::to_string(model.bt) + " let " + std::to_string(model.let);
  vh::Crumb(desc);
  std::vector<int> pm, gm;
  if (r->chance(0.4)) {  // Output vectors may hold anything before the call.
    pm.assign(r->range(0, 12), r->range(-1, 5));
    gm.assign(r->range(0, 12), r->range(-1, 5));
  }
  const int nulls = r->range(0, 9);
  m->Match(&pm, &gm);
  VH_EXPECT(static_cast<int>(pm.size()) == P && static_cast<int>(gm.size()) == G, "match_size",
            pm.size() << "," << gm.size() << " " << desc);
  if (static_cast<int>(pm.size()) != P || static_cast<int>(gm.size()) != G) return;
  if (nulls == 0) {
    std::vector<int> pm2;
    m->Match(&pm2, nullptr);
    VH_EXPECT(pm2 == pm, "match_null_output", desc);
  } else if (nulls == 1) {
    std::vector<int> gm2;
    m->Match(nullptr, &gm2);
    VH_EXPECT(gm2 == gm, "match_null_output", desc);
  } else if (nulls == 2) {
    m->Match(nullptr, nullptr);
  }
  // One-to-one, both directions agree, and only matchable pairs.
  long long total = 0;
  int matched = 0;
  bool ok = true;
  for (int i = 0; i < P; ++i) {
    if (pm[i] == -1) continue;
    if (pm[i] < 0 || pm[i] >= G || gm[pm[i]] != i) {
      ok = false;
      break;
    }
    ++matched;
    const Object &p = s.pds[ps[i]], &g = s.gts[gs[pm[i]]];
    VH_EXPECT(model.Can(p, g), "match_below_threshold", "p " << i << " g " << pm[i] << " iou " << model.Iou(p, g) << " " << desc);
    VH_EXPECT(p.object().type() == g.object().type() || model.thr[p.object().type()] <= 0, "match_type", desc);
    total += model.Weight(p, g);
  }
  for (int j = 0; ok && j < G; ++j) {
    if (gm[j] == -1) continue;
    if (gm[j] < 0 || gm[j] >= P || pm[gm[j]] != j) ok = false;
  }
  VH_EXPECT(ok, "match_inconsistent", desc);
  if (!ok) return;
  if (type == MatcherProto::TYPE_HUNGARIAN) {
    const int n = std::max(1, std::max(P, G));
    std::vector<int> e(n * n, 0);
    for (int i = 0; i < P; ++i)
      for (int j = 0; j < G; ++j)
        if (model.Can(s.pds[ps[i]], s.gts[gs[j]])) e[i * n + j] = model.Weight(s.pds[ps[i]], s.gts[gs[j]]);
    const long long best = ref::MaxWeightAssignment(n, e);
    VH_EXPECT(total == best, "match_not_max_weight", "got " << total << " best " << best << " " << desc);
  } else {
    std::vector<int> order(P), epm(P, -1), egm(G, -1);
    std::iota(order.begin(), order.end(), 0);
    std::sort(order.begin(), order.end(), [&](int a, int b) { return s.pds[ps[a]].score() > s.pds[ps[b]].score(); });
    bool tie = false;
    for (int i : order) {
      int best = -1, bw = -1;
      for (int j = 0; j < G; ++j) {
        if (egm[j] != -1 || !model.Can(s.pds[ps[i]], s.gts[gs[j]])) continue;
        const int w = model.Weight(s.pds[ps[i]], s.gts[gs[j]]);
        if (w == bw) tie = true;
        if (w > bw) {
          bw = w;
          best = j;
        }
      }
      if (best >= 0) {
        epm[i] = best;
        egm[best] = i;
      }
    }
    if (!tie) VH_EXPECT(epm == pm && egm == gm, "match_not_score_first", desc << " got " << MatStr(pm, P) << " want " << MatStr(epm, P));
  }
  vh::Count("match_pairs", matched);
  if (P && G) {
    vh::Count("match_nonempty");
    if (matched) vh::Nontrivial(vh::Hash(desc));
  }
  vh::Sample(desc);
}

static void MatcherCase(Rng* r, MatcherProto::Type type, bool let) {
  Model model;
  model.bt = let ? (r->chance(0.6) ? Label::Box::TYPE_3D : Label::Box::TYPE_2D)
                 : r->pick<Label::Box::Type>({Label::Box::TYPE_3D, Label::Box::TYPE_2D, Label::Box::TYPE_AA_2D});
  model.let = let;
  for (int i = 0; i <= Label::Type_MAX; ++i)
    model.thr.push_back(r->pick<float>({0.0f, 0.1f, 0.3f, 0.5f, 0.7f, 0.95f}));
  std::unique_ptr<Matcher> m;
  {
    // The configuration goes away before the matcher is used.
    std::unique_ptr<Config> config(new Config);
    config->set_matcher_type(type);
    config->set_box_type(model.bt);
    for (float t : model.thr) config->add_iou_thresholds(t);
    if (let) {
      Let* l = config->mutable_let_metric_config();
      l->set_enabled(true);
      l->set_align_type(static_cast<Let::AlignType>(r->range(1, 6)));
      l->set_longitudinal_tolerance_percentage(r->pick<float>({0.05f, 0.1f, 0.5f}));
      l->set_min_longitudinal_tolerance_meter(r->pick<float>({0.3f, 0.5f, 3.0f}));
      l->mutable_sensor_location()->set_x(r->uni(-3, 3));
      l->mutable_sensor_location()->set_y(r->uni(-3, 3));
      l->mutable_sensor_location()->set_z(r->uni(0, 3));
      model.let_config = *l;
    }
    m = Matcher::Create(*config);
  }
  // A history of calls on the same object: new frames, new subsets.
  const int frames = r->range(1, 4);
  Scene s;
  for (int f = 0; f < frames; ++f) {
    // A new frame, or only one side of it is given again. The vectors stay where they are.
    const int side = f == 0 ? 0 : r->range(0, 3);
    Scene next = MakeScene(r, model.bt);
    if (side == 2) {
      s.gts = next.gts;
      m->SetGroundTruths(s.gts);
    } else if (side == 3) {
      s.pds = next.pds;
      m->SetPredictions(s.pds);
    } else {
      s = next;
      if (r->chance(0.5)) {
        m->SetPredictions(s.pds);
        m->SetGroundTruths(s.gts);
      } else {
        m->SetGroundTruths(s.gts);
        m->SetPredictions(s.pds);
      }
    }
    vh::Count(side == 2 ? "ground_truths_replaced" : side == 3 ? "predictions_replaced" : "frames_replaced");
    const int subsets = r->range(1, 3);
    for (int k = 0; k < subsets; ++k) {
      const std::vector<int> ps = RandSubset(r, s.pds.size()), gs = RandSubset(r, s.gts.size());
      m->SetPredictionSubset(ps);
      m->SetGroundTruthSubset(gs);
      CheckMatch(r, m.get(), model, type, s, ps, gs);
    }
    // Pairwise queries agree with the model.
    for (int q = 0; q < 6 && !s.pds.empty() && !s.gts.empty(); ++q) {
      const int i = r->range(0, s.pds.size() - 1), j = r->range(0, s.gts.size() - 1);
      VH_EXPECT(m->IoU(i, j) == model.Iou(s.pds[i], s.gts[j]), "match_iou", i << "," << j << " " << SceneStr(s, {}, {}));
      VH_EXPECT(m->CanMatch(i, j) == model.Can(s.pds[i], s.gts[j]), "match_can", i << "," << j << " " << SceneStr(s, {}, {}));
      VH_EXPECT(std::abs(m->MatchingWeight(i, j) - model.Weight(s.pds[i], s.gts[j])) <= 0, "match_weight", i << "," << j << " " << SceneStr(s, {}, {}));
    }
  }
}

int main(int argc, char** argv) {
  const char* w = getenv("VERIF_WHICH");
  const std::string which = w ? w : "matcher";
  if (which == "hungarian")
    return vh::Main(argc, argv,
                    {{"hung_small", 1.0, [](Rng* r) { HungarianCase(r, 8); }},
                     {"hung_mid", 0.3, [](Rng* r) { HungarianCase(r, 40); }},
                     {"hung_large", 0.01, [](Rng* r) { HungarianCase(r, 160); }}});
  return vh::Main(argc, argv,
                  {{"match_hungarian", 1.0, [](Rng* r) { MatcherCase(r, MatcherProto::TYPE_HUNGARIAN, false); }},
                   {"match_score_first", 1.0, [](Rng* r) { MatcherCase(r, MatcherProto::TYPE_SCORE_FIRST, false); }},
                   {"match_let_hungarian", 0.5, [](Rng* r) { MatcherCase(r, MatcherProto::TYPE_HUNGARIAN, true); }},
                   {"match_let_score_first", 0.5, [](Rng* r) { MatcherCase(r, MatcherProto::TYPE_SCORE_FIRST, true); }}});
}
