// C15: histories of the segmentation metric against a recount by sets of points.
#include <algorithm>

#include "vh.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"

namespace waymo {
namespace open_dataset {
namespace {

std::vector<int> AllTypes() {
  std::vector<int> v;
  const auto* d = Segmentation::Type_descriptor();
  for (int i = 0; i < d->value_count(); ++i) v.push_back(d->value(i)->number());
  return v;
}

struct Ref {
  std::vector<int> types;
  // Points seen since the last reset: (ground truth, prediction) and how often.
  std::map<std::pair<int, int>, int64_t> points;

  void Counts(int t, int64_t* inter, int64_t* uni) const {
    *inter = *uni = 0;
    for (const auto& kv : points) {
      const int g = kv.first.first, p = kv.first.second;
      const bool listed_g = std::count(types.begin(), types.end(), g) > 0;
      // A point with a ground truth that is not evaluated does not count.
      if (!listed_g) continue;
      if (g == t && p == t) *inter += kv.second;
      if (g == t || p == t) *uni += kv.second;
    }
  }
};

void Check(const SegmentationMetrics& got, const std::vector<int>& types, const std::vector<int64_t>& inter,
           const std::vector<int64_t>& uni, const char* what, const std::string& d) {
  double mean = 0;
  const std::string key = what;
  VH_EXPECT(got.per_class_iou_size() == static_cast<int>(types.size()), key + "_classes", d);
  VH_EXPECT(got.segmentation_measurements().unions_size() == static_cast<int>(types.size()) &&
                got.segmentation_measurements().intersections_size() == static_cast<int>(types.size()),
            key + "_measurements", d);
  for (size_t i = 0; i < types.size(); ++i) {
    const double want = uni[i] > 0 ? static_cast<double>(inter[i]) / uni[i] : 1.0;
    mean += want;
    if (want > 0 && want < 1) vh::Count("ious_inside");
    if (uni[i] == 0) vh::Count("absent_classes");
    auto it = got.per_class_iou().find(types[i]);
    VH_EXPECT(it != got.per_class_iou().end(), key + "_classes", d << " no class " << types[i]);
    if (it == got.per_class_iou().end()) continue;
    VH_EXPECT(vh::Near(it->second, want, 1e-5), key + "_iou", d << " class " << types[i] << " iou " << it->second << " want " << want);
    VH_EXPECT(it->second >= 0 && it->second <= 1, key + "_range", d << " class " << types[i] << " iou " << it->second);
    if (static_cast<int>(i) < got.segmentation_measurements().unions_size()) {
      VH_EXPECT(got.segmentation_measurements().intersections(i) == inter[i] && got.segmentation_measurements().unions(i) == uni[i],
                key + "_measurements", d << " class " << types[i] << " " << got.segmentation_measurements().ShortDebugString() << " want " << inter[i] << "/" << uni[i]);
    }
  }
  VH_EXPECT(vh::Near(got.miou(), mean / types.size(), 1e-5), key + "_miou", d << " miou " << got.miou() << " want " << mean / types.size());
}

SegmentationMetricsConfig RandomConfig(vh::Rng* r, std::vector<int>* types) {
  *types = AllTypes();
  r->shuffle(types);
  types->resize(r->chance(0.2) ? types->size() : r->range(1, static_cast<int>(types->size())));
  SegmentationMetricsConfig cfg;
  for (int t : *types) cfg.add_segmentation_types(static_cast<Segmentation::Type>(t));
  return cfg;
}

// A history of updates, refused updates, resets and reads; the measurements
// read on the way are merged at the end.
void HistoryCase(vh::Rng* r) {
  std::vector<int> types;
  const SegmentationMetricsConfig cfg = RandomConfig(r, &types);
  const std::vector<int> all = AllTypes();
  SegmentationMetricsIOU m(cfg), merger(cfg);
  Ref ref;
  ref.types = types;
  std::vector<SegmentationMeasurements> parts;
  std::vector<int64_t> sum_i(types.size(), 0), sum_u(types.size(), 0);
  std::ostringstream os;
  os << "types";
  for (int t : types) os << " " << t;
  const int steps = r->range(1, 12);
  for (int s = 0; s < steps; ++s) {
    const int op = r->range(0, 9);
    if (op <= 5) {
      const int n = r->chance(0.1) ? 0 : r->range(1, r->chance(0.1) ? 3000 : 60);
      const int pool = r->range(1, static_cast<int>(all.size()));
      const double agree = r->u();
      std::vector<Segmentation::Type> pd, gt;
      os << "; update";
      for (int i = 0; i < n; ++i) {
        const int g = all[r->range(0, pool - 1)];
        const int p = r->chance(agree) ? g : all[r->range(0, pool - 1)];
        gt.push_back(static_cast<Segmentation::Type>(g));
        pd.push_back(static_cast<Segmentation::Type>(p));
        ++ref.points[{g, p}];
        if (i < 60) os << " " << g << "/" << p;
      }
      vh::Crumb(os.str());
      VH_EXPECT(m.Update(pd, gt).ok(), "update_rejected", os.str());
    } else if (op == 6) {
      std::vector<Segmentation::Type> pd(r->range(0, 20), Segmentation::TYPE_CAR);
      std::vector<Segmentation::Type> gt(pd.size() + r->range(1, 5), Segmentation::TYPE_ROAD);
      if (r->chance(0.5)) pd.swap(gt);
      os << "; mismatched update " << pd.size() << "/" << gt.size();
      vh::Crumb(os.str());
      VH_EXPECT(!m.Update(pd, gt).ok(), "mismatch_accepted", os.str());
      vh::Count("mismatches");
    } else if (op == 7) {
      os << "; reset";
      m.Reset();
      ref.points.clear();
      vh::Count("resets");
    } else {
      os << "; read";
      std::vector<int64_t> inter(types.size()), uni(types.size());
      for (size_t i = 0; i < types.size(); ++i) {
        ref.Counts(types[i], &inter[i], &uni[i]);
        sum_i[i] += inter[i];
        sum_u[i] += uni[i];
      }
      const SegmentationMetrics got = m.ComputeIOU();
      Check(got, types, inter, uni, "iou", os.str());
      // Reading changes nothing.
      VH_EXPECT(m.ComputeIOU().miou() == got.miou(), "read_twice", os.str());
      parts.push_back(got.segmentation_measurements());
    }
  }
  vh::Nontrivial(vh::Hash(os.str()));
  vh::Sample(os.str());
  vh::Crumb("merge " + os.str());
  Check(merger.MergeResults(parts), types, sum_i, sum_u, "merge", os.str());
  // Merging in another grouping gives the same.
  if (parts.size() > 1) {
    std::vector<SegmentationMeasurements> grouped;
    const size_t k = r->range(1, static_cast<int>(parts.size()) - 1);
    grouped.push_back(merger.MergeResults({parts.begin(), parts.begin() + k}).segmentation_measurements());
    grouped.push_back(merger.MergeResults({parts.begin() + k, parts.end()}).segmentation_measurements());
    Check(merger.MergeResults(grouped), types, sum_i, sum_u, "merge_grouped", os.str());
    vh::Count("merges");
  }
}

// Measurements of many frames: the counts are 64 bit.
void LargeCase(vh::Rng* r) {
  std::vector<int> types;
  SegmentationMetricsIOU m(RandomConfig(r, &types));
  std::vector<SegmentationMeasurements> parts(r->range(1, 40));
  std::vector<int64_t> sum_i(types.size(), 0), sum_u(types.size(), 0);
  std::ostringstream os;
  for (auto& p : parts) {
    for (size_t i = 0; i < types.size(); ++i) {
      const int64_t u = static_cast<int64_t>(std::pow(2.0, r->uni(0, 36)));
      const int64_t n = r->chance(0.1) ? 0 : static_cast<int64_t>(r->u() * u);
      p.add_unions(u);
      p.add_intersections(n);
      sum_i[i] += n;
      sum_u[i] += u;
    }
    if (&p - &parts[0] < 3) os << p.ShortDebugString() << "; ";
  }
  for (int64_t u : sum_u) if (u > 2147483647) vh::Count("sums_over_32_bits");
  vh::Nontrivial(vh::Hash(os.str()));
  vh::Crumb(os.str());
  Check(m.MergeResults(parts), types, sum_i, sum_u, "large", os.str());
}

}  // namespace
}  // namespace open_dataset
}  // namespace waymo

int main(int argc, char** argv) {
  using namespace waymo::open_dataset;
  return vh::Main(argc, argv, {{"history", 1.0, HistoryCase}, {"large", 0.3, LargeCase}});
}
