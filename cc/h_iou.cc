// Monitors for box overlap (iou*: C03) and longitudinal-error tolerance (let*: C04).
#include <memory>

#include "gen.h"
#include "ref_geom.h"
#include "vh.h"
#include "waymo_open_dataset/metrics/iou.h"

using namespace waymo::open_dataset;
using vh::Rng;
typedef Config::LongitudinalErrorTolerantConfig Let;
typedef Label::Box Box;

// A pair of boxes which is interesting for the overlap computation.
static void Pair(Rng* r, Box* a, Box* b) {
  const double far = r->pick<double>({0, 5, 100, 5000});
  *a = gen::RandBox(r, std::max(1.0, far));
  const int kind = r->range(0, 15);
  switch (kind) {
    case 0:
      *b = gen::RandBox(r, 5);
      b->set_center_x(b->center_x() + a->center_x());
      b->set_center_y(b->center_y() + a->center_y());
      break;
    case 1:
    case 2:
      *b = gen::Jitter(r, *a, r->pick<double>({0.05, 0.3, 1.0, 2.0}));
      break;
    case 3:  // Identical.
      *b = *a;
      break;
    case 4:  // Same box described the other way round.
      *b = *a;
      b->set_heading(a->heading() + M_PI * r->range(-2, 2));
      if (r->chance(0.5)) {
        b->set_length(a->width());
        b->set_width(a->length());
        b->set_heading(a->heading() + M_PI_2 * (2 * r->range(-1, 1) + 1));
      }
      break;
    case 5: {  // Nearly identical.
      *b = *a;
      const double e = std::pow(10.0, -r->range(6, 16));
      b->set_center_x(b->center_x() + e * r->range(-2, 2));
      b->set_center_y(b->center_y() + e * r->range(-2, 2));
      b->set_heading(b->heading() + e * r->range(-2, 2));
      b->set_length(b->length() + e * r->range(-2, 2));
      break;
    }
    case 6:  // Contained, the same heading, sharing an edge or a corner.
      *b = *a;
      b->set_length(a->length() * 0.5);
      b->set_width(a->width() * (r->chance(0.5) ? 0.5 : 1.0));
      if (r->chance(0.7)) {
        b->set_center_x(a->center_x() + std::cos(a->heading()) * a->length() * 0.25);
        b->set_center_y(a->center_y() + std::sin(a->heading()) * a->length() * 0.25);
      }
      break;
    case 7:  // Touching.
      *b = *a;
      b->set_center_x(a->center_x() + std::cos(a->heading()) * a->length());
      b->set_center_y(a->center_y() + std::sin(a->heading()) * a->length());
      break;
    case 8:  // Grid boxes: exact arithmetic, many coincidences.
      for (Box* p : {a, b}) {
        *p = gen::MakeBox(r->range(-4, 4) * 0.5, r->range(-4, 4) * 0.5, r->range(-2, 2) * 0.5, r->range(1, 6) * 0.5,
                          r->range(1, 6) * 0.5, r->range(1, 4) * 0.5, r->range(-2, 2) * M_PI_2);
      }
      break;
    case 9:  // Thin and long.
      a->set_width(r->uni(0.0101, 0.05));
      a->set_length(r->uni(10, 60));
      *b = *a;
      b->set_heading(r->chance(0.5) ? r->uni(-3, 3) : a->heading() + r->uni(-1e-3, 1e-3));
      break;
    case 10:  // Degenerate dimensions.
      *b = gen::Jitter(r, *a, 0.2);
      {
        Box* p = r->chance(0.5) ? a : b;
        const double d = r->pick<double>({0.0, 1e-12, 0.009, 0.01, 0.0100001, 1e6, 2e6, 999999});
        const int which = r->range(0, 2);
        if (which == 0) p->set_length(d);
        if (which == 1) p->set_width(d);
        if (which == 2) p->set_height(d);
      }
      break;
    case 11:  // A small one inside a large one.
      *b = gen::MakeBox(a->center_x(), a->center_y(), a->center_z(), 0.05, 0.05, 0.05, r->uni(-3, 3));
      b->set_center_x(a->center_x() + r->uni(-0.6, 0.6) * a->length());
      b->set_center_y(a->center_y() + r->uni(-0.6, 0.6) * a->width());
      break;
    case 14:  // Flat boxes, one partly above the other.
      a->set_height(r->uni(0.011, 0.06));
      *b = gen::Jitter(r, *a, 0.2);
      b->set_height(r->uni(0.011, 0.06));
      b->set_center_z(a->center_z() + r->uni(-0.6, 0.6) * (a->height() + b->height()));
      break;
    case 15:  // Small in every direction of the plane.
      a->set_length(r->uni(0.0101, 0.06));
      a->set_width(r->uni(0.0101, 0.06));
      *b = *a;
      b->set_length(a->length() * r->uni(1.0, 1.5));
      b->set_width(a->width() * r->uni(1.0, 1.5));
      b->set_heading(a->heading() + r->uni(-0.5, 0.5));
      b->set_center_x(a->center_x() + r->uni(-0.5, 0.5) * a->length());
      b->set_center_y(a->center_y() + r->uni(-0.5, 0.5) * a->width());
      break;
    case 12:  // A cross.
      *b = *a;
      b->set_heading(a->heading() + (r->chance(0.5) ? M_PI_4 : M_PI_2));
      break;
    case 13:  // Large headings.
      *b = gen::Jitter(r, *a, 0.3);
      b->set_heading(b->heading() + 2 * M_PI * r->range(-50, 50));
      break;
  }
  if (r->chance(0.25)) b->set_center_z(a->center_z() + r->pick<double>({0, 0.5, 1}) * (a->height() + b->height()) * r->pick<int>({-1, 1}));
  if (r->chance(0.06)) {  // Far away from the origin, together.
    const double by[3] = {r->uni(-2e6, 2e6), r->uni(-2e6, 2e6), r->uni(-1e5, 1e5)};
    for (Box* p : {a, b}) {
      p->set_center_x(p->center_x() + by[0]);
      p->set_center_y(p->center_y() + by[1]);
      p->set_center_z(p->center_z() + by[2]);
    }
  }
  if (r->chance(0.5)) std::swap(*a, *b);
}

static bool Tiny(const Box& b, bool three) {
  return b.length() <= 1e-2 || b.width() <= 1e-2 || (three && b.height() <= 1e-2);
}
static bool Huge(const Box& b) { return b.length() >= 1e6 || b.width() >= 1e6 || b.height() >= 1e6; }

static double RefIoU(const Box& a, const Box& b, Box::Type type) {
  if (Huge(a) || Huge(b)) return 0;
  const bool three = type == Box::TYPE_3D;
  if (Tiny(a, three) || Tiny(b, three)) return 0;
  ref::F inter, ua = static_cast<ref::F>(a.length()) * a.width(), ub = static_cast<ref::F>(b.length()) * b.width();
  if (type == Box::TYPE_AA_2D) {
    inter = ref::Overlap1(a.center_x(), a.length(), b.center_x(), b.length()) *
            ref::Overlap1(a.center_y(), a.width(), b.center_y(), b.width());
  } else {
    inter = ref::IntersectionArea(ref::Corners(a.center_x(), a.center_y(), a.length(), a.width(), a.heading()),
                                  ref::Corners(b.center_x(), b.center_y(), b.length(), b.width(), b.heading()));
  }
  if (three) {
    inter *= ref::Overlap1(a.center_z(), a.height(), b.center_z(), b.height());
    ua *= a.height();
    ub *= b.height();
  }
  const ref::F u = ua + ub - inter;
  if (u <= 2e-6L) return -1;  // Near the cutoff for vanishing boxes: not judged.
  return static_cast<double>(inter / u);
}

static double Tol(const Box& a, const Box& b) {
  const double m = std::max({std::fabs(a.center_x()), std::fabs(a.center_y()), std::fabs(b.center_x()), std::fabs(b.center_y()),
                             a.length(), b.length(), a.width(), b.width(), 1.0});
  const double d = std::min({a.length(), a.width(), b.length(), b.width()});
  return 1e-6 + 1e-12 * m / std::max(d, 1e-3);
}

static std::string Desc(const Box& a, const Box& b, Box::Type t) {
  return Box::Type_Name(t) + " " + gen::Str(a) + " " + gen::Str(b);
}

static void IouCase(Rng* r, Box::Type type) {
  Box a, b;
  Pair(r, &a, &b);
  const std::string d = Desc(a, b, type);
  vh::Crumb(d);
  const double want = RefIoU(a, b, type);
  const double got = ComputeIoU(a, b, type);
  const double back = ComputeIoU(b, a, type);
  VH_EXPECT(got >= 0 && got <= 1, "range", d << " iou " << got);
  if (want >= 0) {
    VH_EXPECT(std::fabs(got - want) <= Tol(a, b), "iou_value", d << " got " << got << " want " << want);
    VH_EXPECT(std::fabs(back - want) <= Tol(a, b), "iou_symmetry", d << " got " << got << " swapped " << back);
  }
  if (want > 0 && want < 1) vh::Nontrivial(vh::Hash(d));
  if (want > 0.9999999) vh::Count("iou_identical");
  if (want == 0) vh::Count("iou_zero");
  if (want > 0.001 && want < 0.999) vh::Count("iou_partial");
  // A box with itself.
  const bool three = type == Box::TYPE_3D;
  if (!Tiny(a, three) && !Huge(a) && a.length() * a.width() * (three ? a.height() : 1) > 1e-5) {
    const double self = ComputeIoU(a, a, type);
    VH_EXPECT(std::fabs(self - 1) <= Tol(a, a), "iou_self", d << " self " << self);
  }
  // Invariance under a common rigid motion.
  if (type != Box::TYPE_AA_2D && want >= 0 && r->chance(0.3)) {
    const double th = r->uni(-3, 3), tx = r->uni(-50, 50), ty = r->uni(-50, 50), tz = r->uni(-5, 5);
    Box m[2] = {a, b};
    for (Box& x : m) {
      const double cx = x.center_x(), cy = x.center_y();
      x.set_center_x(std::cos(th) * cx - std::sin(th) * cy + tx);
      x.set_center_y(std::sin(th) * cx + std::cos(th) * cy + ty);
      x.set_center_z(x.center_z() + tz);
      x.set_heading(x.heading() + th);
    }
    const double moved = ComputeIoU(m[0], m[1], type);
    VH_EXPECT(std::fabs(moved - want) <= 10 * Tol(m[0], m[1]), "iou_motion", d << " moved by " << th << "," << tx << "," << ty << "," << tz << ": " << moved << " want " << want);
  }
  if (want > 0.1 && want < 0.9) vh::Sample(d + " iou " + std::to_string(got));
}

static void BatchCase(Rng* r) {
  Box a, b;
  std::vector<Box> bs;
  const int n = r->range(0, 6);
  for (int i = 0; i < n; ++i) {
    Box x;
    Pair(r, &x, &b);
    if (i == 0) a = x;
    bs.push_back(b);
  }
  if (n == 0) Pair(r, &a, &b);
  const Box::Type t = r->pick<Box::Type>({Box::TYPE_3D, Box::TYPE_2D, Box::TYPE_AA_2D});
  const std::vector<double> got = BatchComputeIoU(a, bs, t);
  VH_EXPECT(got.size() == bs.size(), "batch_size", n);
  for (size_t i = 0; i < got.size() && i < bs.size(); ++i) {
    const double one = ComputeIoU(a, bs[i], t);
    VH_EXPECT(got[i] == one, "batch_value", Desc(a, bs[i], t) << " " << got[i] << " alone " << one);
  }
}

// ---- LET ---------------------------------------------------------------
struct V3 {
  ref::F x, y, z;
};
static V3 Center(const Box& b, const Let::Location3D& s) {
  return {b.center_x() - static_cast<ref::F>(s.x()), b.center_y() - static_cast<ref::F>(s.y()), b.center_z() - static_cast<ref::F>(s.z())};
}
static ref::F Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

static void LetBoxes(Rng* r, const Let::Location3D& s, Box* pd, Box* gt) {
  *gt = gen::RandBox(r, r->pick<double>({2, 30, 75, 300}));
  *pd = gen::Jitter(r, *gt, r->pick<double>({0, 0.2, 1}));
  if (r->chance(0.8)) {  // Move it along the line of sight.
    const double f = r->pick<double>({0.5, 0.9, 0.97, 1.02, 1.05, 1.1, 2, -1, 0});
    pd->set_center_x(s.x() + (pd->center_x() - s.x()) * f);
    pd->set_center_y(s.y() + (pd->center_y() - s.y()) * f);
    pd->set_center_z(s.z() + (pd->center_z() - s.z()) * f);
  }
  if (r->chance(0.03)) {
    gt->set_center_x(s.x());
    gt->set_center_y(s.y());
    gt->set_center_z(s.z());
  }
}

static Box RefAlign(const Box& pd0, const Box& gt, const Let::Location3D& s, Let::AlignType type) {
  Box pd = pd0;
  const V3 p = Center(pd, s), g = Center(gt, s);
  if (type == Let::TYPE_NOT_ALIGNED) return pd;
  if (type == Let::TYPE_CENTER_ALIGNED) {
    pd.set_center_x(gt.center_x());
    pd.set_center_y(gt.center_y());
    pd.set_center_z(gt.center_z());
    return pd;
  }
  const ref::F pp = std::max<ref::F>(Dot(p, p), 1e-6L);
  ref::F m = Dot(g, p) / pp;  // Foot of the perpendicular from G on the line OP.
  const bool beyond = m >= 0 && m < 1;  // P lies beyond that foot, seen from the sensor.
  if (type == Let::TYPE_FURTHER_ONLY_RANGE_ALIGNED && !beyond) m = 1;
  if (type == Let::TYPE_ANY_CLOSER_ONLY_RANGE_ALIGNED && beyond) m = 1;
  if (type == Let::TYPE_BETWEEN_ORIGIN_AND_GT_ONLY_RANGE_ALIGNED && m < 1) m = 1;
  pd.set_center_x(static_cast<double>(s.x() + p.x * m));
  pd.set_center_y(static_cast<double>(s.y() + p.y * m));
  pd.set_center_z(static_cast<double>(s.z() + p.z * m));
  return pd;
}

static void LetCase(Rng* r) {
  Let cfg;
  if (r->chance(0.8)) {
    cfg.mutable_sensor_location()->set_x(r->uni(-3, 3));
    cfg.mutable_sensor_location()->set_y(r->uni(-3, 3));
    cfg.mutable_sensor_location()->set_z(r->uni(0, 2.5));
  }
  cfg.set_longitudinal_tolerance_percentage(r->pick<float>({0.1f, 0.05f, 0.15f, 0.5f}));
  cfg.set_min_longitudinal_tolerance_meter(r->pick<float>({0.5f, 2.f, 3.f}));
  const Let::AlignType align = static_cast<Let::AlignType>(r->range(1, 6));
  cfg.set_align_type(align);
  const Let::Location3D s = cfg.sensor_location();
  std::function<double(const Box&, const Box&)> aff_fn, iou_fn;
  const Box::Type type = r->chance(0.5) ? Box::TYPE_3D : Box::TYPE_2D;
  {
    // The functions handed out must not depend on the objects they were made from.
    std::unique_ptr<Let> tmp(new Let(cfg));
    aff_fn = GetComputeLongitudinalAffinityFunc(*tmp);
    iou_fn = GetComputeLetIoUFunc(tmp->sensor_location(), tmp->align_type(), type);
  }
  for (int k = 0; k < 6; ++k) {
    Box pd, gt;
    LetBoxes(r, s, &pd, &gt);
    std::ostringstream o;
    o << "align " << align << " sensor " << s.x() << "," << s.y() << "," << s.z() << " tol "
      << cfg.longitudinal_tolerance_percentage() << "," << cfg.min_longitudinal_tolerance_meter() << " " << Desc(pd, gt, type);
    vh::Crumb(o.str());
    const V3 p = Center(pd, s), g = Center(gt, s);
    const ref::F pr = std::max<ref::F>(sqrtl(Dot(p, p)), 1e-6L), gr = std::max<ref::F>(sqrtl(Dot(g, g)), 1e-6L);
    const ref::F tol = std::max<ref::F>(static_cast<double>(cfg.longitudinal_tolerance_percentage()) * gr,
                                        static_cast<double>(cfg.min_longitudinal_tolerance_meter()));
    const ref::F along = Dot(p, g) / gr;  // The prediction projected on the line to the truth.
    (void)pr;
    double want = static_cast<double>(1 - fabsl(along - gr) / tol);
    want = std::min(1.0, std::max(0.0, want));
    const double got = ComputeLongitudinalAffinity(pd, gt, cfg);
    VH_EXPECT(std::fabs(got - want) < 1e-7, "let_affinity", o.str() << " got " << got << " want " << want);
    VH_EXPECT(aff_fn(pd, gt) == got, "let_affinity_func", o.str() << " direct " << got << " through the function " << aff_fn(pd, gt));
    if (want > 0 && want < 1) {
      vh::Count("affinity_inside");
      vh::Nontrivial(vh::Hash(o.str()));
      vh::Sample(o.str() + " affinity " + std::to_string(got));
    }
    const Box ra = RefAlign(pd, gt, s, align);
    // Alignment on its own: boxes relative to the sensor.
    const Box ca = AlignedPredictionBox(TranslateBox(pd, -s.x(), -s.y(), -s.z()), TranslateBox(gt, -s.x(), -s.y(), -s.z()), align);
    const double scale = std::max({1.0, std::fabs(ra.center_x()), std::fabs(ra.center_y()), std::fabs(ra.center_z())});
    const bool degenerate = Dot(p, p) < 1e-4L;
    if (!degenerate) {
      VH_EXPECT(std::fabs(ca.center_x() + s.x() - ra.center_x()) < 1e-7 * scale && std::fabs(ca.center_y() + s.y() - ra.center_y()) < 1e-7 * scale &&
                    std::fabs(ca.center_z() + s.z() - ra.center_z()) < 1e-7 * scale,
                "let_align", o.str() << " got " << gen::Str(ca) << " want " << gen::Str(ra));
    }
    VH_EXPECT(ca.length() == pd.length() && ca.width() == pd.width() && ca.height() == pd.height() && ca.heading() == pd.heading(), "let_align_shape", o.str());
    const double iou = ComputeLetIoU(pd, gt, s, align, type);
    VH_EXPECT(iou == iou_fn(pd, gt), "let_iou_func", o.str() << " direct " << iou << " through the function " << iou_fn(pd, gt));
    const double wiou = RefIoU(ra, gt, type);
    if (!degenerate && wiou >= 0 && std::fabs(ra.center_x()) < 1e4)
      VH_EXPECT(std::fabs(iou - wiou) < 1e-5, "let_iou", o.str() << " got " << iou << " want " << wiou);
    if (wiou > 0) vh::Count("let_iou_positive");
    if (wiou > 0 && RefIoU(pd, gt, type) < wiou - 1e-3) vh::Count("let_iou_gained");
  }
}

int main(int argc, char** argv) {
  if (std::string(getenv("VERIF_WHICH") ? getenv("VERIF_WHICH") : "") == "let") {
    return vh::Main(argc, argv, {{"let", 1, LetCase}});
  }
  return vh::Main(argc, argv, {{"iou_3d", 1, [](Rng* r) { IouCase(r, Box::TYPE_3D); }},
                               {"iou_2d", 1, [](Rng* r) { IouCase(r, Box::TYPE_2D); }},
                               {"iou_aa2d", 0.5, [](Rng* r) { IouCase(r, Box::TYPE_AA_2D); }},
                               {"iou_batch", 0.1, BatchCase}});
}
