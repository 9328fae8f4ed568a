// Monitor of waymo_open_dataset/math: vectors, segments, boxes, polygons, trees.
#include "ref_geom.h"
#include "vh.h"
#include "waymo_open_dataset/math/aabox2d.h"
#include "waymo_open_dataset/math/box2d.h"
#include "waymo_open_dataset/math/math_util.h"
#include "waymo_open_dataset/math/polygon2d.h"
#include "waymo_open_dataset/math/segment2d.h"
#include "waymo_open_dataset/math/vec2d.h"
#include "waymo_open_dataset/math/vec3d.h"

using namespace waymo::open_dataset;  // NOLINT
using ref::F;
using ref::P;

namespace {
constexpr double kTol = 1e-9;

std::string Str(Vec2d v) {
  std::ostringstream o;
  o.precision(17);
  o << "(" << v.x() << "," << v.y() << ")";
  return o.str();
}
std::string Str(const std::vector<Vec2d>& p) {
  std::string s;
  for (const auto& v : p) s += Str(v);
  return s;
}
double AngDiff(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)); }
Vec2d RandVec(vh::Rng* r, double s) {
  if (r->chance(0.2)) return Vec2d(r->range(-8, 8), r->range(-8, 8));
  return Vec2d(r->uni(-s, s), r->uni(-s, s));
}
double RandAngle(vh::Rng* r) {
  if (r->chance(0.3)) return r->range(-12, 12) * M_PI / 4;
  if (r->chance(0.1)) return r->uni(-1000, 1000);
  return r->uni(-7, 7);
}
uint64_t HashD(std::initializer_list<double> v) {
  std::string s;
  for (double d : v) s.append(reinterpret_cast<const char*>(&d), 8);
  return vh::Hash(s);
}
bool NearV(Vec2d a, P b, double tol) {
  const double scale = 1 + std::fabs(static_cast<double>(b.x)) + std::fabs(static_cast<double>(b.y));
  return std::fabs(a.x() - static_cast<double>(b.x)) <= tol * scale && std::fabs(a.y() - static_cast<double>(b.y)) <= tol * scale;
}

// ---------------------------------------------------------------- vectors
void VecCase(vh::Rng* r) {
  const Vec2d a = RandVec(r, 100), b = RandVec(r, 100);
  const double th = RandAngle(r);
  const std::string d = Str(a) + Str(b) + " theta=" + std::to_string(th);
  vh::Crumb(d);
  vh::Nontrivial(HashD({a.x(), a.y(), b.x(), b.y(), th}));
  const F c = cosl(static_cast<F>(th)), s = sinl(static_cast<F>(th));
  const P rot = {a.x() * c - a.y() * s, a.x() * s + a.y() * c};
  VH_EXPECT(NearV(a.Rotated(th), rot, kTol), "vec_rotate", d);
  Vec2d m = a;
  m.Rotate(th);
  VH_EXPECT(m == a.Rotated(th), "vec_rotate", d);
  const P rel0 = {static_cast<F>(a.x()) - b.x(), static_cast<F>(a.y()) - b.y()};
  VH_EXPECT(NearV(a.RelativeToOrigin(b, th), {rel0.x * c + rel0.y * s, -rel0.x * s + rel0.y * c}, kTol), "vec_relative", d);
  VH_EXPECT(vh::Near(a.Dot(b), a.x() * b.x() + a.y() * b.y(), kTol), "vec_dot", d);
  VH_EXPECT(vh::Near(a.CrossProd(b), a.x() * b.y() - a.y() * b.x(), kTol), "vec_cross", d);
  VH_EXPECT(vh::Near(a.Length(), std::sqrt(a.x() * a.x() + a.y() * a.y()), kTol), "vec_length", d);
  VH_EXPECT(vh::Near(a.Sqr(), a.Length() * a.Length(), kTol), "vec_length", d);
  VH_EXPECT(vh::Near(a.L1Norm(), std::fabs(a.x()) + std::fabs(a.y()), kTol), "vec_length", d);
  VH_EXPECT(vh::Near(a.DistanceToPoint(b), (a - b).Length(), kTol), "vec_distance", d);
  VH_EXPECT(vh::Near(a.DistanceSqrToPoint(b), (b - a).Sqr(), kTol), "vec_distance", d);
  VH_EXPECT(a.Perp().Dot(a) == 0 && a.CrossProd(a.Perp()) >= 0, "vec_perp", d);
  VH_EXPECT((-a) + a == Vec2d() && a + b - b - a == (a + b) - b - a, "vec_arith", d);
  VH_EXPECT((a * 2.0) / 2.0 == a && 2.0 * a == a + a, "vec_arith", d);
  VH_EXPECT(a.ElemWiseMin(b) == Vec2d(std::min(a.x(), b.x()), std::min(a.y(), b.y())) &&
                a.ElemWiseMax(b) == Vec2d(std::max(a.x(), b.x()), std::max(a.y(), b.y())), "vec_minmax", d);
  VH_EXPECT(a.Floor() == Vec2d(std::floor(a.x()), std::floor(a.y())) && a.Ceil() == Vec2d(std::ceil(a.x()), std::ceil(a.y())) &&
                a.Abs() == Vec2d(std::fabs(a.x()), std::fabs(a.y())), "vec_round", d);
  if (!a.IsZero()) {
    VH_EXPECT(vh::Near(a.Normalized().Length(), 1, kTol) && std::fabs(a.Normalized().CrossProd(a)) < 1e-9 * (1 + a.Length()) && a.Normalized().Dot(a) > 0,
              "vec_normalize", d);
    VH_EXPECT(NearV(Vec2d::CreateFromAngleAndLength(a.Angle(), a.Length()), {a.x(), a.y()}, kTol), "vec_polar", d);
    VH_EXPECT(vh::Near(b.Project(a), b.Dot(a.Normalized()), kTol) && vh::Near(b.Project(a.Angle()), b.Project(a), kTol) &&
                  vh::Near(b.ProjectOntoUnit(a.Normalized()), b.Project(a), kTol), "vec_project", d);
  } else {
    VH_EXPECT(a.Normalized() == Vec2d(), "vec_normalize", d);
  }
  const Vec2d q = RandVec(r, 100);
  const double turn = (b - a).CrossProd(q - a);
  if (std::fabs(turn) > 1e-6) VH_EXPECT(q.IsLeftOfLine(a, b) == (turn > 0), "vec_left", d << Str(q));
  const double eps = r->uni(0, 20);
  VH_EXPECT(a.NearlyEquals(b, eps) == (std::fabs(a.x() - b.x()) < eps && std::fabs(a.y() - b.y()) < eps), "vec_near", d);
  VH_EXPECT((a < b) == (a.x() < b.x() || (a.x() == b.x() && a.y() < b.y())), "vec_order", d);
  const Vec3d u(a.x(), a.y(), b.x()), v(b.y(), q.x(), q.y());
  VH_EXPECT(vh::Near((u + v - v - u).Length(), 0, 1e-9) && vh::Near(u.Sqr(), u.Length() * u.Length(), kTol) && (u * 2.0) / 2.0 == u && 2.0 * u == u + u,
            "vec3", d);
  if (u.Length() > 0) VH_EXPECT(vh::Near(u.Normalized().Length(), 1, kTol), "vec3", d);

  // Angles and ranges.
  double rad = RandAngle(r);
  if (r->chance(0.1)) rad *= 1e3;
  const double n = NormalizeAngle(rad);
  VH_EXPECT(n >= -M_PI && n <= M_PI && AngDiff(n, rad) < 1e-9 * (1 + std::fabs(rad)), "normalize_angle", rad << " -> " << n);
  const int x = r->range(-1000, 1000), y = r->range(1, 50);
  VH_EXPECT(PositiveModulo(x, y) == ((x % y) + y) % y, "modulo_int", x << " mod " << y << " = " << PositiveModulo(x, y));
  const double fx = r->chance(0.3) ? r->range(-400, 400) * 0.25 : r->uni(-500, 500);
  const double fy = r->chance(0.3) ? r->range(1, 40) * 0.25 : r->uni(0.1, 60);
  const double fm = PositiveModulo(fx, fy);
  VH_EXPECT(fm >= 0 && fm <= fy && std::fabs(std::remainder(fx - fm, fy)) < 1e-9 * (1 + std::fabs(fx)), "modulo_float", fx << " mod " << fy << " = " << fm);
  const double lo = r->uni(-10, 0), hi = r->uni(0.1, 10), val = r->uni(-20, 20);
  VH_EXPECT(BoundToRange(lo, hi, val) == std::min(std::max(val, lo), hi), "bound", lo << " " << hi << " " << val);
  const double w = WrapToRange(lo, hi, val);
  VH_EXPECT(w >= lo - 1e-12 && w <= hi + 1e-12 && std::fabs(std::remainder(w - val, hi - lo)) < 1e-9, "wrap", lo << " " << hi << " " << val << " -> " << w);
}

// --------------------------------------------------------------- segments
struct RefSeg {
  P s, e;
};
P Rot(P p, P o, F th) {
  const F c = cosl(th), s = sinl(th), x = p.x - o.x, y = p.y - o.y;
  return {o.x + x * c - y * s, o.y + x * s + y * c};
}
F Dist(P a, P b) { return hypotl(a.x - b.x, a.y - b.y); }

void CheckSeg(vh::Rng* r, const Segment2d& g, const RefSeg& f, double heading_when_point, bool normalized, const std::string& d) {
  const double tol = 1e-8;
  // Headings which were not given by the caller are in the principal range, whether they come from the cache or not.
  if (normalized) VH_EXPECT(std::fabs(g.heading()) <= M_PI + 1e-12, "segment_heading_range", d << " heading " << g.heading());
  VH_EXPECT(NearV(g.start(), f.s, tol) && NearV(g.end(), f.e, tol), "segment_ends", d << " got " << Str(g.start()) << Str(g.end()));
  const F len = Dist(f.s, f.e);
  const int order = r->range(0, 5);
  // Read the lazily cached values in varying order.
  for (int k = 0; k < 6; ++k) {
    switch ((k + order) % 6) {
      case 0: VH_EXPECT(vh::Near(g.length(), len, tol), "segment_length", d << " length " << g.length() << " want " << static_cast<double>(len)); break;
      case 1: VH_EXPECT(vh::Near(g.Sqr(), len * len, tol), "segment_length", d << " sqr " << g.Sqr()); break;
      case 2:
        if (len > 1e-3) VH_EXPECT(vh::Near(g.inv_length(), 1 / len, tol), "segment_length", d << " inv_length " << g.inv_length());
        break;
      case 3:
        if (len > 1e-3)
          VH_EXPECT(AngDiff(g.heading(), atan2l(f.e.y - f.s.y, f.e.x - f.s.x)) < 1e-7, "segment_heading", d << " heading " << g.heading());
        else if (!std::isnan(heading_when_point))
          VH_EXPECT(AngDiff(g.heading(), heading_when_point) < 1e-7, "segment_heading", d << " heading " << g.heading());
        break;
      case 4:
        if (len > 1e-3) {
          const double cw = (f.e.x - f.s.x) / len, sw = (f.e.y - f.s.y) / len;
          double c, s;
          g.trig_heading(&c, &s);
          VH_EXPECT(vh::Near(g.cos_heading(), cw, 1e-7) && vh::Near(g.sin_heading(), sw, 1e-7) && vh::Near(c, cw, 1e-7) && vh::Near(s, sw, 1e-7),
                    "segment_heading", d);
          VH_EXPECT(NearV(g.Tangent(), {cw, sw}, 1e-7) && NearV(g.PerpUnit(), {-sw, cw}, 1e-7), "segment_direction", d);
        } else if (!std::isnan(heading_when_point) && len == 0) {  // A point that was given a heading keeps it.
          double c, s;
          g.trig_heading(&c, &s);
          const double cw = std::cos(heading_when_point), sw = std::sin(heading_when_point);
          VH_EXPECT(vh::Near(g.cos_heading(), cw, 1e-7) && vh::Near(g.sin_heading(), sw, 1e-7) && vh::Near(c, cw, 1e-7) && vh::Near(s, sw, 1e-7),
                    "segment_heading", d << " of a point: " << c << " " << s);
          vh::Count("points_with_heading");
        }
        break;
      case 5: VH_EXPECT(NearV(g.center(), {(f.s.x + f.e.x) / 2, (f.s.y + f.e.y) / 2}, tol), "segment_center", d); break;
    }
  }
}

void SegHistoryCase(vh::Rng* r) {
  std::ostringstream o;
  o.precision(17);
  Segment2d g;
  RefSeg f;
  double hp = NAN;
  bool normalized = true;
  const Vec2d a = RandVec(r, 50), b = RandVec(r, 50);
  const double th = RandAngle(r), len = r->chance(0.1) ? 0.0 : r->uni(0.01, 30);
  if (r->chance(0.4)) {
    g = Segment2d(a, b);
    f = {{a.x(), a.y()}, {b.x(), b.y()}};
    o << "ends " << Str(a) << Str(b);
  } else {
    const F c = cosl(static_cast<F>(th)) * len / 2, s = sinl(static_cast<F>(th)) * len / 2;
    f = {{a.x() - c, a.y() - s}, {a.x() + c, a.y() + s}};
    if (r->chance(0.5)) {
      g = Segment2d(a, th, len);
      if (len == 0) hp = th;
      normalized = false;
    } else {
      g = Segment2d(a, Vec2d::CreateUnitFromAngle(th), len);
    }
    o << "center " << Str(a) << " heading " << th << " length " << len;
  }
  const int n = r->range(1, 10);
  for (int i = 0; i < n; ++i) {
    vh::Crumb(o.str());
    if (r->chance(0.6)) CheckSeg(r, g, f, hp, normalized && r->chance(0.5), o.str());
    const double t = RandAngle(r);
    const Vec2d v = RandVec(r, 20);
    const int op = r->range(0, 7);
    if (op <= 3) normalized = true;
    switch (op) {
      case 0: g = g.Flip(); std::swap(f.s, f.e); hp += M_PI; o << " flip"; break;
      case 1: g = g.RotateAroundCenter(t); { const P c = {(f.s.x + f.e.x) / 2, (f.s.y + f.e.y) / 2}; f = {Rot(f.s, c, t), Rot(f.e, c, t)}; } hp += t; o << " rotc " << t; break;
      case 2: g = g.RotateAroundOrigin(t); f = {Rot(f.s, {0, 0}, t), Rot(f.e, {0, 0}, t)}; hp += t; o << " roto " << t; break;
      case 3: g = g.RotateAroundPoint(v, t); f = {Rot(f.s, {v.x(), v.y()}, t), Rot(f.e, {v.x(), v.y()}, t)}; hp += t; o << " rotp " << Str(v) << t; break;
      case 4: g = g.ShiftCenter(v); f = {{f.s.x + v.x(), f.s.y + v.y()}, {f.e.x + v.x(), f.e.y + v.y()}}; o << " shift " << Str(v); break;
      case 5: {
        const P c = {(f.s.x + f.e.x) / 2, (f.s.y + f.e.y) / 2};
        g = g.MoveCenter(v);
        f = {{f.s.x + v.x() - c.x, f.s.y + v.y() - c.y}, {f.e.x + v.x() - c.x, f.e.y + v.y() - c.y}};
        o << " move " << Str(v);
        break;
      }
      case 6: { Segment2d copy(g); Segment2d other(Vec2d(1, 2), 0.5, 3); other = copy; g = other; o << " copy"; break; }
      case 7: g = g; o << " self"; break;
    }
  }
  if (std::isnan(hp) || Dist(f.s, f.e) > 0) hp = NAN;
  CheckSeg(r, g, f, hp, normalized, o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  vh::Sample(o.str());

  // Point queries against the final segment.
  for (int k = 0; k < 4; ++k) {
    const P s = {g.start().x(), g.start().y()}, e = {g.end().x(), g.end().y()};
    const F L = Dist(s, e);
    Vec2d q = RandVec(r, 60);
    if (r->chance(0.3)) q = g.start() + (g.end() - g.start()) * r->uni(-0.5, 1.5);
    const P p = {q.x(), q.y()};
    F t = L > 0 ? ((p.x - s.x) * (e.x - s.x) + (p.y - s.y) * (e.y - s.y)) / (L * L) : 0;
    t = std::min<F>(1, std::max<F>(0, t));
    const F want = Dist(p, {s.x + t * (e.x - s.x), s.y + t * (e.y - s.y)});
    VH_EXPECT(std::fabs(std::sqrt(g.DistanceSqrToPoint(q)) - static_cast<double>(want)) < 1e-6, "segment_distance",
              o.str() << " q " << Str(q) << " got " << std::sqrt(g.DistanceSqrToPoint(q)) << " want " << static_cast<double>(want));
    const F cr = ref::Cross(s, e, p);
    if (fabsl(cr) > 1e-6) {
      double pd = 0;
      const auto side = g.SideOfPoint(q, &pd);
      VH_EXPECT(side == (cr > 0 ? Segment2d::ON_LEFT_SIDE : Segment2d::ON_RIGHT_SIDE) && side == g.SideOfPoint(q), "segment_side", o.str() << " q " << Str(q));
      if (L > 1e-3) VH_EXPECT(vh::Near(pd, -cr / L, 1e-6), "segment_side", o.str() << " q " << Str(q) << " dist " << pd);
    }
    if (g.start() == g.end()) {
      Vec2d sp(1e9, 1e9);
      VH_EXPECT(!g.Sample(r->chance(0.5) ? 0.0 : r->uni(0, 3), &sp) && sp == g.start(), "segment_sample", o.str() << " of a point: " << Str(sp));
      const auto pts = Segment2d::SamplePoints(g.start(), g.end(), r->uni(0.1, 3));
      VH_EXPECT(pts.size() == 1 && pts[0] == g.start(), "segment_samples", o.str());
    } else if (L > 1e-3) {
      const double at = r->uni(0, 1.5) * static_cast<double>(L);
      Vec2d sp;
      const bool in = g.Sample(at, &sp);
      VH_EXPECT(NearV(sp, {s.x + (e.x - s.x) * at / L, s.y + (e.y - s.y) * at / L}, 1e-7), "segment_sample", o.str());
      if (std::fabs(at - static_cast<double>(L)) > 1e-7) VH_EXPECT(in == (at < L), "segment_sample", o.str());
      const double step = r->uni(0.05, 1.2) * static_cast<double>(L);
      const auto pts = Segment2d::SamplePoints(g.start(), g.end(), step);
      VH_EXPECT(!pts.empty() && pts[0] == g.start(), "segment_samples", o.str());
      for (size_t i = 1; i < pts.size(); ++i)
        VH_EXPECT(vh::Near(pts[i].DistanceToPoint(pts[i - 1]), step, 1e-6), "segment_samples", o.str() << " step " << step);
      if (!pts.empty())
        VH_EXPECT(pts.back().DistanceToPoint(g.end()) <= step * (1 + 1e-6) && pts.size() <= static_cast<size_t>(L / step) + 2, "segment_samples", o.str() << " step " << step);
    }
  }
}

// Segments on an integer grid: the answer is exact arithmetic.
typedef long long I;
I ICross(const I* a, const I* b, const I* c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
bool IOn(const I* a, const I* b, const I* q) {
  return ICross(a, b, q) == 0 && std::min(a[0], b[0]) <= q[0] && q[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= q[1] && q[1] <= std::max(a[1], b[1]);
}
int Sgn(I x) { return (x > 0) - (x < 0); }
void SegIntersectCase(vh::Rng* r) {
  const int big = r->chance(0.3) ? 1000 : r->range(2, 8);
  I p[4][2];
  for (auto& q : p)
    for (I& x : q) x = r->range(-big, big);
  if (r->chance(0.2)) { p[2][0] = p[r->range(0, 1)][0]; }
  if (r->chance(0.15)) { const int k = r->range(0, 1); p[2][0] = p[k][0]; p[2][1] = p[k][1]; }
  if (r->chance(0.2)) {  // Collinear.
    for (int k = 2; k < 4; ++k) { const int m = r->range(-2, 3); for (int j = 0; j < 2; ++j) p[k][j] = p[0][j] + m * (p[1][j] - p[0][j]); }
  }
  if ((p[0][0] == p[1][0] && p[0][1] == p[1][1]) || (p[2][0] == p[3][0] && p[2][1] == p[3][1])) return;
  std::ostringstream o;
  for (auto& q : p) o << "(" << q[0] << "," << q[1] << ")";
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  const I den = (p[1][0] - p[0][0]) * (p[3][1] - p[2][1]) - (p[1][1] - p[0][1]) * (p[3][0] - p[2][0]);
  const bool touch = IOn(p[0], p[1], p[2]) || IOn(p[0], p[1], p[3]) || IOn(p[2], p[3], p[0]) || IOn(p[2], p[3], p[1]);
  const bool proper = Sgn(ICross(p[0], p[1], p[2])) * Sgn(ICross(p[0], p[1], p[3])) < 0 && Sgn(ICross(p[2], p[3], p[0])) * Sgn(ICross(p[2], p[3], p[1])) < 0;
  const bool meet = touch || proper;
  vh::Count(meet ? (proper ? "segments_cross" : "segments_touch") : "segments_apart");
  const Segment2d a(Vec2d(p[0][0], p[0][1]), Vec2d(p[1][0], p[1][1])), b(Vec2d(p[2][0], p[2][1]), Vec2d(p[3][0], p[3][1]));
  Vec2d at(1e9, 1e9), ex(1e9, 1e9);
  const bool got = a.Intersect(b, &at);
  VH_EXPECT(got == (meet && den != 0), "segment_intersect", o.str() << " got " << got << " meet " << meet << " den " << den);
  VH_EXPECT(a.Intersect(b) == got && b.Intersect(a) == got, "segment_intersect", o.str());
  VH_EXPECT(a.IntersectOrCoincide(b) == meet, "segment_coincide", o.str() << " meet " << meet);
  if (meet) VH_EXPECT(a.MightIntersect(b), "segment_might", o.str());
  const bool exact = internal::ExactSegmentIntersection(a, b, &ex);
  VH_EXPECT(exact == meet, "segment_exact", o.str() << " got " << exact << " want " << meet);
  for (int k = 0; k < 2; ++k) {
    if (!(k ? exact : got)) continue;
    const Vec2d x = k ? ex : at;
    VH_EXPECT(std::sqrt(a.DistanceSqrToPoint(x)) < 1e-8 * big && std::sqrt(b.DistanceSqrToPoint(x)) < 1e-8 * big, "segment_point", o.str() << " at " << Str(x) << " exact " << k);
  }
}

// Nearly degenerate segments: whole multiples of 2^-50 below 1/4, whose cross
// products the exact test has to sign without error.
typedef __int128 W;
void SegExactCase(vh::Rng* r) {
  const I lim = 1LL << (r->chance(0.5) ? 48 : r->range(4, 47));
  auto big = [&] { return static_cast<I>(r->u() * 2 * lim) - lim; };
  I p[4][2];
  for (auto& q : p)
    for (I& x : q) x = big();
  for (int k = 2; k < 4; ++k) {
    if (r->chance(0.25)) continue;
    const double t = r->chance(0.2) ? r->range(0, 1) : r->uni(-0.3, 1.3);
    const int off = r->chance(0.3) ? 0 : r->chance(0.8) ? 2 : 40;
    for (int j = 0; j < 2; ++j) p[k][j] = p[0][j] + static_cast<I>(std::llround(t * (p[1][j] - p[0][j]))) + r->range(-off, off);
  }
  if (r->chance(0.3)) {
    const int k = r->range(1, 8);  // Exactly on the line.
    for (int j = 0; j < 2; ++j) { p[1][j] = p[0][j] + (p[1][j] - p[0][j]) / k * k; p[2][j] = p[0][j] + (p[1][j] - p[0][j]) / k * r->range(0, k); }
  }
  if (r->chance(0.5)) { for (int j = 0; j < 2; ++j) { std::swap(p[0][j], p[2][j]); std::swap(p[1][j], p[3][j]); } }
  if (r->chance(0.5)) { for (int j = 0; j < 2; ++j) std::swap(p[2][j], p[3][j]); }
  for (auto& q : p)
    for (I x : q)
      if (x > lim || x < -lim) return;
  if ((p[0][0] == p[1][0] && p[0][1] == p[1][1]) || (p[2][0] == p[3][0] && p[2][1] == p[3][1])) return;
  std::ostringstream o;
  for (auto& q : p) o << "(" << q[0] << "," << q[1] << ")";
  o << "*2^-50";
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  auto cross = [&](int a, int b, int c) {
    const W x = static_cast<W>(p[b][0] - p[a][0]) * (p[c][1] - p[a][1]) - static_cast<W>(p[b][1] - p[a][1]) * (p[c][0] - p[a][0]);
    return (x > 0) - (x < 0);
  };
  auto on = [&](int a, int b, int q) {
    return cross(a, b, q) == 0 && std::min(p[a][0], p[b][0]) <= p[q][0] && p[q][0] <= std::max(p[a][0], p[b][0]) && std::min(p[a][1], p[b][1]) <= p[q][1] && p[q][1] <= std::max(p[a][1], p[b][1]);
  };
  const bool touch = on(0, 1, 2) || on(0, 1, 3) || on(2, 3, 0) || on(2, 3, 1);
  const bool proper = cross(0, 1, 2) * cross(0, 1, 3) < 0 && cross(2, 3, 0) * cross(2, 3, 1) < 0;
  const bool meet = touch || proper;
  vh::Count(meet ? (proper ? "fine_cross" : "fine_touch") : "fine_apart");
  auto v = [&](int k) { return Vec2d(std::ldexp(static_cast<double>(p[k][0]), -50), std::ldexp(static_cast<double>(p[k][1]), -50)); };
  const Segment2d a(v(0), v(1)), b(v(2), v(3));
  Vec2d ex(1e9, 1e9);
  const bool got = internal::ExactSegmentIntersection(a, b, &ex);
  VH_EXPECT(got == meet, "segment_exact_fine", o.str() << " got " << got << " want " << meet);
  // The place is only determined as well as the angle between the segments is.
  const double det = std::fabs((a.end() - a.start()).CrossProd(b.end() - b.start()));
  if (got) VH_EXPECT(std::sqrt(a.DistanceSqrToPoint(ex)) < 1e-12 && std::sqrt(b.DistanceSqrToPoint(ex)) < 1e-13 / std::max(det, 1e-14), "segment_exact_fine", o.str() << " at " << Str(ex));
}

// ------------------------------------------------------------------ boxes
void CheckBox(const Box2d& b, const std::vector<P>& corners /* rl, fl, fr, rr */, double l, double w, const std::string& d) {
  double xx[4], yy[4];
  b.GetCorners(xx, yy);
  for (int i = 0; i < 4; ++i)
    VH_EXPECT(NearV(Vec2d(xx[i], yy[i]), corners[i], 1e-8), "box_corners", d << " corner " << i << " " << xx[i] << "," << yy[i] << " want "
                                                                          << static_cast<double>(corners[i].x) << "," << static_cast<double>(corners[i].y));
  std::vector<Vec2d> v(7);
  b.GetCornersInVectorCounterClockwise(&v);
  VH_EXPECT(v.size() == 4, "box_corners", d);
  std::vector<P> pv;
  for (auto& q : v) pv.push_back({q.x(), q.y()});
  VH_EXPECT(vh::Near(ref::Area(pv), l * w, 1e-7), "box_ccw", d << " signed area " << static_cast<double>(ref::Area(pv)));
  VH_EXPECT(vh::Near(b.GetArea(), l * w, 1e-9) && vh::Near(b.length(), l, 1e-9) && vh::Near(b.width(), w, 1e-9), "box_size", d);
}
void BoxCase(vh::Rng* r) {
  const double l = r->uni(0.1, 20), w = r->uni(0.1, 10), th = RandAngle(r);
  const Vec2d c = RandVec(r, 50);
  std::ostringstream o;
  o.precision(17);
  o << "box " << Str(c) << " " << th << " " << l << "x" << w;
  auto rc = ref::Corners(c.x(), c.y(), l, w, th);  // rr, fr, fl, rl
  std::vector<P> k = {rc[3], rc[2], rc[1], rc[0]};
  const Vec2d dir = Vec2d::CreateUnitFromAngle(th);
  const int form = r->range(0, 4);
  o << " form " << form;
  Box2d b;
  const bool set = r->chance(0.5);
  if (form == 0) { if (set) b.Set(c, th, l, w); else b = Box2d(c, th, l, w); }
  if (form == 1) { if (set) b.Set(c, dir, l, w); else b = Box2d(c, dir, l, w); }
  if (form == 2) { const Vec2d s = c - dir * (l / 2), e = c + dir * (l / 2); if (set) b.Set(s, e, w); else b = Box2d(s, e, w); }
  if (form == 3) { const int i = r->range(0, 3); const Vec2d q(k[i].x, k[i].y); if (set) b.Set(i, q, th, l, w); else b = Box2d(i, q, th, l, w); o << " at " << i; }
  if (form == 4) { const int i = r->range(0, 3); const Vec2d q(k[i].x, k[i].y); b.Set(i, q, dir, l, w); o << " at " << i; }
  vh::Crumb(o.str());
  CheckBox(b, k, l, w, o.str());
  VH_EXPECT(AngDiff(b.axis_heading(), th) < 1e-7 && vh::Near(b.cos_heading(), cos(th), 1e-7) && vh::Near(b.sin_heading(), sin(th), 1e-7), "box_heading",
            o.str() << " " << b.axis_heading());
  double cl = l, cw = w;
  P cc = {c.x(), c.y()};
  F ch = th;
  const int n = r->range(1, 6);
  for (int i = 0; i < n; ++i) {
    const Vec2d v = RandVec(r, 20);
    const double t = RandAngle(r);
    switch (r->range(0, 6)) {
      case 0: b.ShiftCenter(v); cc = {cc.x + v.x(), cc.y + v.y()}; o << " shift " << Str(v); break;
      case 1: b.MoveCenter(v); cc = {v.x(), v.y()}; o << " move " << Str(v); break;
      case 2: b.RotateAroundCenter(t); ch += t; o << " rotc " << t; break;
      case 3: b.RotateAroundOrigin(t); cc = Rot(cc, {0, 0}, t); ch += t; o << " roto " << t; break;
      case 4: b.RotateAroundPoint(v, t); cc = Rot(cc, {v.x(), v.y()}, t); ch += t; o << " rotp " << Str(v) << t; break;
      case 5: cl = r->uni(0.1, 20); cw = r->uni(0.1, 10); b.SetSize(cl, cw); o << " size " << cl << "x" << cw; break;
      case 6: cw = r->uni(0.1, 10); b.set_width(cw); o << " width " << cw; break;
    }
    if (r->chance(0.3)) (void)b.axis_heading();
  }
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  const double chd = ch;
  rc = ref::Corners(0, 0, cl, cw, chd);
  for (auto& q : rc) { q.x += cc.x; q.y += cc.y; }
  CheckBox(b, {rc[3], rc[2], rc[1], rc[0]}, cl, cw, o.str());
  VH_EXPECT(NearV(b.center(), cc, 1e-8), "box_center", o.str());
  VH_EXPECT(b == Box2d(b) && !(b != Box2d(b)), "box_equal", o.str());
  // Axis aligned.
  const Vec2d bl = RandVec(r, 20), tr = bl + Vec2d(r->uni(0.1, 9), r->uni(0.1, 9));
  const Box2d aa(bl, tr);
  std::vector<Vec2d> v;
  aa.GetCornersInVectorCounterClockwise(&v);
  Vec2d mn = v[0], mx = v[0];
  for (auto& q : v) { mn = mn.ElemWiseMin(q); mx = mx.ElemWiseMax(q); }
  VH_EXPECT(NearV(mn, {bl.x(), bl.y()}, 1e-9) && NearV(mx, {tr.x(), tr.y()}, 1e-9) && aa.length() >= aa.width(), "box_aligned", Str(bl) << Str(tr));
}

// --------------------------------------------------------------- polygons
std::vector<Vec2d> RandConvex(vh::Rng* r) {
  std::vector<Vec2d> pts;
  if (r->chance(0.35)) {  // Hull of grid points.
    const int m = r->range(2, 12);
    std::vector<std::pair<int, int>> g;
    for (int i = 0; i < 30; ++i) g.push_back({r->range(-m, m), r->range(-m, m)});
    std::sort(g.begin(), g.end());
    g.erase(std::unique(g.begin(), g.end()), g.end());
    std::vector<Vec2d> h(2 * g.size());
    int k = 0;
    auto turn = [](Vec2d a, Vec2d b, Vec2d c) { return (b - a).CrossProd(c - a); };
    for (size_t i = 0; i < g.size(); ++i) {
      Vec2d q(g[i].first, g[i].second);
      while (k >= 2 && turn(h[k - 2], h[k - 1], q) <= 0) --k;
      h[k++] = q;
    }
    for (int i = static_cast<int>(g.size()) - 2, t = k + 1; i >= 0; --i) {
      Vec2d q(g[i].first, g[i].second);
      while (k >= t && turn(h[k - 2], h[k - 1], q) <= 0) --k;
      h[k++] = q;
    }
    h.resize(std::max(0, k - 1));
    pts = h;
  }
  if (pts.size() < 3) {
    pts.clear();
    const int n = r->chance(0.4) ? r->range(11, 60) : r->range(3, 10);
    const double a = r->uni(0.5, 20), b = r->uni(0.5, 20), th = RandAngle(r);
    const Vec2d c = RandVec(r, 15);
    std::vector<double> ang;
    for (int i = 0; i < n; ++i) ang.push_back(2 * M_PI * (i + r->uni(0.05, 0.9)) / n);
    for (double t : ang) pts.push_back(c + Vec2d(a * cos(t), b * sin(t)).Rotated(th));
  } else if (r->chance(0.5)) {
    const Vec2d c(r->range(-6, 6), r->range(-6, 6));
    for (auto& q : pts) q += c;
  }
  std::rotate(pts.begin(), pts.begin() + r->range(0, pts.size() - 1), pts.end());
  return pts;
}
std::vector<P> ToP(const std::vector<Vec2d>& v) {
  std::vector<P> o;
  for (auto& q : v) o.push_back({q.x(), q.y()});
  return o;
}
void CheckPolygon(vh::Rng* r, const Polygon2d& g, const std::vector<P>& f, const std::string& d, double tol) {
  const int n = f.size();
  VH_EXPECT(g.NumPoints() == n && static_cast<int>(g.points().size()) == n, "polygon_points", d << " " << g.NumPoints());
  for (int i = 0; i < n; ++i) VH_EXPECT(NearV(g.points()[i], f[i], tol), "polygon_points", d << " point " << i);
  P mn = f[0], mx = f[0];
  for (auto& q : f) { mn = {std::min(mn.x, q.x), std::min(mn.y, q.y)}; mx = {std::max(mx.x, q.x), std::max(mx.y, q.y)}; }
  VH_EXPECT(NearV(g.bbox_bottom_left(), mn, tol) && NearV(g.bbox_top_right(), mx, tol), "polygon_bbox", d << " " << Str(g.bbox_bottom_left()) << Str(g.bbox_top_right()));
  const F area = ref::Area(f);
  VH_EXPECT(vh::Near(g.Area(), area, 1e-8), "polygon_area", d << " " << g.Area() << " want " << static_cast<double>(area));
  for (int k = 0; k < 6; ++k) {
    Vec2d q;
    if (k < 2) {
      q = Vec2d(r->uni(mn.x, mx.x), r->uni(mn.y, mx.y));
    } else if (k < 4) {
      F sx = 0, sy = 0, sw = 0;
      for (auto& p : f) { const double wgt = std::pow(r->u(), 4); sx += p.x * wgt; sy += p.y * wgt; sw += wgt; }
      q = Vec2d(sx / sw, sy / sw);
    } else {
      const int i = r->range(0, n - 1);
      const P e0 = f[i], e1 = f[(i + 1) % n];
      const double t = r->u(), off = r->uni(-0.2, 0.2);
      const F L = Dist(e0, e1);
      q = Vec2d(e0.x + (e1.x - e0.x) * t - (e1.y - e0.y) / L * off, e0.y + (e1.y - e0.y) * t + (e1.x - e0.x) / L * off);
    }
    F worst = INFINITY;
    for (int i = 0; i < n; ++i) worst = std::min(worst, ref::Cross(f[i], f[(i + 1) % n], {q.x(), q.y()}) / std::max<F>(1e-12L, Dist(f[i], f[(i + 1) % n])));
    if (fabsl(worst) < 1e-6) continue;
    vh::Count(worst > 0 ? "points_inside" : "points_outside");
    VH_EXPECT(g.PointInside(q) == (worst > 0), "polygon_inside", d << " point " << Str(q) << " distance " << static_cast<double>(worst));
    VH_EXPECT(g.PointInside(q.x(), q.y()) == g.PointInside(q), "polygon_inside", d);
  }
}
void PolygonCase(vh::Rng* r) {
  const std::vector<Vec2d> pa = RandConvex(r);
  std::vector<Vec2d> pb = RandConvex(r);
  if (r->chance(0.15)) pb = pa;
  if (r->chance(0.1)) { pb = pa; const Vec2d by(r->range(-3, 3), r->range(-3, 3)); for (auto& q : pb) q += by; }
  std::ostringstream o;
  o << "a=" << Str(pa) << " b=" << Str(pb);
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  bool ccw = false;
  VH_EXPECT(Polygon2d::IsConvexHull(pa, &ccw) && ccw, "convex_hull", o.str());
  std::vector<Vec2d> rev(pa.rbegin(), pa.rend());
  VH_EXPECT(Polygon2d::IsConvexHull(rev, &ccw) && !ccw && Polygon2d::IsConvexHull(rev), "convex_hull", o.str());
  if (pa.size() > 4) {
    // Pull one vertex deep inside: not convex any more.
    std::vector<Vec2d> bad = pa;
    Vec2d mid;
    for (auto& q : pa) mid += q;
    const int at = r->range(0, pa.size() - 1);
    bad[at] = mid / pa.size();
    const int n = pa.size();
    const Vec2d prev = bad[(at + n - 1) % n], next = bad[(at + 1) % n];
    if ((bad[at] - prev).CrossProd(next - bad[at]) < -1e-6) VH_EXPECT(!Polygon2d::IsConvexHull(bad), "convex_hull", o.str() << " bad " << Str(bad));
    // A star: every turn goes left, but it winds twice.
    if (n >= 5 && n % 2 == 1) {
      std::vector<Vec2d> star;
      for (int i = 0; i < n; ++i) star.push_back(pa[(2 * i) % n]);
      VH_EXPECT(!Polygon2d::IsConvexHull(star), "convex_hull", o.str() << " star");
      // The same with a point halfway one of its edges: the first corner alone no longer settles it.
      const int edge = r->range(0, n - 1);
      star.insert(star.begin() + edge + 1, (star[edge] + star[(edge + 1) % n]) * 0.5);
      if (edge == 0 || r->chance(0.5)) VH_EXPECT(!Polygon2d::IsConvexHull(star), "convex_hull", o.str() << " star with a middle point after " << edge);
    }
  }
  Polygon2d a(pa), b(pb);
  std::vector<P> fa = ToP(pa), fb = ToP(pb);
  CheckPolygon(r, a, fa, o.str(), 1e-12);
  for (int step = 0; step < 3; ++step) {
    const F want = ref::IntersectionArea(fa, fb);
    const double got = a.ComputeIntersectionArea(b), got2 = b.ComputeIntersectionArea(a);
    VH_EXPECT(vh::Near(got, want, 1e-6), "polygon_intersection", o.str() << " got " << got << " want " << static_cast<double>(want));
    VH_EXPECT(vh::Near(got2, want, 1e-6), "polygon_intersection", o.str() << " swapped got " << got2 << " want " << static_cast<double>(want));
    if (want > 1e-6) {
      vh::Count("polygons_overlap");
      VH_EXPECT(a.MaybeHasIntersectionWith(b) && b.MaybeHasIntersectionWith(a), "polygon_maybe", o.str());
    } else {
      vh::Count("polygons_apart");
    }
    // Move a and look again: the cached bounds have to follow.
    const Vec2d c = RandVec(r, 10), off = RandVec(r, 6);
    if (r->chance(0.4)) {
      a.ShiftCenter(off);
      for (auto& q : fa) q = {q.x + off.x(), q.y + off.y()};
      o << " shift " << Str(off);
    } else {
      const double t = r->chance(0.15) ? 0.0 : RandAngle(r);
      a.Transform(t, c, off);
      for (auto& q : fa) { q = Rot(q, {c.x(), c.y()}, t); q = {q.x + off.x(), q.y + off.y()}; }
      o << " transform " << t << Str(c) << Str(off);
    }
    vh::Crumb(o.str());
    CheckPolygon(r, a, fa, o.str(), 1e-8);
  }
  // Repeated points are dropped.
  std::vector<Vec2d> dup;
  for (auto& q : pa) for (int k = r->range(1, 3); k > 0; --k) dup.push_back(q);
  if (r->chance(0.5)) dup.push_back(pa[0]);
  CheckPolygon(r, Polygon2d(dup), ToP(pa), o.str() + " with repeated points", 1e-12);
  // A box without area meets nothing.
  const Polygon2d flat(Box2d(Vec2d(pb[0]), RandAngle(r), r->chance(0.5) ? 0.0 : r->uni(0.1, 5), 0.0));
  VH_EXPECT(std::fabs(flat.ComputeIntersectionArea(b)) < 1e-9 && std::fabs(b.ComputeIntersectionArea(flat)) < 1e-9, "polygon_flat", o.str());
  VH_EXPECT(std::fabs(flat.Area()) < 1e-9, "polygon_flat", o.str());
  // The polygon of a box.
  const double l = r->uni(0.1, 20), w = r->uni(0.1, 10), th = RandAngle(r);
  const Polygon2d pbx(Box2d(Vec2d(pa[0]), th, l, w));
  const F want = ref::IntersectionArea(ref::Corners(pa[0].x(), pa[0].y(), l, w, th), fb);
  VH_EXPECT(vh::Near(pbx.ComputeIntersectionArea(b), want, 1e-6), "polygon_box", o.str() << " box " << th << " " << l << "x" << w);
}

// ------------------------------------------------------------------ trees
template <class T>
void TreeCase(vh::Rng* r) {
  AABox2dTree<T> tree;
  const int rebuilds = r->range(1, 3);
  for (int rb = 0; rb < rebuilds; ++rb) {
    const int n = r->chance(0.05) ? 0 : (r->chance(0.3) ? r->range(1, 6) : r->range(1, 120));
    const int span = r->range(1, 40);
    std::vector<AABox2d<T>> v;
    std::ostringstream o;
    for (int i = 0; i < n; ++i) {
      AABox2d<T> b;
      // On a grid every bound is exact, touching included.
      const T x = r->range(-span * 4, span * 4) / T(4), y = r->range(-span * 4, span * 4) / T(4);
      const T w = r->range(0, 16) / T(2), h = r->range(0, 16) / T(2);
      if (r->chance(0.5)) b = AABox2d<T>(x, y, w / 2, h / 2); else b.Init(x - w / 2, y - h / 2, x + w / 2, y + h / 2);
      v.push_back(b);
      o << "[" << x << "," << y << "," << w / 2 << "," << h / 2 << "]";
    }
    vh::Crumb("boxes " + o.str());
    vh::Nontrivial(vh::Hash(o.str()));
    tree.BuildTree(v);
    std::vector<int> hits = {1, 2, 3};
    for (int i = 0; i < n; ++i) {
      tree.CollectOverlaps(i, &hits);
      std::vector<int> want, got = hits;
      for (int j = 0; j < n; ++j) {
        const bool ov = std::abs(v[i].cx() - v[j].cx()) <= v[i].hx() + v[j].hx() && std::abs(v[i].cy() - v[j].cy()) <= v[i].hy() + v[j].hy();
        VH_EXPECT(v[i].Overlap(v[j]) == ov, "aabox_overlap", o.str() << " " << i << "," << j);
        if (j != i && ov) want.push_back(j);
      }
      std::sort(got.begin(), got.end());
      VH_EXPECT(got == want, "tree_overlaps", "box " << i << " of " << o.str() << " got " << got.size() << " want " << want.size());
      if (!want.empty()) vh::Count("tree_hits", want.size());
    }
    for (int k = 0; k < std::min(n, 8); ++k) {
      const auto &a = v[r->range(0, n - 1)], &b = v[r->range(0, n - 1)];
      const F want = ref::Overlap1(a.cx(), a.hx() * 2, b.cx(), b.hx() * 2) * ref::Overlap1(a.cy(), a.hy() * 2, b.cy(), b.hy() * 2);
      VH_EXPECT(vh::Near(a.ComputeIntersectionArea(b), want, 1e-6), "aabox_area", o.str());
      auto u = a;
      u.Union(b);
      T x0, y0, x1, y1, ax0, ay0, ax1, ay1, bx0, by0, bx1, by1;
      u.GetMin(&x0, &y0); u.GetMax(&x1, &y1);
      a.GetMin(&ax0, &ay0); a.GetMax(&ax1, &ay1);
      b.GetMin(&bx0, &by0); b.GetMax(&bx1, &by1);
      VH_EXPECT(x0 == std::min(ax0, bx0) && y0 == std::min(ay0, by0) && x1 == std::max(ax1, bx1) && y1 == std::max(ay1, by1), "aabox_union", o.str());
      const T qx = r->range(-span * 4, span * 4) / T(4), qy = r->range(-span * 4, span * 4) / T(4);
      const T dx = std::max<T>(0, std::max(ax0 - qx, qx - ax1)), dy = std::max<T>(0, std::max(ay0 - qy, qy - ay1));
      VH_EXPECT(a.Inside(qx, qy) == (dx == 0 && dy == 0), "aabox_inside", o.str());
      VH_EXPECT(vh::Near(a.DistanceSqrToPoint(qx, qy), dx * dx + dy * dy, 1e-6), "aabox_distance", o.str());
      T gx, gy, gw, gh;
      a.GetXYWH(&gx, &gy, &gw, &gh);
      VH_EXPECT(gx == ax0 && gy == ay0 && gw == ax1 - ax0 && gh == ay1 - ay0, "aabox_xywh", o.str());
      auto t = a;
      t.Translate(qx, qy);
      VH_EXPECT(t.cx() == a.cx() + qx && t.cy() == a.cy() + qy && t.hx() == a.hx() && t.hy() == a.hy(), "aabox_translate", o.str());
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {
      {"vec", 1.0, VecCase},
      {"segment_history", 0.6, SegHistoryCase},
      {"segment_intersect", 2.0, SegIntersectCase},
      {"segment_exact", 1.0, SegExactCase},
      {"box", 0.6, BoxCase},
      {"polygon", 0.3, PolygonCase},
      {"tree", 0.05, TreeCase<double>},
      {"tree_float", 0.02, TreeCase<float>},
  });
}
