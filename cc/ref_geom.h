// Reference geometry in long double, independent of the code under test.
#ifndef VERIF_REF_GEOM_H_
#define VERIF_REF_GEOM_H_
#include <algorithm>
#include <cmath>
#include <vector>

namespace ref {
typedef long double F;
struct P {
  F x, y;
};
inline F Cross(P a, P b, P c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }

// Corners of a box, counter-clockwise.
inline std::vector<P> Corners(double cx, double cy, double l, double w, double yaw) {
  const F c = cosl(static_cast<F>(yaw)), s = sinl(static_cast<F>(yaw));
  const F sx[4] = {-0.5L, 0.5L, 0.5L, -0.5L}, sy[4] = {-0.5L, -0.5L, 0.5L, 0.5L};
  std::vector<P> o;
  for (int i = 0; i < 4; ++i) {
    const F x = sx[i] * l, y = sy[i] * w;
    o.push_back({cx + x * c - y * s, cy + x * s + y * c});
  }
  return o;
}

inline F Area(const std::vector<P>& p) {
  F a = 0;
  for (size_t i = 1; i + 1 < p.size(); ++i) a += Cross(p[0], p[i], p[i + 1]);
  return a / 2;
}

// Clips convex `a` by the half planes of convex counter-clockwise `b`.
inline std::vector<P> Clip(std::vector<P> a, const std::vector<P>& b) {
  for (size_t i = 0; i < b.size() && !a.empty(); ++i) {
    const P e0 = b[i], e1 = b[(i + 1) % b.size()];
    if (e0.x == e1.x && e0.y == e1.y) continue;
    std::vector<P> o;
    for (size_t j = 0; j < a.size(); ++j) {
      const P p = a[j], q = a[(j + 1) % a.size()];
      const F dp = Cross(e0, e1, p), dq = Cross(e0, e1, q);
      if (dp >= 0) o.push_back(p);
      if ((dp > 0 && dq < 0) || (dp < 0 && dq > 0)) {
        const F t = dp / (dp - dq);
        o.push_back({p.x + (q.x - p.x) * t, p.y + (q.y - p.y) * t});
      }
    }
    a.swap(o);
  }
  return a;
}
inline F IntersectionArea(const std::vector<P>& a, const std::vector<P>& b) {
  const std::vector<P> c = Clip(a, b);
  return c.size() < 3 ? 0 : std::max<F>(0, Area(c));
}
inline F Overlap1(F c1, F l1, F c2, F l2) {
  return std::max<F>(0, std::min(c1 + l1 / 2, c2 + l2 / 2) - std::max(c1 - l1 / 2, c2 - l2 / 2));
}
}  // namespace ref
#endif
