// Workload generators shared by the C++ monitors.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include <sstream>
#include <string>
#include <vector>

#include "vh.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"

namespace gen {
using waymo::open_dataset::Label;
using waymo::open_dataset::Object;

inline Label::Box MakeBox(double x, double y, double z, double l, double w, double h, double yaw) {
  Label::Box b;
  b.set_center_x(x);
  b.set_center_y(y);
  b.set_center_z(z);
  b.set_length(l);
  b.set_width(w);
  b.set_height(h);
  b.set_heading(yaw);
  return b;
}

inline std::string Str(const Label::Box& b) {
  std::ostringstream o;
  o.precision(17);
  o << "[" << b.center_x() << "," << b.center_y() << "," << b.center_z() << "," << b.length() << ","
    << b.width() << "," << b.height() << "," << b.heading() << "]";
  return o.str();
}

// A box as a vehicle/pedestrian detector would give it, within `spread` meters.
inline Label::Box RandBox(vh::Rng* r, double spread) {
  static const double kSizes[][3] = {{4.5, 2.0, 1.7}, {0.8, 0.8, 1.75}, {1.8, 0.7, 1.8}, {12, 2.9, 3.2}, {0.5, 0.5, 2.0}};
  const double* s = kSizes[r->range(0, 4)];
  double yaw = r->uni(-3.2, 3.2);
  if (r->chance(0.2)) yaw = r->range(-4, 4) * 0.78539816339744828;
  return MakeBox(r->uni(-spread, spread), r->uni(-spread, spread), r->uni(-1.5, 1.5), s[0] * r->uni(0.6, 1.4), s[1] * r->uni(0.6, 1.4),
                 s[2] * r->uni(0.6, 1.4), yaw);
}

inline Label::Box Jitter(vh::Rng* r, const Label::Box& b, double amount) {
  Label::Box o = b;
  o.set_center_x(b.center_x() + r->gauss() * amount * b.length() * 0.3);
  o.set_center_y(b.center_y() + r->gauss() * amount * b.width() * 0.3);
  o.set_center_z(b.center_z() + r->gauss() * amount * 0.2);
  o.set_length(b.length() * (1 + 0.2 * amount * r->uni(-1, 1)));
  o.set_width(b.width() * (1 + 0.2 * amount * r->uni(-1, 1)));
  o.set_height(b.height() * (1 + 0.2 * amount * r->uni(-1, 1)));
  o.set_heading(b.heading() + r->gauss() * 0.2 * amount);
  if (r->chance(0.15)) o.set_heading(o.heading() + 3.14159265358979);
  return o;
}
}  // namespace gen
#endif
