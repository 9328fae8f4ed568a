// Monitor of ExactFloat against arbitrary-precision integers.
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>

#include "vh.h"
#include "waymo_open_dataset/math/exactfloat.h"

using boost::multiprecision::cpp_int;
using waymo::open_dataset::ExactFloat;

namespace {
// Reference value: kind 0 zero, 1 finite (sign * m * 2^e, m odd), 2 inf, 3 nan.
struct V {
  int kind = 0, sign = 1;
  cpp_int m = 0;
  long e = 0;
};
long Bits(const cpp_int& m) { return m == 0 ? 0 : static_cast<long>(msb(m)) + 1; }
V Canon(V v) {
  if (v.kind != 1) { v.m = 0; v.e = 0; return v; }
  if (v.m == 0) { v.kind = 0; v.e = 0; return v; }
  const long z = lsb(v.m);
  v.m >>= z;
  v.e += z;
  const long x = v.e + Bits(v.m);
  if (x < ExactFloat::kMinExp) { v.kind = 0; v.m = 0; v.e = 0; }
  else if (x > ExactFloat::kMaxExp) { v.kind = 2; v.m = 0; v.e = 0; }
  return v;
}
V FromDouble(double d) {
  V v;
  v.sign = std::signbit(d) ? -1 : 1;
  if (std::isnan(d)) { v.kind = 3; return v; }
  if (std::isinf(d)) { v.kind = 2; return v; }
  int ex;
  const double f = std::frexp(std::fabs(d), &ex);
  v.kind = 1;
  v.m = static_cast<unsigned long long>(std::ldexp(f, 60));
  v.e = ex - 60;
  return Canon(v);
}
std::string Str(const V& v) {
  std::ostringstream o;
  o << (v.sign < 0 ? "-" : "+");
  if (v.kind == 0) o << "0";
  if (v.kind == 2) o << "inf";
  if (v.kind == 3) o << "nan";
  if (v.kind == 1) o << v.m << "*2^" << v.e;
  return o.str();
}
int UCmp(const V& a, const V& b) {  // |a| against |b|, both finite non-zero.
  const long xa = a.e + Bits(a.m), xb = b.e + Bits(b.m);
  if (xa != xb) return xa < xb ? -1 : 1;
  const long s = std::min(a.e, b.e);
  const cpp_int p = a.m << (a.e - s), q = b.m << (b.e - s);
  return p < q ? -1 : p > q;
}
int Cmp(const V& a, const V& b) {  // Neither is a NaN.
  auto rank = [](const V& v) { return v.kind == 0 ? 0 : v.sign * (v.kind == 1 ? 1 : 2); };
  if (rank(a) != rank(b)) return rank(a) < rank(b) ? -1 : 1;
  if (a.kind != 1) return 0;
  return a.sign * UCmp(a, b);
}
V Neg(V v) { v.sign = -v.sign; return v; }
V Nan() { V v; v.kind = 3; return v; }
V Add(const V& a, const V& b) {
  if (a.kind == 3 || b.kind == 3) return Nan();
  if (a.kind == 2 && b.kind == 2 && a.sign != b.sign) return Nan();
  if (a.kind == 2) return a;
  if (b.kind == 2) return b;
  if (a.kind == 0 && b.kind == 0) { V v; v.sign = a.sign == b.sign ? a.sign : 1; return v; }
  if (a.kind == 0) return b;
  if (b.kind == 0) return a;
  V r;
  r.kind = 1;
  r.e = std::min(a.e, b.e);
  cpp_int p = a.m << (a.e - r.e), q = b.m << (b.e - r.e);
  if (a.sign < 0) p = -p;
  if (b.sign < 0) q = -q;
  cpp_int s = p + q;
  r.sign = s < 0 ? -1 : 1;
  r.m = s < 0 ? cpp_int(-s) : s;
  return Canon(r);
}
V Mul(const V& a, const V& b) {
  V r;
  r.sign = a.sign * b.sign;
  if (a.kind == 3 || b.kind == 3) return Nan();
  if ((a.kind == 2 && b.kind == 0) || (a.kind == 0 && b.kind == 2)) return Nan();
  if (a.kind == 2 || b.kind == 2) { r.kind = 2; return r; }
  if (a.kind == 0 || b.kind == 0) return r;
  r.kind = 1;
  r.m = a.m * b.m;
  r.e = a.e + b.e;
  return Canon(r);
}
enum Mode { kEven, kAway, kZero, kUp, kPos, kNegInf };
V Round(const V& a, long bit, int mode) {
  if (a.kind != 1 || a.e >= bit) return a;
  const long sh = bit - a.e;
  V r = a;
  cpp_int rest = a.m;
  if (sh > Bits(a.m) + 2) {  // All discarded, less than a half.
    r.m = 0;
  } else {
    r.m = a.m >> sh;
    rest = a.m - (r.m << sh);
  }
  const bool small = sh > Bits(a.m) + 2;
  const cpp_int half = small ? cpp_int(a.m + 1) : cpp_int(cpp_int(1) << (sh - 1));
  bool inc = false;
  if (mode == kEven) inc = rest > half || (rest == half && (r.m & 1) == 1);
  if (mode == kAway) inc = rest >= half;
  if (mode == kUp) inc = rest != 0;
  if (mode == kPos) inc = rest != 0 && a.sign > 0;
  if (mode == kNegInf) inc = rest != 0 && a.sign < 0;
  if (inc) r.m += 1;
  r.e = bit;
  return Canon(r);
}
double ToDouble(const V& a) {
  if (a.kind == 0) return a.sign * 0.0;
  if (a.kind == 2) return a.sign * INFINITY;
  if (a.kind == 3) return NAN;
  const V r = Round(a, std::max(a.e + Bits(a.m) - 53, -1074L), kEven);
  if (r.kind == 0) return a.sign * 0.0;
  if (r.e + Bits(r.m) > 1024) return a.sign * INFINITY;
  return a.sign * std::ldexp(static_cast<double>(static_cast<unsigned long long>(r.m)), static_cast<int>(r.e));
}

// Reads a %g-like string: digits * 10^ten.
bool Parse(std::string s, int* sign, cpp_int* digits, long* ten, int* nd) {
  *sign = 1;
  if (!s.empty() && s[0] == '-') { *sign = -1; s = s.substr(1); }
  *digits = 0; *ten = 0; *nd = 0;
  bool dot = false, lead = true;
  std::string dg;
  size_t i = 0;
  for (; i < s.size(); ++i) {
    if (s[i] == '.') { if (dot) return false; dot = true; continue; }
    if (s[i] == 'e') break;
    if (s[i] < '0' || s[i] > '9') return false;
    dg += s[i];
    if (dot) --*ten;
    if (s[i] != '0') lead = false;
    if (!lead) ++*nd;
  }
  if (dg.empty()) return false;
  if (i < s.size()) *ten += strtol(s.c_str() + i + 1, nullptr, 10);
  size_t z = dg.find_first_not_of('0');
  *digits = z == std::string::npos ? cpp_int(0) : cpp_int(dg.substr(z));
  return true;
}
cpp_int Pow10(long n) { return boost::multiprecision::pow(cpp_int(10), static_cast<unsigned>(n)); }

// The value of x is v.  Exact for moderate exponents.
void CheckIs(const ExactFloat& x, const V& v, const char* key, const std::string& d) {
  VH_EXPECT(x.is_zero() == (v.kind == 0) && x.is_normal() == (v.kind == 1) && x.is_inf() == (v.kind == 2) && x.is_nan() == (v.kind == 3) &&
                x.is_finite() == (v.kind < 2), key, d << " want " << Str(v).substr(0, 300) << " got " << (x.is_normal() ? "normal" : x.ToString()));
  if (x.is_nan() || v.kind == 3) return;
  VH_EXPECT(x.sign_bit() == (v.sign < 0), key, d << " want " << Str(v).substr(0, 300) << " sign bit " << x.sign_bit());
  VH_EXPECT(x.sgn() == (v.kind == 0 ? 0 : v.sign), key, d << " sgn " << x.sgn());
  if (v.kind != 1 || !x.is_normal()) return;
  VH_EXPECT(x.exp() == v.e + Bits(v.m) && x.prec() == Bits(v.m), key,
            d << " want " << Str(v).substr(0, 300) << " got exp " << x.exp() << " prec " << x.prec());
  // The mantissa, exactly, through the decimal expansion of the fraction.
  int ex = 0;
  const ExactFloat fr = frexp(x, &ex);
  VH_EXPECT(ex == x.exp(), key, d << " frexp " << ex);
  int sg, nd;
  cpp_int dg;
  long ten;
  const bool ok = Parse(ldexp(fr, x.prec()).ToStringWithMaxDigits(100000), &sg, &dg, &ten, &nd);
  VH_EXPECT(ok && ten >= 0 && sg == v.sign && dg * Pow10(ten) == v.m, key, d << " want mantissa " << Str(v).substr(0, 300) << " got " << fr.ToString());
}

double RandDouble(vh::Rng* r) {
  switch (r->range(0, 9)) {
    case 0: return r->pick(std::vector<double>{0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 1e300, -1e-300, 5e-324, -5e-324, 2.2250738585072014e-308,
                                               1.7976931348623157e308, INFINITY, -INFINITY, NAN, 9007199254740993.0, 9.2233720368547758e18, -9.2233720368547758e18,
                                               2147483648.0, -2147483648.0});
    case 1: return r->range(-1000, 1000) / 8.0;
    case 2: return r->range(-100000, 100000);
    case 3: { uint64_t b = r->next(); double d; memcpy(&d, &b, 8); return d; }
    case 4: return std::ldexp(r->uni(-1, 1), r->range(-1074, -1000));
    case 5: return std::ldexp(r->uni(-1, 1), r->range(55, 70));
    case 6: return (r->range(-200, 200) + 0.5) * std::ldexp(1, r->range(-3, 3));
    default: return r->uni(-1, 1) * std::ldexp(1, r->range(-60, 60));
  }
}
struct Pair {
  ExactFloat x;
  V v;
  std::string d;
};
Pair RandValue(vh::Rng* r, bool wide) {
  Pair p;
  std::ostringstream o;
  o.precision(17);
  const int n = r->chance(0.4) ? 0 : r->range(1, 4);
  double d = RandDouble(r);
  p.x = ExactFloat(d);
  p.v = FromDouble(d);
  o << d;
  for (int i = 0; i < n; ++i) {
    d = RandDouble(r);
    o << (i % 2 ? "+" : "*") << d;
    if (i % 2) { p.x += ExactFloat(d); p.v = Add(p.v, FromDouble(d)); } else { p.x *= ExactFloat(d); p.v = Mul(p.v, FromDouble(d)); }
  }
  if (r->chance(0.2)) {
    const int k = wide && r->chance(0.5) ? r->pick(std::vector<int>{ExactFloat::kMinExp, ExactFloat::kMaxExp, ExactFloat::kMinExp + 900, ExactFloat::kMaxExp - 900, 1000000, -1000000}) + r->range(-1100, 1100)
                                        : r->range(-3000, 3000);
    p.x = ldexp(p.x, k);
    if (p.v.kind == 1) p.v.e += k;
    p.v = Canon(p.v);
    o << "*2^" << k;
  }
  p.d = "(" + o.str() + ")";
  return p;
}
bool Wide(const V& v) { return v.kind == 1 && std::labs(v.e) > 100000; }

void ArithCase(vh::Rng* r) {
  Pair a = RandValue(r, true), b = RandValue(r, true);
  if (r->chance(0.15)) { b = a; if (r->chance(0.5)) { b.x = -b.x; b.v = Neg(b.v); if (b.v.kind == 3) b.v.sign = 1; } }
  const std::string d = a.d + " , " + b.d;
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  vh::Sample(d);
  CheckIs(a.x, a.v, "construct", d);
  // Sums of numbers whose exponents are far apart have no room.
  const bool far = (Wide(a.v) || Wide(b.v)) && a.v.kind == 1 && b.v.kind == 1 && std::labs(a.v.e - b.v.e) > 100000;
  if (!far) {
    CheckIs(a.x + b.x, Add(a.v, b.v), "add", d);
    CheckIs(a.x - b.x, Add(a.v, Neg(b.v)), "sub", d);
    ExactFloat s = a.x;
    s -= b.x;
    CheckIs(s, Add(a.v, Neg(b.v)), "sub", d);
    CheckIs(fdim(a.x, b.x), (a.v.kind == 3 || b.v.kind == 3) ? Nan() : Cmp(a.v, b.v) <= 0 ? V() : Add(a.v, Neg(b.v)), "fdim", d);
  }
  CheckIs(a.x * b.x, Mul(a.v, b.v), "mul", d);
  if (Mul(a.v, b.v).kind == 1) vh::Count("products");
  { ExactFloat s = a.x; s *= s; CheckIs(s, Mul(a.v, a.v), "mul", d); s = s; s += s; V q = Mul(a.v, a.v); CheckIs(s, Add(q, q), "add", d); }
  if (a.v.kind != 3) { CheckIs(-a.x, Neg(a.v), "neg", d); CheckIs(+a.x, a.v, "neg", d); }
  { V q = a.v; q.sign = 1; CheckIs(abs(a.x), q, "abs", d); CheckIs(fabs(a.x), q, "abs", d); q = a.v; q.sign = b.v.sign; if (b.v.kind != 3) CheckIs(copysign(a.x, b.x), q, "copysign", d); }
  // Order.
  if (a.v.kind == 3 || b.v.kind == 3) {
    VH_EXPECT(!(a.x == b.x) && a.x != b.x && !(a.x < b.x) && !(a.x > b.x) && !(a.x <= b.x) && !(a.x >= b.x), "compare", d);
    vh::Count("nan_compares");
    CheckIs(fmax(a.x, b.x), a.v.kind == 3 ? b.v : a.v, "fmax", d);
    CheckIs(fmin(a.x, b.x), a.v.kind == 3 ? b.v : a.v, "fmin", d);
  } else {
    const int c = Cmp(a.v, b.v);
    VH_EXPECT((a.x == b.x) == (c == 0) && (a.x != b.x) == (c != 0) && (a.x < b.x) == (c < 0) && (a.x > b.x) == (c > 0) && (a.x <= b.x) == (c <= 0) &&
                  (a.x >= b.x) == (c >= 0), "compare", d << " order " << c);
    vh::Count(c ? "compares" : "equals");
    if (c != 0) { CheckIs(fmax(a.x, b.x), c > 0 ? a.v : b.v, "fmax", d); CheckIs(fmin(a.x, b.x), c < 0 ? a.v : b.v, "fmin", d); }
  }
}

void RoundCase(vh::Rng* r) {
  Pair a = RandValue(r, false);
  vh::Crumb(a.d);
  vh::Nontrivial(vh::Hash(a.d));
  CheckIs(ceil(a.x), Round(a.v, 0, kPos), "ceil", a.d);
  CheckIs(floor(a.x), Round(a.v, 0, kNegInf), "floor", a.d);
  CheckIs(trunc(a.x), Round(a.v, 0, kZero), "trunc", a.d);
  CheckIs(round(a.x), Round(a.v, 0, kAway), "round", a.d);
  CheckIs(rint(a.x), Round(a.v, 0, kEven), "rint", a.d);
  CheckIs(nearbyint(a.x), Round(a.v, 0, kEven), "rint", a.d);
  for (int m = 0; m < 2; ++m) {
    const V q = Round(a.v, 0, m ? kAway : kEven);
    long want;
    if (q.kind == 3) want = std::numeric_limits<long>::max();
    else if (q.kind == 0) want = 0;
    else if (q.kind == 2 || q.e + Bits(q.m) > 63) want = q.sign < 0 ? std::numeric_limits<long>::min() : std::numeric_limits<long>::max();
    else want = q.sign * static_cast<long>(cpp_int(q.m << q.e));
    VH_EXPECT((m ? lround(a.x) : lrint(a.x)) == want && (m ? llround(a.x) : llrint(a.x)) == want, "lround", a.d << " want " << want << " got " << lround(a.x) << " " << lrint(a.x));
  }
  const int prec = r->chance(0.5) ? r->range(2, 20) : r->range(2, 120);
  if (a.v.kind == 1 && Bits(a.v.m) > prec) vh::Count("rounded");
  const ExactFloat::RoundingMode modes[] = {ExactFloat::kRoundTiesToEven, ExactFloat::kRoundTiesAwayFromZero, ExactFloat::kRoundTowardZero,
                                            ExactFloat::kRoundAwayFromZero, ExactFloat::kRoundTowardPositive, ExactFloat::kRoundTowardNegative};
  for (int m = 0; m < 6; ++m)
    CheckIs(a.x.RoundToMaxPrec(prec, modes[m]), a.v.kind == 1 && Bits(a.v.m) > prec ? Round(a.v, a.v.e + Bits(a.v.m) - prec, m) : a.v, "round_prec",
            a.d + " to " + std::to_string(prec) + " mode " + std::to_string(m));
  const double want = ToDouble(a.v), got = a.x.ToDouble();
  VH_EXPECT((std::isnan(want) && std::isnan(got)) || (want == got && std::signbit(want) == std::signbit(got)), "to_double", a.d << " want " << want << " got " << got);
  // Subnormal results of long mantissas.
  V s = a.v;
  if (s.kind == 1) {
    const int to = r->range(-1080, -1010);
    const ExactFloat y = ldexp(a.x, to - a.x.exp());
    s.e += to - (s.e + Bits(s.m));
    CheckIs(y, Canon(s), "ldexp", a.d);
    VH_EXPECT(y.ToDouble() == ToDouble(s), "to_double", a.d << " scaled to exponent " << to << " want " << ToDouble(s) << " got " << y.ToDouble());
    vh::Count("subnormals");
  }
}

void ScaleCase(vh::Rng* r) {
  Pair a = RandValue(r, true);
  int k = r->range(-5000, 5000);
  if (r->chance(0.6)) k = r->pick(std::vector<int>{INT_MIN, INT_MAX, ExactFloat::kMinExp, ExactFloat::kMaxExp, -2 * ExactFloat::kMaxExp, 2 * ExactFloat::kMaxExp, 0});
  if (r->chance(0.5) && k > INT_MIN + 3000 && k < INT_MAX - 3000) k += r->range(-2500, 2500);
  const std::string d = a.d + " by 2^" + std::to_string(k);
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  V w = a.v;
  if (w.kind == 1) w.e += k;
  w = Canon(w);
  vh::Count(w.kind == a.v.kind ? "scaled" : "scaled_out");
  CheckIs(ldexp(a.x, k), w, "ldexp", d);
  CheckIs(scalbn(a.x, k), w, "ldexp", d);
  CheckIs(scalbln(a.x, k), w, "ldexp", d);
  long big = r->chance(0.5) ? std::numeric_limits<long>::min() : std::numeric_limits<long>::max();
  w = a.v;
  if (w.kind == 1) { w.kind = big < 0 ? 0 : 2; }
  CheckIs(scalbln(a.x, big), Canon(w), "ldexp", d);
  if (a.v.kind == 1) {
    VH_EXPECT(ilogb(a.x) == a.v.e + Bits(a.v.m) - 1, "ilogb", d);
    VH_EXPECT(logb(a.x) == ExactFloat(ilogb(a.x)), "ilogb", d);
  } else if (a.v.kind == 0) {
    VH_EXPECT(ilogb(a.x) == FP_ILOGB0 && logb(a.x) == ExactFloat::Infinity(-1), "ilogb", d);
  } else if (a.v.kind == 2) {
    VH_EXPECT(ilogb(a.x) == INT_MAX && logb(a.x) == ExactFloat::Infinity(1), "ilogb", d);
  }
  int e = 7;
  const ExactFloat f = frexp(a.x, &e);
  if (a.v.kind == 1) {
    VH_EXPECT(f.exp() == 0 && e == a.x.exp() && ldexp(f, e) == a.x, "frexp", d);
  } else {
    VH_EXPECT(e == 0 && f.is_nan() == a.x.is_nan() && (f.is_nan() || f == a.x), "frexp", d);
  }
}

void StringCase(vh::Rng* r) {
  // A double printed like %.Ng.
  double x = RandDouble(r);
  if (r->chance(0.3)) x = r->range(1, 99999) * std::pow(10.0, r->range(-6, 8));
  std::ostringstream o;
  o.precision(17);
  o << x;
  vh::Crumb(o.str());
  vh::Nontrivial(vh::Hash(o.str()));
  const int n = r->chance(0.7) ? r->range(1, 6) : r->range(1, 60);
  const std::string got = ExactFloat(x).ToStringWithMaxDigits(n);
  char buf[2000];
  snprintf(buf, sizeof(buf), "%.*g", n, x);
  if (std::isfinite(x)) {
    int s1, s2, n1, n2;
    cpp_int d1, d2;
    long t1, t2;
    const bool ok = Parse(got, &s1, &d1, &t1, &n1) && Parse(buf, &s2, &d2, &t2, &n2);
    const long lo = std::min(t1, t2);
    VH_EXPECT(ok && s1 == s2 && d1 * Pow10(t1 - lo) == d2 * Pow10(t2 - lo) && n1 <= std::max(n, static_cast<int>(n2)), "to_string", o.str() << " with " << n << " digits: " << got << " want " << buf);
    VH_EXPECT((got.find('e') != std::string::npos) == (strchr(buf, 'e') != nullptr), "to_string_form", o.str() << " with " << n << " digits: " << got << " want " << buf);
    vh::Count("decimals");
  } else {
    VH_EXPECT(got == (std::isnan(x) ? "nan" : x < 0 ? "-inf" : "inf"), "to_string", o.str() << " " << got);
  }
  // Different values of one precision have different strings.
  Pair a = RandValue(r, false);
  if (a.v.kind == 1 && Bits(a.v.m) > 2 && Bits(a.v.m) < 400) {
    const ExactFloat ulp = ldexp(ExactFloat(1), a.x.exp() - a.x.prec() + 1);
    const ExactFloat b = a.x + ulp;
    vh::Crumb(a.d);
    if (b.prec() == a.x.prec()) {
      VH_EXPECT(b.ToString() != a.x.ToString(), "to_string_unique", a.d << " " << b.ToString());
      VH_EXPECT(b.ToUniqueString() != a.x.ToUniqueString(), "to_string_unique", a.d);
    }
    // Exact when there are enough digits.
    int s, nd;
    cpp_int dg;
    long ten;
    const bool ok = Parse(a.x.ToStringWithMaxDigits(200000), &s, &dg, &ten, &nd);
    cpp_int lhs = dg, rhs = a.v.m;
    if (ten >= 0) lhs *= Pow10(ten); else rhs *= Pow10(-ten);
    if (a.v.e >= 0) rhs <<= a.v.e; else lhs <<= -a.v.e;
    VH_EXPECT(ok && s == a.v.sign && lhs == rhs, "to_string_exact", a.d);
  }
}

void IntCase(vh::Rng* r) {
  int i = r->chance(0.2) ? r->pick(std::vector<int>{INT_MIN, INT_MAX, INT_MIN + 1, 0, 1, -1}) : static_cast<int>(r->next());
  vh::Crumb(std::to_string(i));
  vh::Nontrivial(vh::Hash(std::to_string(i)));
  V v = FromDouble(i);
  CheckIs(ExactFloat(i), v, "from_int", std::to_string(i));
  VH_EXPECT(lrint(ExactFloat(i)) == i && ExactFloat(i).ToDouble() == i && ExactFloat(i) == ExactFloat(static_cast<double>(i)), "from_int", i);
  CheckIs(ExactFloat::SignedZero(-1), FromDouble(-0.0), "special", "");
  CheckIs(ExactFloat::Infinity(-1), FromDouble(-INFINITY), "special", "");
  ExactFloat x(i);
  x.set_nan();
  VH_EXPECT(x.is_nan() && x.prec() == 0 && !x.sign_bit(), "special", i);
  x = ExactFloat(i);
  x.set_zero(-1);
  CheckIs(x, FromDouble(-0.0), "special", "set_zero");
  x.set_inf(1);
  CheckIs(x, FromDouble(INFINITY), "special", "set_inf");
  // An inexact result is a NaN: more bits than there is room for.
  if (r->chance(0.02)) {
    const ExactFloat big = ldexp(ExactFloat(1), ExactFloat::kMaxPrec);
    VH_EXPECT((big + ExactFloat(1)).is_nan(), "max_prec", "2^kMaxPrec + 1");
    VH_EXPECT((ldexp(big, -1) + ExactFloat(1)).is_normal(), "max_prec", "2^(kMaxPrec-1) + 1");
    vh::Count("max_prec");
  }
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"arith", 1.0, ArithCase}, {"round", 0.7, RoundCase}, {"scale", 0.7, ScaleCase}, {"string", 0.7, StringCase}, {"int", 0.2, IntCase}});
}
