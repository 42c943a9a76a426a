#include "ibex.h"

#include <algorithm>
#include <set>

namespace ibex {
namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kBig = std::numeric_limits<double>::max();
const double kTiny = 1e-290;  // below this an error term may itself be inexact

double dn(double v) { return std::nextafter(v, -kInf); }
double up(double v) { return std::nextafter(v, kInf); }

// [lo, hi] enclosing the exact value whose rounding is v and whose error has
// the sign of e.
double lo_of(double v, double e) { return e < 0 ? dn(v) : v; }
double hi_of(double v, double e) { return e > 0 ? up(v) : v; }

double add_err(double a, double b, double s) {
  const double bb = s - a;
  return (a - (s - bb)) + (b - bb);
}
double add_dn(double a, double b) {
  volatile double s = a + b;
  const double v = s;
  if (std::isinf(a) || std::isinf(b)) return v;
  if (std::isinf(v)) return v > 0 ? kBig : -kInf;
  return lo_of(v, add_err(a, b, v));
}
double add_up(double a, double b) { return -add_dn(-a, -b); }
double mul_dn(double a, double b) {
  if (a == 0 || b == 0) return 0;  // also 0 * inf
  volatile double s = a * b;
  const double v = s;
  if (std::isinf(a) || std::isinf(b)) return v;
  if (std::isinf(v)) return v > 0 ? kBig : -kInf;
  if (std::fabs(v) < kTiny) return dn(v);
  return lo_of(v, std::fma(a, b, -v));
}
double mul_up(double a, double b) { return -mul_dn(-a, b); }
double div_dn(double a, double b) {  // b != 0
  if (a == 0) return 0;
  if (std::isinf(b)) return (a > 0) == (b > 0) ? 0 : (std::isinf(a) ? -kInf : -0.0);
  volatile double s = a / b;
  const double v = s;
  if (std::isinf(a)) return v;
  if (std::isinf(v)) return v > 0 ? kBig : -kInf;
  if (std::fabs(v) < kTiny || std::fabs(a) < kTiny) return dn(v);
  const double rem = std::fma(-v, b, a);
  return lo_of(v, b > 0 ? rem : -rem);
}
double div_up(double a, double b) { return -div_dn(-a, b); }
double sqrt_dn(double a) {
  if (std::isinf(a)) return a;
  const double v = std::sqrt(a);
  if (a < kTiny) return a == 0 ? 0 : std::max(0.0, dn(v));
  return lo_of(v, std::fma(-v, v, a));
}
double sqrt_up(double a) {
  if (std::isinf(a)) return a;
  const double v = std::sqrt(a);
  if (a < kTiny) return a == 0 ? 0 : up(v);
  return hi_of(v, std::fma(-v, v, a));
}
// Widening for library functions that are not correctly rounded.
double wd(double v) {
  if (v == kInf) return kBig;
  for (int i = 0; i < 4; ++i) v = dn(v);
  return v;
}
double wu(double v) {
  if (v == -kInf) return -kBig;
  for (int i = 0; i < 4; ++i) v = up(v);
  return v;
}
const Interval kEmpty() { Interval x; x.set_empty(); return x; }
const double kPiLo = 3.141592653589793;   // < pi
const double kPiHi = 3.1415926535897936;  // > pi

// Is there an integer k with p + k * q in [a, b] (with slack)?
bool hits(double a, double b, double p, double q) {
  const double slack = 1e-11 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  const double k = std::ceil((a - slack - p) / q);
  return p + k * q <= b + slack;
}
}  // namespace

const Interval Interval::EMPTY_SET = kEmpty();
const Interval Interval::ALL_REALS = Interval();
const Interval Interval::ZERO = Interval(0.0);
const Interval Interval::ONE = Interval(1.0);
const Interval Interval::POS_REALS = Interval(0.0, kInf);
const Interval Interval::NEG_REALS = Interval(-kInf, 0.0);
int ExprNode::live_ = 0;

double Interval::diam() const {
  if (is_empty()) return lb_;
  return add_up(ub_, -lb_);
}
std::pair<Interval, Interval> Interval::bisect(const double ratio) const {
  assert(is_bisectable());
  double p;
  if (lb_ == -kInf) {
    p = ub_ == kInf ? 0.0 : -kBig;
  } else if (ub_ == kInf) {
    p = kBig;
  } else if (ratio == 0.5) {
    p = mid();
  } else {
    p = lb_ + ratio * (ub_ - lb_);
    if (p >= ub_) p = mid();
  }
  return std::make_pair(Interval(lb_, p), Interval(p, ub_));
}
Interval& Interval::operator&=(const Interval& x) {
  if (is_empty()) return *this;
  if (x.is_empty()) { set_empty(); return *this; }
  set(std::max(lb_, x.lb_), std::min(ub_, x.ub_));
  return *this;
}
Interval& Interval::operator|=(const Interval& x) {
  if (x.is_empty()) return *this;
  if (is_empty()) { *this = x; return *this; }
  set(std::min(lb_, x.lb_), std::max(ub_, x.ub_));
  return *this;
}
Interval& Interval::operator+=(const Interval& x) { return *this = *this + x; }
Interval& Interval::operator-=(const Interval& x) { return *this = *this - x; }
Interval& Interval::operator*=(const Interval& x) { return *this = *this * x; }
Interval& Interval::operator/=(const Interval& x) { return *this = *this / x; }
bool operator==(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return a.is_empty() && b.is_empty();
  return a.lb() == b.lb() && a.ub() == b.ub();
}
Interval operator&(const Interval& a, const Interval& b) { Interval r(a); return r &= b; }
Interval operator|(const Interval& a, const Interval& b) { Interval r(a); return r |= b; }
Interval operator+(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  return Interval(add_dn(a.lb(), b.lb()), add_up(a.ub(), b.ub()));
}
Interval operator-(const Interval& a) {
  if (a.is_empty()) return a;
  return Interval(-a.ub(), -a.lb());
}
Interval operator-(const Interval& a, const Interval& b) { return a + (-b); }
Interval operator*(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  const double l = std::min(std::min(mul_dn(a.lb(), b.lb()), mul_dn(a.lb(), b.ub())),
                            std::min(mul_dn(a.ub(), b.lb()), mul_dn(a.ub(), b.ub())));
  const double u = std::max(std::max(mul_up(a.lb(), b.lb()), mul_up(a.lb(), b.ub())),
                            std::max(mul_up(a.ub(), b.lb()), mul_up(a.ub(), b.ub())));
  return Interval(l, u);
}
Interval operator/(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  if (b.lb() == 0 && b.ub() == 0) return Interval::EMPTY_SET;
  if (a.lb() == 0 && a.ub() == 0) return Interval(0.0);
  if (b.lb() < 0 && b.ub() > 0) return Interval();
  if (b.lb() == 0) {  // (0, u]
    const double l = a.lb() >= 0 ? div_dn(a.lb(), b.ub()) : -kInf;
    const double u = a.ub() <= 0 ? div_up(a.ub(), b.ub()) : kInf;
    return Interval(l, u);
  }
  if (b.ub() == 0) return (-a) / (-b);
  const double l = std::min(std::min(div_dn(a.lb(), b.lb()), div_dn(a.lb(), b.ub())),
                            std::min(div_dn(a.ub(), b.lb()), div_dn(a.ub(), b.ub())));
  const double u = std::max(std::max(div_up(a.lb(), b.lb()), div_up(a.lb(), b.ub())),
                            std::max(div_up(a.ub(), b.lb()), div_up(a.ub(), b.ub())));
  return Interval(l, u);
}
Interval abs(const Interval& a) {
  if (a.is_empty()) return a;
  return Interval(a.mig(), a.mag());
}
Interval sqr(const Interval& a) {
  if (a.is_empty()) return a;
  const Interval b = abs(a);
  return Interval(mul_dn(b.lb(), b.lb()), mul_up(b.ub(), b.ub()));
}
namespace {
Interval pow_pos(const Interval& a, unsigned n) {  // a >= 0
  Interval r(1.0), b(a);
  while (n) {
    if (n & 1) r = r * b;
    n >>= 1;
    if (n) b = b * b;
  }
  return r;
}
}  // namespace
Interval pow(const Interval& a, const int n) {
  if (a.is_empty()) return a;
  if (n == 0) return Interval(1.0);
  if (n < 0) {
    if (n == std::numeric_limits<int>::min()) return Interval();
    return Interval(1.0) / pow(a, -n);
  }
  if (n % 2 == 0) return pow_pos(abs(a), n);
  const Interval l = a.lb() == -kInf ? Interval(-kInf, -kBig)
      : (a.lb() >= 0 ? pow_pos(Interval(a.lb()), n) : -pow_pos(Interval(-a.lb()), n));
  const Interval u = a.ub() == kInf ? Interval(kBig, kInf)
      : (a.ub() >= 0 ? pow_pos(Interval(a.ub()), n) : -pow_pos(Interval(-a.ub()), n));
  return l | u;
}
Interval pow(const Interval& a, const double d) { return pow(a, Interval(d)); }
Interval pow(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  if (b.is_degenerated() && b.lb() == std::floor(b.lb()) && std::fabs(b.lb()) < 2e9)
    return pow(a, static_cast<int>(b.lb()));
  Interval r = exp(b * log(a));
  if (a.contains(0)) {
    if (b.ub() > 0) r |= Interval(0.0);
    if (b.contains(0)) r |= Interval(1.0);
  }
  if (a.lb() < 0 && std::ceil(b.lb()) <= b.ub()) {  // integer exponents
    const Interval m = pow(Interval(0, -a.lb()), b);
    r |= m;
    r |= -m;
  }
  return r;
}
Interval root(const Interval& y, const int n) {  // n > 0
  if (y.is_empty()) return y;
  const auto f = [n](double v) {
    if (std::isinf(v)) return v;
    const double m = std::pow(std::fabs(v), 1.0 / n);
    return v < 0 ? -m : m;
  };
  const auto out = [](double v, double s) {
    return std::isinf(v) ? v : v + s * (std::fabs(v) * 1e-12 + 1e-300);
  };
  if (n % 2 == 0) {
    const Interval p = y & Interval::POS_REALS;
    if (p.is_empty()) return p;
    const double l = f(p.lb()), u = f(p.ub());
    return Interval(l == 0 ? 0 : out(l, -1), u == 0 ? 0 : out(u, 1));
  }
  const double l = f(y.lb()), u = f(y.ub());
  return Interval(l == 0 ? 0 : out(l, -1), u == 0 ? 0 : out(u, 1));
}
Interval sqrt(const Interval& a) {
  const Interval p = a & Interval::POS_REALS;
  if (p.is_empty()) return p;
  return Interval(sqrt_dn(p.lb()), sqrt_up(p.ub()));
}
Interval exp(const Interval& a) {
  if (a.is_empty()) return a;
  const auto l = a.lb() == 0 ? 1 : a.lb() == -kInf ? 0 : std::max(0.0, wd(std::exp(a.lb())));
  const auto u = a.ub() == 0 ? 1 : a.ub() == kInf ? kInf : wu(std::exp(a.ub()));
  return Interval(l, u);
}
Interval log(const Interval& a) {
  const Interval p = a & Interval::POS_REALS;
  if (p.is_empty() || p.ub() == 0) return Interval::EMPTY_SET;
  const double l = p.lb() == 0 ? -kInf : p.lb() == 1 ? 0 : wd(std::log(p.lb()));
  const double u = p.ub() == kInf ? kInf : p.ub() == 1 ? 0 : wu(std::log(p.ub()));
  return Interval(l, u);
}
Interval sin(const Interval& a) {
  if (a.is_empty()) return a;
  if (a.lb() == 0 && a.ub() == 0) return a;
  if (a.mag() > 1e9 || a.diam() >= 2 * kPiLo) return Interval(-1, 1);
  double l = wd(std::min(std::sin(a.lb()), std::sin(a.ub())));
  double u = wu(std::max(std::sin(a.lb()), std::sin(a.ub())));
  if (hits(a.lb(), a.ub(), M_PI / 2, 2 * M_PI)) u = 1;
  if (hits(a.lb(), a.ub(), -M_PI / 2, 2 * M_PI)) l = -1;
  return Interval(std::max(l, -1.0), std::min(u, 1.0));
}
Interval cos(const Interval& a) {
  if (a.is_empty()) return a;
  if (a.lb() == 0 && a.ub() == 0) return Interval(1.0);
  if (a.mag() > 1e9 || a.diam() >= 2 * kPiLo) return Interval(-1, 1);
  double l = wd(std::min(std::cos(a.lb()), std::cos(a.ub())));
  double u = wu(std::max(std::cos(a.lb()), std::cos(a.ub())));
  if (hits(a.lb(), a.ub(), 0, 2 * M_PI)) u = 1;
  if (hits(a.lb(), a.ub(), M_PI, 2 * M_PI)) l = -1;
  return Interval(std::max(l, -1.0), std::min(u, 1.0));
}
Interval tan(const Interval& a) {
  if (a.is_empty()) return a;
  if (a.lb() == 0 && a.ub() == 0) return a;
  if (a.mag() > 1e9 || a.diam() >= kPiLo || hits(a.lb(), a.ub(), M_PI / 2, M_PI))
    return Interval();
  return Interval(wd(std::tan(a.lb())), wu(std::tan(a.ub())));
}
Interval asin(const Interval& a) {
  const Interval p = a & Interval(-1, 1);
  if (p.is_empty()) return p;
  return Interval(p.lb() == 0 ? 0 : wd(std::asin(p.lb())), p.ub() == 0 ? 0 : wu(std::asin(p.ub())));
}
Interval acos(const Interval& a) {
  const Interval p = a & Interval(-1, 1);
  if (p.is_empty()) return p;
  return Interval(p.ub() == 1 ? 0 : wd(std::acos(p.ub())), p.lb() == 1 ? 0 : wu(std::acos(p.lb())));
}
Interval atan(const Interval& a) {
  if (a.is_empty()) return a;
  return Interval(a.lb() == 0 ? 0 : wd(std::atan(a.lb())), a.ub() == 0 ? 0 : wu(std::atan(a.ub())));
}
Interval atan2(const Interval& y, const Interval& x) {
  if (y.is_empty() || x.is_empty()) return Interval::EMPTY_SET;
  const Interval half(kPiLo / 2, kPiHi / 2);
  if (x.lb() > 0) return atan(y / x);
  if (y.lb() > 0) return half - atan(x / y);
  if (y.ub() < 0) return -half - atan(x / y);
  return Interval(-kPiHi, kPiHi);
}
Interval sinh(const Interval& a) {
  if (a.is_empty()) return a;
  return Interval(a.lb() == 0 ? 0 : a.lb() == -kInf ? -kInf : wd(std::sinh(a.lb())),
                  a.ub() == 0 ? 0 : a.ub() == kInf ? kInf : wu(std::sinh(a.ub())));
}
Interval cosh(const Interval& a) {
  if (a.is_empty()) return a;
  const Interval b = abs(a);
  return Interval(std::max(1.0, wd(std::cosh(b.lb()))),
                  b.ub() == 0 ? 1 : b.ub() == kInf ? kInf : wu(std::cosh(b.ub())));
}
Interval tanh(const Interval& a) {
  if (a.is_empty()) return a;
  return Interval(a.lb() == 0 ? 0 : std::max(-1.0, wd(std::tanh(a.lb()))),
                  a.ub() == 0 ? 0 : std::min(1.0, wu(std::tanh(a.ub()))));
}
Interval min(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  return Interval(std::min(a.lb(), b.lb()), std::min(a.ub(), b.ub()));
}
Interval max(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::EMPTY_SET;
  return Interval(std::max(a.lb(), b.lb()), std::max(a.ub(), b.ub()));
}
std::ostream& operator<<(std::ostream& os, const Interval& x) {
  if (x.is_empty()) return os << "[ empty ]";
  if (x.is_degenerated()) return os << "<" << x.lb() << ", " << x.ub() << ">";
  return os << "[" << x.lb() << ", " << x.ub() << "]";
}

IntervalVector& IntervalVector::operator|=(const IntervalVector& x) {
  assert(size() == x.size());
  if (x.is_empty()) return *this;
  if (is_empty()) return *this = x;
  for (int i = 0; i < size(); ++i) v_[i] |= x.v_[i];
  return *this;
}
IntervalVector& IntervalVector::operator&=(const IntervalVector& x) {
  assert(size() == x.size());
  if (is_empty()) return *this;
  if (x.is_empty()) { set_empty(); return *this; }
  for (int i = 0; i < size(); ++i) {
    v_[i] &= x.v_[i];
    if (v_[i].is_empty()) { set_empty(); return *this; }
  }
  return *this;
}
bool IntervalVector::operator==(const IntervalVector& x) const {
  if (size() != x.size()) return false;
  if (is_empty() || x.is_empty()) return is_empty() && x.is_empty();
  for (int i = 0; i < size(); ++i)
    if (v_[i] != x.v_[i]) return false;
  return true;
}
std::ostream& operator<<(std::ostream& os, const IntervalVector& x) {
  if (x.is_empty()) return os << "empty";
  os << "(";
  for (int i = 0; i < x.size(); ++i) os << (i ? " ; " : "") << x[i];
  return os << ")";
}

namespace {
const ExprNode& mk(ExprNode::Op o, const ExprNode& a) { return *new ExprNode(o, &a); }
const ExprNode& mk(ExprNode::Op o, const ExprNode& a, const ExprNode& b) {
  return *new ExprNode(o, &a, &b);
}
const ExprCtr& mkc(const ExprNode& a, const ExprNode& b, CmpOp o) {
  // Like IBEX, a constant zero on the right is not made part of the tree.
  if (b.op == ExprNode::CST && b.c == Interval(0.0)) return *new ExprCtr(a, o);
  return *new ExprCtr(a - b, o);
}
}  // namespace
const ExprCtr& ExprNode::operator=(const ExprNode& rhs) const { return mkc(*this, rhs, EQ); }
const ExprCtr& operator<(const ExprNode& a, const ExprNode& b) { return mkc(a, b, LT); }
const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b) { return mkc(a, b, LEQ); }
const ExprCtr& operator>(const ExprNode& a, const ExprNode& b) { return mkc(a, b, GT); }
const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b) { return mkc(a, b, GEQ); }
const ExprNode& operator+(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::ADD, a, b); }
const ExprNode& operator-(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::SUB, a, b); }
const ExprNode& operator*(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::MUL, a, b); }
const ExprNode& operator/(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::DIV, a, b); }
const ExprNode& operator*(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) * b; }
const ExprNode& operator-(const ExprNode& a) { return mk(ExprNode::NEG, a); }
const ExprNode& pow(const ExprNode& a, int n) {
  ExprNode* const e = new ExprNode(ExprNode::POWI, &a);
  e->n = n;
  return *e;
}
const ExprNode& pow(const ExprNode& a, double d) { return mk(ExprNode::POWE, a, ExprConstant::new_scalar(d)); }
const ExprNode& pow(double a, const ExprNode& b) { return mk(ExprNode::POWE, ExprConstant::new_scalar(a), b); }
const ExprNode& pow(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::POWE, a, b); }
const ExprNode& sqrt(const ExprNode& a) { return mk(ExprNode::SQRT, a); }
const ExprNode& log(const ExprNode& a) { return mk(ExprNode::LOG, a); }
const ExprNode& abs(const ExprNode& a) { return mk(ExprNode::ABS, a); }
const ExprNode& exp(const ExprNode& a) { return mk(ExprNode::EXP, a); }
const ExprNode& sin(const ExprNode& a) { return mk(ExprNode::SIN, a); }
const ExprNode& cos(const ExprNode& a) { return mk(ExprNode::COS, a); }
const ExprNode& tan(const ExprNode& a) { return mk(ExprNode::TAN, a); }
const ExprNode& asin(const ExprNode& a) { return mk(ExprNode::ASIN, a); }
const ExprNode& acos(const ExprNode& a) { return mk(ExprNode::ACOS, a); }
const ExprNode& atan(const ExprNode& a) { return mk(ExprNode::ATAN, a); }
const ExprNode& atan2(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::ATAN2, a, b); }
const ExprNode& sinh(const ExprNode& a) { return mk(ExprNode::SINH, a); }
const ExprNode& cosh(const ExprNode& a) { return mk(ExprNode::COSH, a); }
const ExprNode& tanh(const ExprNode& a) { return mk(ExprNode::TANH, a); }
const ExprNode& min(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::MIN, a, b); }
const ExprNode& max(const ExprNode& a, const ExprNode& b) { return mk(ExprNode::MAX, a, b); }

namespace {
void collect(const ExprNode& e, bool syms, std::set<const ExprNode*>* s) {
  if (e.op == ExprNode::SYM && !syms) return;
  if (!s->insert(&e).second) return;
  if (e.l) collect(*e.l, syms, s);
  if (e.r) collect(*e.r, syms, s);
}
void print(std::ostream& os, const ExprNode& e) {
  static const char* const names[] = {"sym", "cst", "+", "-", "*", "/", "neg", "pow", "pow",
    "sqrt", "log", "abs", "exp", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh",
    "cosh", "tanh", "min", "max"};
  if (e.op == ExprNode::SYM) { os << static_cast<const ExprSymbol&>(e).name; return; }
  if (e.op == ExprNode::CST) { os << e.c; return; }
  os << "(" << names[e.op] << " ";
  print(os, *e.l);
  if (e.op == ExprNode::POWI) os << " " << e.n;
  if (e.r) { os << " "; print(os, *e.r); }
  os << ")";
}
}  // namespace
void cleanup(const ExprNode& e, bool delete_symbols) {
  std::set<const ExprNode*> s;
  collect(e, delete_symbols, &s);
  for (const ExprNode* n : s) delete n;
}
std::ostream& operator<<(std::ostream& os, const ExprNode& e) { print(os, e); return os; }
std::ostream& operator<<(std::ostream& os, const ExprCtr& c) {
  static const char* const ops[] = {"<", "<=", "=", ">=", ">"};
  return os << c.e << ops[c.op] << "0";
}

Function::Function(const Array<const ExprSymbol>& x, const ExprNode& e, bool own)
    : syms_([&x]() {
        std::vector<const ExprSymbol*> v;
        for (int i = 0; i < x.size(); ++i) v.push_back(&x[i]);
        return v;
      }()),
      e_(e), own_(own) {
  flatten(e);
  d_.resize(nodes_.size());
}
Function::~Function() {
  if (!own_) return;
  std::set<const ExprNode*> s;
  collect(e_, true, &s);
  for (const ExprSymbol* v : syms_) s.insert(v);
  for (const ExprNode* n : s) delete n;
}
int Function::flatten(const ExprNode& e) {
  N n{e.op, -1, -1, -1, e.n, e.c};
  if (e.l) n.a = flatten(*e.l);
  if (e.r) n.b = flatten(*e.r);
  if (e.op == ExprNode::SYM) {
    for (size_t i = 0; i < syms_.size(); ++i)
      if (syms_[i] == &e) n.sym = static_cast<int>(i);
    assert(n.sym >= 0);
  }
  nodes_.push_back(n);
  return static_cast<int>(nodes_.size()) - 1;
}
void Function::forward(const IntervalVector& x) const {
  for (size_t i = 0; i < nodes_.size(); ++i) {
    const N& n = nodes_[i];
    Interval& y = d_[i];
    const Interval a = n.a >= 0 ? d_[n.a] : Interval();
    const Interval b = n.b >= 0 ? d_[n.b] : Interval();
    switch (n.op) {
      case ExprNode::SYM: y = x[n.sym]; break;
      case ExprNode::CST: y = n.c; break;
      case ExprNode::ADD: y = a + b; break;
      case ExprNode::SUB: y = a - b; break;
      case ExprNode::MUL: y = a * b; break;
      case ExprNode::DIV: y = a / b; break;
      case ExprNode::NEG: y = -a; break;
      case ExprNode::POWI: y = pow(a, n.n); break;
      case ExprNode::POWE: y = pow(a, b); break;
      case ExprNode::SQRT: y = sqrt(a); break;
      case ExprNode::LOG: y = log(a); break;
      case ExprNode::ABS: y = abs(a); break;
      case ExprNode::EXP: y = exp(a); break;
      case ExprNode::SIN: y = sin(a); break;
      case ExprNode::COS: y = cos(a); break;
      case ExprNode::TAN: y = tan(a); break;
      case ExprNode::ASIN: y = asin(a); break;
      case ExprNode::ACOS: y = acos(a); break;
      case ExprNode::ATAN: y = atan(a); break;
      case ExprNode::ATAN2: y = atan2(a, b); break;
      case ExprNode::SINH: y = sinh(a); break;
      case ExprNode::COSH: y = cosh(a); break;
      case ExprNode::TANH: y = tanh(a); break;
      case ExprNode::MIN: y = min(a, b); break;
      case ExprNode::MAX: y = max(a, b); break;
    }
  }
}
Interval Function::eval(const IntervalVector& x) const {
  if (x.is_empty()) return Interval::EMPTY_SET;
  forward(x);
  return d_.back();
}
namespace {
// Contracts a w.r.t. a * b = y.
void inv_mul(const Interval& y, const Interval& b, Interval* a) {
  if (y.contains(0) && b.contains(0)) return;
  if (b.lb() < 0 && b.ub() > 0) {
    *a = (*a & (y / Interval(b.lb(), 0))) | (*a & (y / Interval(0, b.ub())));
  } else {
    *a &= y / b;
  }
}
}  // namespace
bool Function::backward(const Interval& y, IntervalVector& x) const {
  if (x.is_empty()) return false;
  forward(x);
  Interval& root_d = d_.back();
  if (root_d.is_empty()) { x.set_empty(); return false; }
  if (root_d.is_subset(y)) return true;
  root_d &= y;
  for (int i = static_cast<int>(nodes_.size()) - 1; i >= 0; --i) {
    const N& n = nodes_[i];
    const Interval& v = d_[i];
    if (v.is_empty()) { x.set_empty(); return false; }
    Interval* const a = n.a >= 0 ? &d_[n.a] : nullptr;
    Interval* const b = n.b >= 0 ? &d_[n.b] : nullptr;
    switch (n.op) {
      case ExprNode::SYM:
        x[n.sym] &= v;
        if (x[n.sym].is_empty()) { x.set_empty(); return false; }
        break;
      case ExprNode::ADD: *a &= v - *b; *b &= v - *a; break;
      case ExprNode::SUB: *a &= v + *b; *b &= *a - v; break;
      case ExprNode::MUL: inv_mul(v, *b, a); if (!a->is_empty()) inv_mul(v, *a, b); break;
      case ExprNode::DIV: *a &= v * *b; if (!a->is_empty()) inv_mul(*a, v, b); break;
      case ExprNode::NEG: *a &= -v; break;
      case ExprNode::POWI:
        if (n.n > 0) {
          const Interval r = root(v, n.n);
          if (n.n % 2) *a &= r;
          else *a = (*a & r) | (*a & -r);
        }
        break;
      case ExprNode::SQRT: *a &= sqr(v & Interval::POS_REALS); break;
      case ExprNode::LOG: *a &= exp(v); break;
      case ExprNode::ABS: {
        const Interval p = v & Interval::POS_REALS;
        *a = (*a & p) | (*a & -p);
        break;
      }
      case ExprNode::EXP: *a &= log(v); break;
      case ExprNode::ASIN: case ExprNode::ACOS: *a &= Interval(-1, 1); break;
      case ExprNode::MIN:
        if (a->lb() > v.ub()) *b &= v;
        else if (b->lb() > v.ub()) *a &= v;
        *a &= Interval(v.lb(), kInf);
        *b &= Interval(v.lb(), kInf);
        break;
      case ExprNode::MAX:
        if (a->ub() < v.lb()) *b &= v;
        else if (b->ub() < v.lb()) *a &= v;
        *a &= Interval(-kInf, v.ub());
        *b &= Interval(-kInf, v.ub());
        break;
      default: break;  // no contraction
    }
    if ((a && a->is_empty()) || (b && b->is_empty())) { x.set_empty(); return false; }
  }
  return false;
}
Interval NumConstraint::right_hand_side() const {
  switch (op) {
    case LT: case LEQ: return Interval::NEG_REALS;
    case EQ: return Interval(0.0);
    case GEQ: case GT: return Interval::POS_REALS;
  }
  return Interval();
}
std::ostream& operator<<(std::ostream& os, const NumConstraint& c) {
  return os << ExprCtr(c.f.expr(), c.op);
}
System::System(const SystemFactory& f) : nb_ctr(static_cast<int>(f.ctrs.size())) {
  for (const ExprCtr* c : f.ctrs) ctrs.push_back(new NumConstraint(f.vars, *c, false));
}
System::~System() { for (NumConstraint* c : ctrs) delete c; }
void CtcPolytopeHull::contract(IntervalVector& x) {
  for (NumConstraint* c : sys_.ctrs) {
    c->f.backward(c->right_hand_side(), x);
    if (x.is_empty()) return;
  }
}
}  // namespace ibex
