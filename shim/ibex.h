// A small stand-in for the part of IBEX that dReal uses.  The library itself is
// not available offline; this header implements the documented contract of the
// classes dReal calls: outward-rounded interval arithmetic, vectors of
// intervals with IBEX's convention that a vector is empty when its first
// component is, expression trees, forward/backward contraction of a
// constraint, and a polytope contractor (here: forward/backward over all
// constraints of the system).  Everything is single-threaded per object and
// has no global state besides the node counter.
#pragma once
#include <cassert>
#include <cmath>
#include <iostream>
#include <limits>
#include <string>
#include <utility>
#include <vector>

namespace ibex {

class Interval {
 public:
  Interval() : lb_(-inf()), ub_(inf()) {}
  Interval(double a) { set(a, a); }               // NOLINT
  Interval(double a, double b) { set(a, b); }
  Interval& operator=(double a) { set(a, a); return *this; }

  double lb() const { return lb_; }
  double ub() const { return ub_; }
  bool is_empty() const { return std::isnan(lb_); }
  void set_empty() { lb_ = ub_ = std::numeric_limits<double>::quiet_NaN(); }
  double mid() const {
    if (is_empty()) return lb_;
    if (lb_ == -inf()) return ub_ == inf() ? 0.0 : -big();
    if (ub_ == inf()) return big();
    if (lb_ == ub_) return lb_;
    double m = 0.5 * lb_ + 0.5 * ub_;
    if (m < lb_) m = lb_;
    if (m > ub_) m = ub_;
    return m;
  }
  double rad() const { return is_empty() ? lb_ : 0.5 * diam(); }
  double diam() const;
  double mag() const {
    return is_empty() ? lb_ : std::max(std::fabs(lb_), std::fabs(ub_));
  }
  double mig() const {
    if (is_empty()) return lb_;
    if (lb_ <= 0 && 0 <= ub_) return 0;
    return std::min(std::fabs(lb_), std::fabs(ub_));
  }
  bool is_degenerated() const { return is_empty() || lb_ == ub_; }
  bool is_unbounded() const {
    return !is_empty() && (lb_ == -inf() || ub_ == inf());
  }
  bool contains(double d) const {
    return !is_empty() && lb_ <= d && d <= ub_ && std::isfinite(d);
  }
  bool is_subset(const Interval& x) const {
    return is_empty() || (!x.is_empty() && x.lb_ <= lb_ && ub_ <= x.ub_);
  }
  bool is_superset(const Interval& x) const { return x.is_subset(*this); }
  bool is_bisectable() const {
    if (is_empty()) return false;
    const double m = mid();
    return lb_ < m && m < ub_;
  }
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const;

  Interval& operator&=(const Interval& x);
  Interval& operator|=(const Interval& x);
  Interval& operator+=(const Interval& x);
  Interval& operator-=(const Interval& x);
  Interval& operator*=(const Interval& x);
  Interval& operator/=(const Interval& x);

  static const Interval EMPTY_SET, ALL_REALS, ZERO, ONE, POS_REALS, NEG_REALS;

 private:
  static double inf() { return std::numeric_limits<double>::infinity(); }
  static double big() { return std::numeric_limits<double>::max(); }
  void set(double a, double b) {
    if (!(a <= b) || a == inf() || b == -inf()) {
      set_empty();
    } else {
      lb_ = a;
      ub_ = b;
    }
  }
  double lb_, ub_;
};

bool operator==(const Interval& a, const Interval& b);
inline bool operator!=(const Interval& a, const Interval& b) { return !(a == b); }
Interval operator&(const Interval& a, const Interval& b);
Interval operator|(const Interval& a, const Interval& b);
Interval operator+(const Interval& a, const Interval& b);
Interval operator-(const Interval& a, const Interval& b);
Interval operator*(const Interval& a, const Interval& b);
Interval operator/(const Interval& a, const Interval& b);
Interval operator-(const Interval& a);
Interval sqr(const Interval& a);
Interval sqrt(const Interval& a);
Interval pow(const Interval& a, int n);
Interval pow(const Interval& a, double d);
Interval pow(const Interval& a, const Interval& b);
Interval root(const Interval& a, int n);
Interval exp(const Interval& a);
Interval log(const Interval& a);
Interval abs(const Interval& a);
Interval sin(const Interval& a);
Interval cos(const Interval& a);
Interval tan(const Interval& a);
Interval asin(const Interval& a);
Interval acos(const Interval& a);
Interval atan(const Interval& a);
Interval atan2(const Interval& y, const Interval& x);
Interval sinh(const Interval& a);
Interval cosh(const Interval& a);
Interval tanh(const Interval& a);
Interval min(const Interval& a, const Interval& b);
Interval max(const Interval& a, const Interval& b);
std::ostream& operator<<(std::ostream& os, const Interval& x);

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(n) { assert(n >= 1); }
  IntervalVector(int n, const Interval& x) : v_(n, x) { assert(n >= 1); }
  Interval& operator[](int i) {
    assert(0 <= i && i < size());
    return v_[i];
  }
  const Interval& operator[](int i) const {
    assert(0 <= i && i < size());
    return v_[i];
  }
  int size() const { return static_cast<int>(v_.size()); }
  void resize(int n) {
    assert(n >= 1);
    v_.resize(n);
  }
  bool is_empty() const { return v_[0].is_empty(); }
  void set_empty() { v_[0].set_empty(); }
  IntervalVector& operator|=(const IntervalVector& x);
  IntervalVector& operator&=(const IntervalVector& x);
  bool operator==(const IntervalVector& x) const;
  bool operator!=(const IntervalVector& x) const { return !(*this == x); }

 private:
  std::vector<Interval> v_;
};
std::ostream& operator<<(std::ostream& os, const IntervalVector& x);

class Dim {
 public:
  static Dim scalar() { return Dim(); }
};

enum CmpOp { LT, LEQ, EQ, GEQ, GT };

class ExprCtr;

class ExprNode {
 public:
  enum Op {
    SYM, CST, ADD, SUB, MUL, DIV, NEG, POWI, POWE, SQRT, LOG, ABS, EXP, SIN,
    COS, TAN, ASIN, ACOS, ATAN, ATAN2, SINH, COSH, TANH, MIN, MAX
  };
  explicit ExprNode(Op o, const ExprNode* a = nullptr,
                    const ExprNode* b = nullptr)
      : op(o), l(a), r(b) { count(1); }
  virtual ~ExprNode() { count(-1); }
  ExprNode(const ExprNode&) = delete;
  const ExprCtr& operator=(const ExprNode& rhs) const;
  const Op op;
  const ExprNode* const l;
  const ExprNode* const r;
  int n{0};          // exponent of POWI
  Interval c;        // value of CST
  static int live() { return __atomic_load_n(&live_, __ATOMIC_RELAXED); }

 private:
  static void count(int d) { __atomic_fetch_add(&live_, d, __ATOMIC_RELAXED); }
  static int live_;
};

class ExprSymbol : public ExprNode {
 public:
  static const ExprSymbol& new_(const char* name, const Dim&) {
    return *new ExprSymbol(name);
  }
  const std::string name;

 private:
  explicit ExprSymbol(const char* s) : ExprNode(SYM), name(s) {}
};

class ExprConstant : public ExprNode {
 public:
  static const ExprConstant& new_scalar(const Interval& v) {
    return *new ExprConstant(v);
  }

 private:
  explicit ExprConstant(const Interval& v) : ExprNode(CST) { c = v; }
};

class ExprCtr {
 public:
  ExprCtr(const ExprNode& n, CmpOp o) : e(n), op(o) {}
  const ExprNode& e;
  const CmpOp op;
};

const ExprNode& operator+(const ExprNode& a, const ExprNode& b);
const ExprNode& operator-(const ExprNode& a, const ExprNode& b);
const ExprNode& operator*(const ExprNode& a, const ExprNode& b);
const ExprNode& operator/(const ExprNode& a, const ExprNode& b);
const ExprNode& operator*(double a, const ExprNode& b);
const ExprNode& operator-(const ExprNode& a);
const ExprNode& pow(const ExprNode& a, int n);
const ExprNode& pow(const ExprNode& a, double d);
const ExprNode& pow(double a, const ExprNode& b);
const ExprNode& pow(const ExprNode& a, const ExprNode& b);
const ExprNode& sqrt(const ExprNode& a);
const ExprNode& log(const ExprNode& a);
const ExprNode& abs(const ExprNode& a);
const ExprNode& exp(const ExprNode& a);
const ExprNode& sin(const ExprNode& a);
const ExprNode& cos(const ExprNode& a);
const ExprNode& tan(const ExprNode& a);
const ExprNode& asin(const ExprNode& a);
const ExprNode& acos(const ExprNode& a);
const ExprNode& atan(const ExprNode& a);
const ExprNode& atan2(const ExprNode& a, const ExprNode& b);
const ExprNode& sinh(const ExprNode& a);
const ExprNode& cosh(const ExprNode& a);
const ExprNode& tanh(const ExprNode& a);
const ExprNode& min(const ExprNode& a, const ExprNode& b);
const ExprNode& max(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator<(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator>(const ExprNode& a, const ExprNode& b);
const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b);
std::ostream& operator<<(std::ostream& os, const ExprNode& e);
std::ostream& operator<<(std::ostream& os, const ExprCtr& c);

void cleanup(const ExprNode& e, bool delete_symbols);

template <class T>
class Array {
 public:
  void add(T& t) { v_.push_back(&t); }
  int size() const { return static_cast<int>(v_.size()); }
  T& operator[](int i) const { return *v_[i]; }

 private:
  std::vector<T*> v_;
};

// f : R^n -> R.  Owns its expression and symbols when `own` is set.
class Function {
 public:
  Function(const Array<const ExprSymbol>& x, const ExprNode& e, bool own);
  ~Function();
  Function(const Function&) = delete;
  Interval eval(const IntervalVector& x) const;
  // Contracts x w.r.t. f(x) in y. Returns true when f(x) is already inside y.
  bool backward(const Interval& y, IntervalVector& x) const;
  const ExprNode& expr() const { return e_; }

 private:
  struct N {
    ExprNode::Op op;
    int a, b, sym, n;
    Interval c;
  };
  int flatten(const ExprNode& e);
  void forward(const IntervalVector& x) const;
  const std::vector<const ExprSymbol*> syms_;
  const ExprNode& e_;
  const bool own_;
  std::vector<N> nodes_;
  // Working domains, like IBEX's: using one object from two threads is a race.
  mutable std::vector<Interval> d_;
};

class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c)
      : f(x, c.e, true), op(c.op) {}
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c, bool own)
      : f(x, c.e, own), op(c.op) {}
  Interval right_hand_side() const;
  Function f;
  const CmpOp op;
};
std::ostream& operator<<(std::ostream& os, const NumConstraint& c);

class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& a) { vars = a; }
  void add_ctr(const ExprCtr& c) { ctrs.push_back(&c); }
  Array<const ExprSymbol> vars;
  std::vector<const ExprCtr*> ctrs;
};

class System {
 public:
  explicit System(const SystemFactory& f);
  ~System();
  System(const System&) = delete;
  std::vector<NumConstraint*> ctrs;
  int nb_ctr;
};

class LinearizerCombo {
 public:
  enum Mode { ART, AFFINE2, XNEWTON, COMPO };
  LinearizerCombo(const System& s, Mode) : sys(s) {}
  const System& sys;
};

class CtcPolytopeHull {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : sys_(l.sys) {}
  void contract(IntervalVector& x);

 private:
  const System& sys_;
};

}  // namespace ibex
