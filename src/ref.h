// Reference semantics, independent of dreal: a plain syntax tree of what the
// "user" wrote and an evaluator over it.  Values are tiny intervals: exact
// (lo == hi) as long as every operation was exact in floating point, widened
// by a relative slack otherwise.  A value is Def, Undef (certainly outside the
// domain) or Unk (rounding makes it undecidable: such samples are skipped).
#pragma once
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace ref {

enum class Op {
  // expressions
  kConst, kReal, kVar, kAdd, kSub, kMul, kDiv, kNeg, kAbs, kExp, kLog, kSqrt,
  kSin, kCos, kTan, kAsin, kAcos, kAtan, kSinh, kCosh, kTanh, kPow, kAtan2,
  kMin, kMax, kIte, kUF, kNan,
  // formulas
  kTrue, kFalse, kBool, kEq, kNe, kLt, kLe, kGt, kGe, kAnd, kOr, kNot, kImp,
  kIff, kForall
};

struct Node;
using NP = std::shared_ptr<const Node>;
struct Node {
  Op op;
  double c{0}, c2{0};
  int var{-1};               // variable index
  std::vector<NP> k;
  std::vector<int> bound;    // forall / UF arguments
};
inline NP Mk(Op op, std::vector<NP> k = {}) {
  auto n = std::make_shared<Node>();
  n->op = op;
  n->k = std::move(k);
  return n;
}
inline NP C(double c) {
  auto n = std::make_shared<Node>();
  n->op = Op::kConst;
  n->c = c;
  return n;
}
inline NP RC(double lb, double ub, bool use_lb) {
  auto n = std::make_shared<Node>();
  n->op = Op::kReal;
  n->c = use_lb ? lb : ub;
  n->c2 = use_lb ? ub : lb;
  return n;
}
inline NP V(int v, bool boolean = false) {
  auto n = std::make_shared<Node>();
  n->op = boolean ? Op::kBool : Op::kVar;
  n->var = v;
  return n;
}
inline NP All(std::vector<int> b, NP f) {
  auto n = std::make_shared<Node>();
  n->op = Op::kForall;
  n->bound = std::move(b);
  n->k = {std::move(f)};
  return n;
}

inline const char* Name(Op o) {
  static const char* n[] = {"const", "real", "var", "+", "-", "*", "/", "neg", "abs", "exp", "log", "sqrt",
                            "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "pow", "atan2",
                            "min", "max", "ite", "uf", "nan", "true", "false", "bool", "==", "!=", "<", "<=", ">", ">=",
                            "and", "or", "not", "=>", "<=>", "forall"};
  return n[static_cast<int>(o)];
}
// variable names of the universe: filled by the harness
inline std::vector<std::string>& VarNames() {
  static std::vector<std::string> v;
  return v;
}
inline std::string Str(const NP& n) {
  std::ostringstream o;
  o.precision(17);
  switch (n->op) {
    case Op::kConst: o << n->c; return o.str();
    case Op::kReal: o << "[" << n->c << "," << n->c2 << "]"; return o.str();
    case Op::kVar: case Op::kBool: return VarNames().at(n->var);
    case Op::kTrue: return "true";
    case Op::kFalse: return "false";
    default: break;
  }
  o << "(" << Name(n->op);
  for (int b : n->bound) o << " " << VarNames().at(b) << (n->op == Op::kForall ? "." : "");
  for (auto& k : n->k) o << " " << Str(k);
  o << ")";
  return o.str();
}

enum class St { Def, Undef, Unk };
struct FV {
  St s{St::Def};
  double lo{0}, hi{0};
  double mag{0};
  bool exact() const { return s == St::Def && lo == hi; }
};
inline FV Undef() { FV f; f.s = St::Undef; return f; }
inline FV Unk() { FV f; f.s = St::Unk; return f; }
constexpr double kSlop = 1e-13;
inline FV Point(double v, double mag) {
  FV f;
  if (!std::isfinite(v)) return Unk();
  f.lo = f.hi = v;
  f.mag = std::max(mag, std::fabs(v));
  return f;
}
inline FV Range(double lo, double hi, double mag) {
  FV f;
  if (!std::isfinite(lo) || !std::isfinite(hi)) return Unk();
  const double s = kSlop * std::max(std::fabs(lo), std::fabs(hi)) + 1e-300;
  f.lo = lo - s;
  f.hi = hi + s;
  f.mag = std::max({mag, std::fabs(f.lo), std::fabs(f.hi)});
  if (!std::isfinite(f.mag)) return Unk();
  return f;
}

enum class Tri { T, F, U, X };  // X: undefined; U: undecidable by rounding

struct Env {
  std::vector<double> v;  // by variable index (Boolean: 0/1)
};

// Domain over which quantified variables range in the reference (finite), so
// that quantified formulas have a computable meaning in both evaluators.
inline std::vector<double>& QuantDomain() {
  static std::vector<double> d{-1, 0, 0.5, 2};
  return d;
}

inline FV AddV(const FV& a, const FV& b) {
  const double m = std::max(a.mag, b.mag);
  if (a.exact() && b.exact()) {
    const double s = a.lo + b.lo;
    const double bb = s - a.lo;
    const double err = (a.lo - (s - bb)) + (b.lo - bb);
    if (err == 0) return Point(s, m);
    return Range(s, s, m);
  }
  return Range(a.lo + b.lo, a.hi + b.hi, m);
}
inline FV NegV(const FV& a) {
  FV r = a;
  r.lo = -a.hi;
  r.hi = -a.lo;
  return r;
}
inline FV MulV(const FV& a, const FV& b) {
  const double m = std::max(a.mag, b.mag);
  if (a.exact() && a.lo == 0) return Point(0, m);
  if (b.exact() && b.lo == 0) return Point(0, m);
  if (a.exact() && b.exact()) {
    const double p = a.lo * b.lo;
    if (std::fma(a.lo, b.lo, -p) == 0 && (p == 0 || std::fabs(p) > 1e-290)) return Point(p, m);
    if (std::fabs(p) < 1e-290) return Unk();
    return Range(p, p, m);
  }
  const double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  return Range(*std::min_element(c, c + 4), *std::max_element(c, c + 4), m);
}
inline FV DivV(const FV& a, const FV& b) {
  const double m = std::max(a.mag, b.mag);
  if (b.exact() && b.lo == 0) return Undef();
  if (b.lo <= 0 && b.hi >= 0) return Unk();
  if (a.exact() && b.exact()) {
    const double q = a.lo / b.lo;
    if (std::fma(q, b.lo, -a.lo) == 0) return Point(q, m);
    return Range(q, q, m);
  }
  const double c[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
  return Range(*std::min_element(c, c + 4), *std::max_element(c, c + 4), m);
}
inline FV PowV(const FV& a, const FV& b) {
  const double m = std::max(a.mag, b.mag);
  if (b.exact() && b.lo == std::floor(b.lo) && std::fabs(b.lo) <= 64) {
    const int n = static_cast<int>(b.lo);
    if (n == 0) return Point(1, m);
    if (a.exact()) {
      if (a.lo == 0 && n < 0) return Unk();  // IEEE infinity
      FV r = Point(1, m);
      for (int i = 0; i < std::abs(n); ++i) {
        r = MulV(r, a);
        if (r.s != St::Def) return r;
      }
      return n > 0 ? r : DivV(Point(1, m), r);
    }
    if (n < 0 && a.lo <= 0 && a.hi >= 0) return Unk();
    double lo = std::pow(a.lo, n), hi = std::pow(a.hi, n);
    if (lo > hi) std::swap(lo, hi);
    if (n % 2 == 0 && a.lo <= 0 && a.hi >= 0) lo = 0;
    return Range(lo, hi, m);
  }
  if (a.exact() && a.lo == 0) {
    if (b.lo > 0) return Point(0, m);
    if (b.hi < 0) return Unk();  // IEEE infinity
    return Unk();
  }
  if (a.hi < 0) {
    if (b.exact()) return Undef();  // negative base, non-integer exponent
    return Unk();
  }
  if (a.lo <= 0) return Unk();
  if (a.exact() && a.lo == 1) return Point(1, m);
  const double c[4] = {std::pow(a.lo, b.lo), std::pow(a.lo, b.hi), std::pow(a.hi, b.lo), std::pow(a.hi, b.hi)};
  return Range(*std::min_element(c, c + 4), *std::max_element(c, c + 4), m);
}
inline FV Mono(double (*f)(double), const FV& a) {
  double lo = f(a.lo), hi = f(a.hi);
  if (lo > hi) std::swap(lo, hi);
  return Range(lo, hi, a.mag);
}
inline FV Un(Op op, const FV& a) {
  if (a.hi - a.lo > 1e-3) return Unk();
  switch (op) {
    case Op::kAbs:
      if (a.lo >= 0) return a;
      if (a.hi <= 0) return NegV(a);
      return Range(0, std::max(-a.lo, a.hi), a.mag);
    case Op::kExp:
      if (a.exact() && a.lo == 0) return Point(1, a.mag);
      return Mono([](double v) { return std::exp(v); }, a);
    case Op::kLog:
      if (a.hi < 0) return Undef();
      if (a.lo <= 0) return Unk();
      if (a.exact() && a.lo == 1) return Point(0, a.mag);
      return Mono([](double v) { return std::log(v); }, a);
    case Op::kSqrt: {
      if (a.hi < 0) return Undef();
      if (a.lo < 0) return Unk();
      if (a.exact()) {
        const double r = std::sqrt(a.lo);
        if (std::fma(r, r, -a.lo) == 0) return Point(r, a.mag);
      }
      return Mono([](double v) { return std::sqrt(v); }, a);
    }
    case Op::kSin: {
      if (std::fabs(a.lo) > 1e6) return Unk();
      if (a.exact() && a.lo == 0) return a;
      const double s = std::sin(a.lo), w = a.hi - a.lo;
      return Range(s - w, s + w, a.mag);
    }
    case Op::kCos: {
      if (std::fabs(a.lo) > 1e6) return Unk();
      if (a.exact() && a.lo == 0) return Point(1, a.mag);
      const double s = std::cos(a.lo), w = a.hi - a.lo;
      return Range(s - w, s + w, a.mag);
    }
    case Op::kTan: {
      if (std::fabs(a.lo) > 1e6) return Unk();
      if (a.exact() && a.lo == 0) return a;
      if (std::fabs(std::cos(a.lo)) < 1e-2) return Unk();
      return Mono([](double v) { return std::tan(v); }, a);
    }
    case Op::kAsin:
    case Op::kAcos:
      if (a.lo > 1 || a.hi < -1) return Undef();
      if (a.hi > 1 || a.lo < -1) return Unk();
      return op == Op::kAsin ? Mono([](double v) { return std::asin(v); }, a)
                             : Mono([](double v) { return std::acos(v); }, a);
    case Op::kAtan: return Mono([](double v) { return std::atan(v); }, a);
    case Op::kSinh: return Mono([](double v) { return std::sinh(v); }, a);
    case Op::kTanh: return Mono([](double v) { return std::tanh(v); }, a);
    case Op::kCosh: {
      if (a.exact() && a.lo == 0) return Point(1, a.mag);
      double lo = std::cosh(a.lo), hi = std::cosh(a.hi);
      if (lo > hi) std::swap(lo, hi);
      if (a.lo < 0 && a.hi > 0) lo = 1;
      return Range(lo, hi, a.mag);
    }
    default: return Unk();
  }
}
inline FV Bin(Op op, const FV& a, const FV& b) {
  const double m = std::max(a.mag, b.mag);
  switch (op) {
    case Op::kAdd: return AddV(a, b);
    case Op::kSub: return AddV(a, NegV(b));
    case Op::kMul: return MulV(a, b);
    case Op::kDiv: return DivV(a, b);
    case Op::kPow: return PowV(a, b);
    case Op::kMin:
    case Op::kMax: {
      FV r = a;
      r.mag = m;
      if (op == Op::kMin) { r.lo = std::min(a.lo, b.lo); r.hi = std::min(a.hi, b.hi); }
      else { r.lo = std::max(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); }
      return r;
    }
    case Op::kAtan2: {
      if (a.exact() && b.exact()) {
        if (a.lo == 0 && b.lo <= 0) return Unk();  // sign of zero / branch cut
        const double v = std::atan2(a.lo, b.lo);
        return Range(v, v, m);
      }
      if (a.lo <= 0 && a.hi >= 0 && b.lo <= 0) return Unk();
      const double c[4] = {std::atan2(a.lo, b.lo), std::atan2(a.lo, b.hi), std::atan2(a.hi, b.lo), std::atan2(a.hi, b.hi)};
      return Range(*std::min_element(c, c + 4), *std::max_element(c, c + 4), m);
    }
    default: return Unk();
  }
}
inline Tri Rel(Op op, const FV& a, const FV& b) {
  if (a.s == St::Undef || b.s == St::Undef) return Tri::X;
  if (a.s == St::Unk || b.s == St::Unk) return Tri::U;
  auto B = [](bool t) { return t ? Tri::T : Tri::F; };
  // slack between separately rounded sides
  const double m = std::max(a.mag, b.mag) * 1e-9;
  const bool ex = a.exact() && b.exact();
  if (!ex) {
    if (a.hi + m < b.lo) return B(op == Op::kNe || op == Op::kLt || op == Op::kLe);
    if (b.hi + m < a.lo) return B(op == Op::kNe || op == Op::kGt || op == Op::kGe);
    return Tri::U;
  }
  switch (op) {
    case Op::kEq: return B(a.lo == b.lo);
    case Op::kNe: return B(a.lo != b.lo);
    case Op::kLt: return B(a.lo < b.lo);
    case Op::kLe: return B(a.lo <= b.lo);
    case Op::kGt: return B(a.lo > b.lo);
    case Op::kGe: return B(a.lo >= b.lo);
    default: return Tri::U;
  }
}
inline Tri Not(Tri t) {
  if (t == Tri::T) return Tri::F;
  if (t == Tri::F) return Tri::T;
  return t;
}
// Undefinedness is strict (whether an undefined operand is reached depends on
// evaluation order, so it makes the whole formula "don't care").
inline Tri And(Tri a, Tri b) {
  if (a == Tri::X || b == Tri::X) return Tri::X;
  if (a == Tri::F || b == Tri::F) return Tri::F;
  if (a == Tri::U || b == Tri::U) return Tri::U;
  return Tri::T;
}
inline Tri Or(Tri a, Tri b) { return Not(And(Not(a), Not(b))); }

Tri EvalF(const NP& n, Env& env);
inline FV EvalE(const NP& n, Env& env) {
  switch (n->op) {
    case Op::kConst: return Point(n->c, std::fabs(n->c));
    case Op::kReal: return Point(n->c, std::fabs(n->c));
    case Op::kVar: return Point(env.v.at(n->var), std::fabs(env.v.at(n->var)));
    case Op::kNan: return Undef();
    case Op::kUF: return Unk();
    case Op::kIte: {
      const Tri t = EvalF(n->k[0], env);
      if (t == Tri::T) return EvalE(n->k[1], env);
      if (t == Tri::F) return EvalE(n->k[2], env);
      return t == Tri::X ? Undef() : Unk();
    }
    default: break;
  }
  const FV a = EvalE(n->k[0], env);
  if (a.s == St::Undef) return a;
  if (n->k.size() == 1) {
    if (a.s != St::Def) return a;
    if (n->op == Op::kNeg) return NegV(a);
    return Un(n->op, a);
  }
  const FV b = EvalE(n->k[1], env);
  if (b.s == St::Undef) return b;
  if (a.s != St::Def) return a;
  if (b.s != St::Def) return b;
  return Bin(n->op, a, b);
}
inline Tri EvalF(const NP& n, Env& env) {
  switch (n->op) {
    case Op::kTrue: return Tri::T;
    case Op::kFalse: return Tri::F;
    case Op::kBool: return env.v.at(n->var) != 0 ? Tri::T : Tri::F;
    case Op::kEq: case Op::kNe: case Op::kLt: case Op::kLe: case Op::kGt: case Op::kGe:
      return Rel(n->op, EvalE(n->k[0], env), EvalE(n->k[1], env));
    case Op::kNot: return Not(EvalF(n->k[0], env));
    case Op::kAnd: {
      Tri t = Tri::T;
      for (auto& k : n->k) t = And(t, EvalF(k, env));
      return t;
    }
    case Op::kOr: {
      Tri t = Tri::F;
      for (auto& k : n->k) t = Or(t, EvalF(k, env));
      return t;
    }
    case Op::kImp: return Or(Not(EvalF(n->k[0], env)), EvalF(n->k[1], env));
    case Op::kIff: {
      const Tri a = EvalF(n->k[0], env), b = EvalF(n->k[1], env);
      return Or(And(a, b), And(Not(a), Not(b)));
    }
    case Op::kForall: {
      const auto& dom = QuantDomain();
      std::vector<size_t> idx(n->bound.size(), 0);
      const Env saved = env;
      Tri t = Tri::T;
      while (true) {
        for (size_t i = 0; i < idx.size(); ++i) env.v.at(n->bound[i]) = dom[idx[i]];
        t = And(t, EvalF(n->k[0], env));
        size_t i = 0;
        while (i < idx.size() && ++idx[i] == dom.size()) idx[i++] = 0;
        if (i == idx.size()) break;
      }
      env = saved;
      return t;
    }
    default: return Tri::U;
  }
}

inline bool Accept(const FV& r, double v) {
  const double tol = 1e-11 * r.mag + 1e-9 * std::max(std::fabs(r.lo), std::fabs(r.hi)) + 1e-280;
  return v >= r.lo - tol && v <= r.hi + tol;
}

}  // namespace ref
