// The problem set shared by the solver harnesses: constraints over two reals,
// an integer and a Boolean, each with the truth table of a grid of points, and
// the amount by which a given point violates a constraint.
#pragma once
#include "terms.h"
namespace prob {
using dreal::Box;
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using ref::NP;
using uni::Op;
const std::vector<double> kReal{-2, -1.5, -1, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3};
const std::vector<double> kInt{-1, 0, 1, 2, 3};
const int NR = kReal.size(), NI = kInt.size(), NPT = NR * NR * NI * 2;
const double kInf = std::numeric_limits<double>::infinity();
using Bits = std::vector<uint64_t>;
inline Bits Zero() { return Bits((NPT + 63) / 64, 0); }
inline Bits AndB(const Bits& a, const Bits& b) { Bits r = a; for (size_t i = 0; i < r.size(); ++i) r[i] &= b[i]; return r; }
inline int First(const Bits& a) { for (size_t i = 0; i < a.size(); ++i) if (a[i]) return i * 64 + __builtin_ctzll(a[i]); return -1; }
inline int Count(const Bits& a) { int r = 0; for (auto w : a) r += __builtin_popcountll(w); return r; }
inline void PointAt(int k, double* x, double* y, double* n, double* b) {
  *b = k % 2; k /= 2;
  *n = kInt[k % NI]; k /= NI;
  *y = kReal[k % NR]; *x = kReal[k / NR];
}
inline std::string Pt(int k) {
  double x, y, n, b;
  PointAt(k, &x, &y, &n, &b);
  return vf::Cat("(x=", x, ", y=", y, ", n=", n, ", b=", b, ")");
}
struct Vars {
  Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER}, b{"b", Variable::Type::BOOLEAN};
  Vars() { for (const Variable& v : {x, y, n, b}) uni::VV().Add(v); }
};
struct P {
  Formula f;
  NP n;
  Bits t;            // grid points which certainly satisfy it
  bool ite{false};   // an if-then-else term occurs in it
  bool unk{false};   // some point is not decided by the reference
};
inline bool HasIte(const NP& n) {
  if (n->op == Op::kIte) return true;
  for (auto& k : n->k) if (HasIte(k)) return true;
  return false;
}
inline P Mk(const Formula& f, NP n = nullptr) {
  P p{f, n ? n : uni::LiftF(f), Zero(), false, false};
  p.ite = HasIte(p.n);
  const bool pos = terms::VaryingExponent(p.n);
  ref::Env e;
  e.v.assign(80, 0.0);
  for (int k = 0; k < NPT; ++k) {
    PointAt(k, &e.v[0], &e.v[1], &e.v[2], &e.v[3]);
    if (pos && (e.v[0] <= 0 || e.v[1] <= 0 || e.v[2] <= 0)) continue;
    const ref::Tri t = ref::EvalF(p.n, e);
    if (t == ref::Tri::T) p.t[k / 64] |= 1ull << (k % 64);
    if (t == ref::Tri::U || t == ref::Tri::X) p.unk = true;
  }
  return p;
}
// One way through the if-then-else terms of a relation.
struct Case { std::vector<std::pair<NP, bool>> conds; NP e; };
inline std::vector<Case> Cases(const NP& n) {
  if (n->op == Op::kIte) {
    std::vector<Case> r;
    for (int i = 1; i <= 2; ++i)
      for (auto c : Cases(n->k[i])) { c.conds.push_back({n->k[0], i == 1}); r.push_back(c); }
    return r;
  }
  std::vector<Case> r{{{}, nullptr}};
  std::vector<std::vector<NP>> kids{{}};
  for (auto& k : n->k) {
    std::vector<Case> nr;
    std::vector<std::vector<NP>> nk;
    const auto cs = Cases(k);
    for (size_t i = 0; i < r.size(); ++i)
      for (auto& c : cs) {
        Case m = r[i];
        m.conds.insert(m.conds.end(), c.conds.begin(), c.conds.end());
        auto v = kids[i];
        v.push_back(c.e);
        nr.push_back(m); nk.push_back(v);
      }
    r = nr; kids = nk;
  }
  for (size_t i = 0; i < r.size(); ++i) {
    auto m = std::make_shared<ref::Node>(*n);
    m->k = kids[i];
    r[i].e = m;
  }
  return r;
}
// At least this much is missing for the point to satisfy the formula (or its
// negation); 0 where the reference does not decide.
inline double Viol(const NP& n, ref::Env& env, bool pos = true) {
  const double kBig = 1e300;
  switch (n->op) {
    case Op::kTrue: return pos ? 0 : kBig;
    case Op::kFalse: return pos ? kBig : 0;
    case Op::kBool: return (env.v.at(n->var) != 0) == pos ? 0 : kBig;
    case Op::kNot: return Viol(n->k[0], env, !pos);
    case Op::kAnd: case Op::kOr: {
      const bool all = (n->op == Op::kAnd) == pos;
      double r = all ? 0 : kBig;
      for (auto& k : n->k) { const double v = Viol(k, env, pos); r = all ? std::max(r, v) : std::min(r, v); }
      return r;
    }
    case Op::kImp: return pos ? std::min(Viol(n->k[0], env, false), Viol(n->k[1], env, true)) : std::max(Viol(n->k[0], env, true), Viol(n->k[1], env, false));
    case Op::kIff: {
      auto v = [&](int i, bool p) { return Viol(n->k[i], env, p); };
      return std::min(std::max(v(0, true), v(1, pos)), std::max(v(0, false), v(1, !pos)));
    }
    case Op::kEq: case Op::kNe: case Op::kLt: case Op::kLe: case Op::kGt: case Op::kGe: break;
    default: return 0;
  }
  if (HasIte(n)) {
    double r = kBig;
    for (auto& c : Cases(n)) {
      double m = Viol(c.e, env, pos);
      for (auto& k : c.conds) m = std::max(m, Viol(k.first, env, k.second));
      r = std::min(r, m);
    }
    return r;
  }
  const ref::FV a = ref::EvalE(n->k[0], env), b = ref::EvalE(n->k[1], env);
  if (a.s != ref::St::Def || b.s != ref::St::Def) return 0;
  const double tol = 1e-9 * (1 + std::max(a.mag, b.mag));
  const double over = a.lo - b.hi - tol, under = b.lo - a.hi - tol;  // a above b, a below b
  Op o = n->op;
  if (!pos) o = o == Op::kEq ? Op::kNe : o == Op::kNe ? Op::kEq : o == Op::kLt ? Op::kGe : o == Op::kLe ? Op::kGt : o == Op::kGt ? Op::kLe : Op::kLt;
  switch (o) {
    case Op::kEq: return std::max({0.0, over, under});
    case Op::kLt: case Op::kLe: return std::max(0.0, over);
    case Op::kGt: case Op::kGe: return std::max(0.0, under);
    default: return 0;  // an inequation is weakened to truth
  }
}
inline std::string BoxStr(const Box& b) {
  std::string s = "{";
  for (int i = 0; i < b.size(); ++i) s += vf::Cat(i ? ", " : "", b.variable(i), " in [", b[i].lb(), ", ", b[i].ub(), "]");
  return s + "}";
}
struct Bounds {
  std::string name;
  double xl, xu, yl, yu, nl, nu;
  bool skip_x{false};  // declared without bounds
};
inline Bits Within(const Bounds& q) {
  Bits r = Zero();
  for (int k = 0; k < NPT; ++k) {
    double x, y, n, b;
    PointAt(k, &x, &y, &n, &b);
    if (q.xl <= x && x <= q.xu && q.yl <= y && y <= q.yu && q.nl <= n && n <= q.nu) r[k / 64] |= 1ull << (k % 64);
  }
  return r;
}
// What is wrong with a box reported as a model: it must be nonempty, within
// the bounds, of the declared types, and its middle may not violate any of the
// constraints by more than delta.
inline std::string ModelError(const Box& m, const Vars& v, const std::vector<const P*>& fs, const Bounds* q, double delta, bool types = true) {
  if (m.empty()) return "reported an empty box as a model";
  ref::Env e;
  e.v.assign(80, 0.0);
  const std::vector<Variable> vs{v.x, v.y, v.n, v.b};
  for (int i = 0; i < m.size(); ++i) {
    if (!(m[i].lb() <= m[i].ub())) return vf::Cat("model ", BoxStr(m), " has an empty dimension");
    for (int j = 0; j < 4; ++j) {
      if (!vs[j].equal_to(m.variable(i))) continue;
      if (q && j < 3) {
        const double lo = j == 0 ? q->xl : j == 1 ? q->yl : q->nl, hi = j == 0 ? q->xu : j == 1 ? q->yu : q->nu;
        if (m[i].lb() < lo || m[i].ub() > hi) return vf::Cat("model ", BoxStr(m), " outside the declared bounds");
      }
      double mid = m[i].mid();
      if (j >= 2) {
        if (types && (m[i].lb() != m[i].ub() || mid != std::floor(mid))) return vf::Cat("model ", BoxStr(m), " gives ", vs[j], " no integral value");
        if (types && j == 3 && mid != 0 && mid != 1) return vf::Cat("model ", BoxStr(m), " gives b no truth value");
        if (!types) mid = std::round(mid);
      }
      e.v[j] = mid;
    }
  }
  // Nothing is claimed of a box which cannot be divided any further.
  bool atomic = false;
  for (int i = 0; i < m.size(); ++i)
    for (int j = 0; j < 2; ++j)
      if (vs[j].equal_to(m.variable(i))) atomic = atomic || (m[i].lb() < m[i].ub() && std::nextafter(std::nextafter(m[i].lb(), kInf), kInf) >= m[i].ub());
  if (atomic) return "";
  // The middle, or else some other point: ends and middles of the reals.
  std::string why;
  for (int t = 0; t < 9; ++t) {
    for (int i = 0; i < m.size(); ++i)
      for (int j = 0; j < 2; ++j)
        if (vs[j].equal_to(m.variable(i))) {
          const int c = j ? t / 3 : t % 3;
          e.v[j] = c == 0 ? m[i].mid() : c == 1 ? m[i].lb() : m[i].ub();
        }
    std::string bad;
    for (auto* p : fs) {
      const double w = Viol(p->n, e);
      const double slack = (p->ite ? 3 : 1) * delta * (1 + 1e-6);
      if (w > slack) bad = vf::Cat("the middle of the model ", BoxStr(m), " violates ", p->f, " by ", w, ", more than ", delta, ", and so do its corners");
    }
    if (bad.empty()) return "";
    if (t == 0) why = bad;
  }
  return why;
}
inline std::vector<P> Atoms(const Vars& v) {
  const Expression x{v.x}, y{v.y}, n{v.n};
  const Formula b{v.b};
  std::vector<Formula> f{
      x + y == 1, x * y <= -0.5, pow(x, 2) + pow(y, 2) <= 1, x >= 0.5, y < x, sin(x) == 0.5 * y, exp(x) > 2,
      pow(x, 2) == 2, n + x == 2.5, 2 * n == y, pow(n, 2) >= 3, x == y, abs(x - 1) <= 0.25, min(x, y) >= 0.5,
      max(x, y) < 0, x / y >= 1, pow(x, 3) - x == 0, 3 * x + 2 * y <= -7, x * y == 1, n == 1, sqrt(x) + y <= 0.5,
      log(y) >= 0.25, n <= 0, x <= -0.25, y == 0.75, cos(x) * y >= 1.5, x != 0.5, y > 0.25 * n,
      if_then_else(x > 0.25, y, -y) >= 0.75, if_then_else(b, x, y) == -1, b, atan2(x, y) <= -0.5, tanh(x) == y, pow(x, 2) + 1 <= 0};
  std::vector<P> r;
  for (auto& g : f) r.push_back(Mk(g));
  return r;
}
// The atoms, their negations and compound formulas over them.
inline std::vector<P> Formulas(const Vars& v) {
  std::vector<P> a = Atoms(v), r = a;
  auto N = [](std::initializer_list<NP> k, Op o) { return ref::Mk(o, std::vector<NP>(k)); };
  auto no = [&](const P& p) { return Mk(!p.f, N({p.n}, Op::kNot)); };
  auto an = [&](const P& p, const P& q) { return Mk(p.f && q.f, N({p.n, q.n}, Op::kAnd)); };
  auto orr = [&](const P& p, const P& q) { return Mk(p.f || q.f, N({p.n, q.n}, Op::kOr)); };
  auto im = [&](const P& p, const P& q) { return Mk(dreal::imply(p.f, q.f), N({p.n, q.n}, Op::kImp)); };
  auto ff = [&](const P& p, const P& q) { return Mk(dreal::iff(p.f, q.f), N({p.n, q.n}, Op::kIff)); };
  for (size_t i = 0; i < a.size(); ++i) if (i != 33) r.push_back(no(a[i]));
  const P &s = a[0], &hyp = a[1], &disc = a[2], &xh = a[3], &yx = a[4], &r2 = a[7], &nx = a[8], &n2 = a[9], &n1 = a[19], &bb = a[30], &xm = a[23], &n0 = a[22], &it = a[28];
  r.push_back(orr(bb, xm));
  r.push_back(orr(no(bb), an(xh, yx)));
  r.push_back(im(n1, bb));
  r.push_back(ff(bb, xh));
  r.push_back(ff(xh, n0));
  r.push_back(no(an(disc, yx)));
  r.push_back(orr(an(s, n1), an(hyp, no(bb))));
  r.push_back(an(orr(r2, hyp), orr(n0, nx)));
  r.push_back(no(orr(xh, bb)));
  r.push_back(an(no(an(xm, bb)), no(an(xh, no(bb)))));
  r.push_back(orr(an(n2, it), orr(hyp, nx)));
  r.push_back(im(orr(xh, bb), no(n0)));
  r.push_back(ff(ff(bb, xh), yx));
  r.push_back(orr(orr(n0, n1), an(r2, bb)));
  return r;
}
}  // namespace prob
