// C06: symbolic differentiation yields the derivative. The reference is
// forward-mode automatic differentiation over the reference reading of a term.
#include "uni.h"
using namespace uni;  // NOLINT
static std::vector<ref::Env> g_grid;
static std::vector<Environment> g_env;
static const int kN = 2;

struct Dual {
  bool ok{true};  // defined and differentiable here, by a clear margin
  double v{0}, d{0}, mag{0};
};
static Dual Bad() { Dual r; r.ok = false; return r; }
static Dual Mk(double v, double d, std::initializer_list<Dual> in) {
  Dual r;
  r.v = v;
  r.d = d;
  r.mag = std::max(std::fabs(v), std::fabs(d));
  for (auto& x : in) r.mag = std::max(r.mag, x.mag);
  r.ok = std::isfinite(v) && std::isfinite(d) && r.mag < 1e8;
  return r;
}
static bool Mentions(const NP& n, int var) { return FreeOf(n).count(var) > 0; }
static Dual Eval(const NP& n, const ref::Env& env, int var) {
  switch (n->op) {
    case Op::kConst: case Op::kReal: return Mk(n->c, 0, {});
    case Op::kVar: return Mk(env.v[n->var], n->var == var ? 1 : 0, {});
    case Op::kIte: {
      ref::Env t = env;
      const ref::Tri c = ref::EvalF(n->k[0], t);
      if (c != ref::Tri::T && c != ref::Tri::F) return Bad();
      if (Mentions(n->k[0], var)) return Bad();
      return Eval(n->k[c == ref::Tri::T ? 1 : 2], env, var);
    }
    default: break;
  }
  if (n->k.empty()) return Bad();
  const Dual a = Eval(n->k[0], env, var);
  if (!a.ok) return a;
  const double m = 1e-6;
  if (n->k.size() == 1) {
    const double v = a.v;
    switch (n->op) {
      case Op::kNeg: return Mk(-v, -a.d, {a});
      case Op::kAbs: return std::fabs(v) < m ? Bad() : Mk(std::fabs(v), v > 0 ? a.d : -a.d, {a});
      case Op::kExp: return Mk(std::exp(v), std::exp(v) * a.d, {a});
      case Op::kLog: return v < m ? Bad() : Mk(std::log(v), a.d / v, {a});
      case Op::kSqrt: return v < m ? Bad() : Mk(std::sqrt(v), a.d / (2 * std::sqrt(v)), {a});
      case Op::kSin: return Mk(std::sin(v), std::cos(v) * a.d, {a});
      case Op::kCos: return Mk(std::cos(v), -std::sin(v) * a.d, {a});
      case Op::kTan: return std::fabs(std::cos(v)) < 1e-3 ? Bad() : Mk(std::tan(v), a.d / (std::cos(v) * std::cos(v)), {a});
      case Op::kAsin: return std::fabs(v) > 1 - m ? Bad() : Mk(std::asin(v), a.d / std::sqrt(1 - v * v), {a});
      case Op::kAcos: return std::fabs(v) > 1 - m ? Bad() : Mk(std::acos(v), -a.d / std::sqrt(1 - v * v), {a});
      case Op::kAtan: return Mk(std::atan(v), a.d / (1 + v * v), {a});
      case Op::kSinh: return Mk(std::sinh(v), std::cosh(v) * a.d, {a});
      case Op::kCosh: return Mk(std::cosh(v), std::sinh(v) * a.d, {a});
      case Op::kTanh: return Mk(std::tanh(v), a.d / (std::cosh(v) * std::cosh(v)), {a});
      default: return Bad();
    }
  }
  const Dual b = Eval(n->k[1], env, var);
  if (!b.ok) return b;
  switch (n->op) {
    case Op::kAdd: return Mk(a.v + b.v, a.d + b.d, {a, b});
    case Op::kSub: return Mk(a.v - b.v, a.d - b.d, {a, b});
    case Op::kMul: return Mk(a.v * b.v, a.d * b.v + a.v * b.d, {a, b});
    case Op::kDiv: return std::fabs(b.v) < m ? Bad() : Mk(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v), {a, b});
    case Op::kPow: {
      const bool exp_const = !Mentions(n->k[1], var);
      if (exp_const && b.v == std::floor(b.v)) {  // integer exponent
        if (n->k[1]->op != Op::kConst && std::fabs(a.v) < m) return Bad();  // not smooth in the exponent's own variables
        if (b.v == 0) return Mk(1, 0, {a, b});
        if (b.v < 0 && std::fabs(a.v) < m) return Bad();
        return Mk(std::pow(a.v, b.v), b.v * std::pow(a.v, b.v - 1) * a.d, {a, b});
      }
      if (a.v < m) return Bad();
      return Mk(std::pow(a.v, b.v), std::pow(a.v, b.v) * (b.d * std::log(a.v) + b.v * a.d / a.v), {a, b});
    }
    case Op::kAtan2: {
      const double q = a.v * a.v + b.v * b.v;
      if (q < m || (b.v <= m && std::fabs(a.v) < m)) return Bad();
      return Mk(std::atan2(a.v, b.v), (a.d * b.v - a.v * b.d) / q, {a, b});
    }
    case Op::kMin: case Op::kMax: {
      if (std::fabs(a.v - b.v) < m) return Bad();
      const bool first = (a.v < b.v) == (n->op == Op::kMin);
      return first ? a : b;
    }
    default: return Bad();
  }
}
// kinds that may be refused when they mention the variable
static bool MayRefuse(const NP& n, int var) {
  if ((n->op == Op::kAbs || n->op == Op::kMin || n->op == Op::kMax || n->op == Op::kIte || n->op == Op::kUF) && Mentions(n, var)) return true;
  for (auto& k : n->k) if (MayRefuse(k, var)) return true;
  return false;
}
static bool AnyPoint(const NP& n, int var) {
  for (auto& e : g_grid) if (Eval(n, e, var).ok) return true;
  return false;
}
static void Agree(const NP& t, const Expression& dx, int var, const std::string& id, vf::Ctx& c) {
  bool any = false;
  for (size_t i = 0; i < g_grid.size(); ++i) {
    const Dual r = Eval(t, g_grid[i], var);
    if (!r.ok) continue;
    const EvalRes v = Ev(dx, g_env[i]);
    if (v.thrown) { c.Fail("undefined " + id, vf::Cat(id, " gives ", dx, " which is undefined at ", EnvStr(g_grid[i], kN), " (", v.what, ") although the derivative there is ", r.d)); return; }
    ++c.evals;
    any = true;
    if (!(std::fabs(v.v - r.d) <= 1e-7 * (1 + std::fabs(r.d)) + 1e-9 * r.mag)) {
      // cancellation inside the derivative's own expression
      ref::Env q = g_grid[i];
      const ref::FV own = ref::EvalE(LiftE(dx), q);
      if ((own.s == ref::St::Unk && std::isfinite(v.v)) || (own.s == ref::St::Def && std::fabs(v.v - r.d) <= 1e-9 * own.mag)) { ++c.extra["skipped: ill-conditioned"]; continue; }
      c.Fail("value " + id, vf::Cat(id, " gives ", dx, " with value ", v.v, " at ", EnvStr(g_grid[i], kN), " but the derivative is ", r.d));
      return;
    }
  }
  if (any) ++c.nontrivial;
}
static void Check(const ES& s, vf::Ctx& c, bool second) {
  const NP t = LiftE(s.e);
  for (int var = 0; var < kN; ++var) {
    const std::string id = "d/d" + ref::VarNames()[var] + " " + ref::Str(s.n);
    c.Note(id);
    ++c.transitions;
    Expression dx;
    try { dx = s.e.Differentiate(VV().v[var]); } catch (const std::exception& ex) {
      if (!MayRefuse(t, var) && AnyPoint(t, var)) c.Fail("refused " + id, vf::Cat(id, " is refused: ", ex.what()));
      if (!MayRefuse(t, var) && dreal::IsDifferentiable(s.e) && AnyPoint(t, var)) c.Fail("isdiff " + id, vf::Cat(s.e, " is reported differentiable but ", id, " is refused"));
      c.Outcome("refused");
      continue;
    }
    ++c.evals;
    if (!Mentions(t, var))
      for (size_t i = 0; i < g_grid.size(); ++i) {
        const EvalRes v = Ev(dx, g_env[i]);
        if (!v.thrown && v.v != 0 && !std::isnan(v.v)) { c.Fail("const " + id, vf::Cat(id, " gives ", dx, " = ", v.v, " although the term does not mention the variable")); break; }
      }
    Agree(t, dx, var, id, c);
    c.State(dx.to_string());
    ++c.traces;
    c.Sample(id + "  =  " + dx.to_string());
    if (second) {
      const NP t2 = LiftE(dx);
      for (int w = 0; w < kN; ++w) {
        ++c.transitions;
        Expression dd;
        try { dd = dx.Differentiate(VV().v[w]); } catch (const std::exception& ex) {
          if (!MayRefuse(t2, w) && AnyPoint(t2, w)) c.Fail("refused2 " + id, vf::Cat("d/d", ref::VarNames()[w], " of ", id, " is refused: ", ex.what()));
          continue;
        }
        Agree(t2, dd, w, "d/d" + ref::VarNames()[w] + " of " + id, c);
      }
    }
  }
  bool refuses = false;
  for (int var = 0; var < kN; ++var) refuses = refuses || MayRefuse(t, var);
  if (dreal::IsDifferentiable(s.e) && refuses) {
    for (int var = 0; var < kN; ++var)
      if (MayRefuse(t, var)) {
        try { s.e.Differentiate(VV().v[var]); } catch (const std::exception&) { c.Fail("isdiff " + ref::Str(s.n), vf::Cat(s.e, " is reported differentiable but differentiation refuses it")); }
      }
  }
}
static ESet Grow(const std::vector<ES>& a, const std::vector<ES>& b, const std::vector<Op>& un, const std::vector<Op>& bin) {
  ESet s;
  for (auto& x : a) s.Insert(x.e, x.n);
  for (auto& x : b) s.Insert(x.e, x.n);
  auto add = [&](const NP& n, Op op, const std::vector<Expression>& k) {
    try { s.Insert(Apply(op, k), n); } catch (const std::runtime_error&) {} catch (const std::domain_error&) {}
  };
  for (auto& x : a) for (Op o : un) add(ref::Mk(o, {x.n}), o, {x.e});
  for (auto& x : a) for (auto& y : b) for (Op o : bin) add(ref::Mk(o, {x.n, y.n}), o, {x.e, y.e});
  return s;
}
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (auto n : {"x", "x"}) VV().New(n, Variable::Type::CONTINUOUS);
  g_grid = Grid({{0, {-1.3, -0.4, 0, 0.35, 0.8, 1, 2.2}}, {1, {-2, -0.6, 0.45, 1, 1.7}}});
  for (auto& e : g_grid) g_env.push_back(ToEnv(e, kN));
  auto atom = [](const NP& n) { return ES{BuildE(n), n}; };
  std::vector<ES> A0{atom(ref::V(0)), atom(ref::V(1))};
  for (double k : {0.0, 1.0, 2.0, 3.0, -1.0, 0.5, -2.0}) A0.push_back(atom(ref::C(k)));
  A0.push_back(atom(ref::RC(0.1, std::nextafter(0.1, 1), true)));
  std::vector<ES> A1{A0[0], A0[1], A0[4], A0[7]};  // x, y, 3, 0.5
  ESet S2 = Grow(A0, A0, UnaryOps(), BinaryOps());
  for (Op o : {Op::kLt, Op::kEq}) { const NP n = ref::Mk(Op::kIte, {ref::Mk(o, {ref::V(0), ref::C(0.5)}), ref::V(1), ref::Mk(Op::kMul, {ref::V(0), ref::V(1)})}); S2.Insert(BuildE(n), n); }
  { auto u = std::make_shared<ref::Node>(); u->op = Op::kUF; u->bound = {0}; S2.Insert(BuildE(u), u); }
  const int64_t n2 = S2.v.size();
  std::vector<ES> R1{A0[0], A0[1], atom(ref::C(2)), atom(ref::C(0.5))};
  ESet R2 = Grow(R1, R1, {Op::kNeg, Op::kSqrt}, {Op::kAdd, Op::kMul, Op::kDiv, Op::kPow});
  const int64_t nr2 = R2.v.size();
  std::vector<ES> core;  // depth-2 terms over x and y only, one per operator, for depth-4 chains
  for (auto& s : S2.v) { bool ok = s.n->k.size() >= 1; for (auto& k : s.n->k) ok = ok && (k->op == Op::kVar || (k->op == Op::kConst && (k->c == 3 || k->c == 0.5))); if (ok) core.push_back(s); }
  const int64_t nc = core.size();
  d.rule = "case = Differentiate applied to one built term with respect to each variable; compared at every grid point where the term is differentiable with forward-mode automatic differentiation over the term read back through its accessors; refusals only for terms mentioning the variable inside abs/min/max/if/uninterpreted; second derivatives against the same reference on the first";
  d.bounds = {vf::Cat(n2, " distinct terms of depth 2 over all operators (first and second derivatives); depth 3: every operator over them with an atom"), vf::Cat("depth 3 in full over +,*,/,pow,neg,sqrt on {x,y,2,0.5}: ", nr2, "^2 pairs; depth 3 in full over ", nc, " variable-carrying depth-2 terms, all binary operators; depth 4: every unary operator over products and powers (thorough: sums, quotients, atan2 too, and one more binary operator) of two of these"), vf::Cat(g_grid.size(), " points")};
  d.Add("depth2", n2, [&](int64_t u, vf::Ctx& c) { Check(S2.v[u], c, true); });
  auto go = [&](const NP& n, Op o, const std::vector<Expression>& k, vf::Ctx& c, bool second) {
    Expression e;
    try { e = Apply(o, k); } catch (const std::runtime_error&) { return; } catch (const std::domain_error&) { return; }
    Check({e, n}, c, second);
  };
  d.Add("depth3", n2, [&](int64_t u, vf::Ctx& c) {
    const ES& a = S2.v[u];
    for (Op o : UnaryOps()) go(ref::Mk(o, {a.n}), o, {a.e}, c, true);
    for (const ES& b : d.thorough ? A0 : A1)
      for (Op o : BinaryOps()) { go(ref::Mk(o, {a.n, b.n}), o, {a.e, b.e}, c, true); go(ref::Mk(o, {b.n, a.n}), o, {b.e, a.e}, c, true); }
  }, 300);
  d.Add("arith3", nr2, [&](int64_t u, vf::Ctx& c) {
    const ES& a = R2.v[u];
    for (const ES& b : R2.v) for (Op o : {Op::kAdd, Op::kMul, Op::kDiv, Op::kPow}) go(ref::Mk(o, {a.n, b.n}), o, {a.e, b.e}, c, d.thorough || o != Op::kPow);
  }, 300);
  d.Add("core3", nc, [&](int64_t u, vf::Ctx& c) {
    const ES& a = core[u];
    for (const ES& b : core) for (Op o : BinaryOps()) go(ref::Mk(o, {a.n, b.n}), o, {a.e, b.e}, c, d.thorough);
  }, 300);
  d.Add("core4", nc * nc, [&](int64_t u, vf::Ctx& c) {
      const ES &a = core[u / nc], &b = core[u % nc];
      for (Op o : {Op::kMul, Op::kDiv, Op::kPow, Op::kAdd, Op::kAtan2}) {
        if (!d.thorough && o != Op::kMul && o != Op::kPow) continue;
        Expression e;
        try { e = Apply(o, {a.e, b.e}); } catch (const std::runtime_error&) { continue; } catch (const std::domain_error&) { continue; }
        const NP n = ref::Mk(o, {a.n, b.n});
        for (Op q : UnaryOps()) go(ref::Mk(q, {n}), q, {e}, c, false);
        if (!d.thorough) continue;
        for (const ES& x : A1) for (Op q : {Op::kMul, Op::kDiv, Op::kPow}) { go(ref::Mk(q, {n, x.n}), q, {e, x.e}, c, false); go(ref::Mk(q, {x.n, n}), q, {x.e, e}, c, false); }
      }
    }, 300);
  return d.Run();
}
