// C04: substitution means evaluation under the substituted environment.
#include "uni.h"
using namespace uni;  // NOLINT
namespace sym = dreal::drake::symbolic;

static std::vector<ref::Env> g_grid;
static std::vector<Environment> g_env;
static const int kN = 5;  // x y z b1 b2

using SMap = std::map<int, NP>;
static int g_fresh = 40;  // indices of renamed bound variables in reference terms
// With capture set, binders are not renamed: what FormulaForall::Substitute
// does (known finding). Used only to tell that finding from anything else.
static NP Subst(const NP& n, const SMap& m, bool capture = false) {
  if (n->op == Op::kVar || n->op == Op::kBool) {
    auto it = m.find(n->var);
    return it == m.end() ? n : it->second;
  }
  if (n->op == Op::kUF) {
    auto r = std::make_shared<ref::Node>(*n);
    std::set<int> s;
    for (int b : n->bound) {
      auto it = m.find(b);
      if (it == m.end()) s.insert(b);
      else for (int v : FreeOf(it->second)) s.insert(v);
    }
    r->bound.assign(s.begin(), s.end());
    return r;
  }
  if (n->k.empty()) return n;
  auto r = std::make_shared<ref::Node>(*n);
  if (n->op == Op::kForall) {
    SMap m2 = m;
    for (int b : n->bound) m2.erase(b);
    std::set<int> in;
    if (!capture) for (auto& p : m2) if (FreeOf(n).count(p.first)) for (int v : FreeOf(p.second)) in.insert(v);
    for (int& b : r->bound)
      if (in.count(b)) {
        const int f = g_fresh++;
        m2[b] = ref::V(f, VV().v[b].get_type() == Variable::Type::BOOLEAN);
        b = f;
      }
    if (capture) {  // a binder of a variable that does not occur binds nothing
      r->bound.clear();
      for (int b : n->bound) {
        if (FreeOf(n->k[0]).count(b)) r->bound.push_back(b);
        else if (m.count(b)) m2[b] = m.at(b);
      }
    }
    r->k = {Subst(n->k[0], m2, capture)};
    return r;
  }
  for (auto& k : r->k) k = Subst(k, m, capture);
  return r;
}
static std::string SStr(const SMap& m) {
  std::string s = "{";
  for (auto& p : m) s += (s.size() > 1 ? ", " : "") + ref::VarNames()[p.first] + "->" + ref::Str(p.second);
  return s + "}";
}
static void Real(const SMap& m, sym::ExpressionSubstitution* es, sym::FormulaSubstitution* fs) {
  for (auto& p : m) {
    const Variable& v = VV().v[p.first];
    if (v.get_type() == Variable::Type::BOOLEAN) fs->emplace(v, BuildF(p.second));
    else es->emplace(v, BuildE(p.second));
  }
}
// value agreement of a real expression with a reference term
static bool AgreeE(const NP& n, const Expression& e, const std::string& id, vf::Ctx& c) {
  for (size_t i = 0; i < g_grid.size(); ++i) {
    ref::Env t = g_grid[i];
    const ref::FV r = ref::EvalE(n, t);
    if (r.s != ref::St::Def) continue;
    ++c.evals;
    const EvalRes v = Ev(e, g_env[i]);
    if (v.thrown || !ref::Accept(r, v.v)) {
      c.Fail("value " + id, vf::Cat(id, " gives ", e, " = ", v.thrown ? v.what : vf::Cat(v.v), " at ", EnvStr(g_grid[i], kN), ", expected ", r.lo));
      return false;
    }
  }
  return true;
}
static bool AgreeF(const NP& n, const Formula& f, const std::string& id, vf::Ctx& c, const NP& cap = nullptr, bool quiet = false) {
  NP l;
  bool quant = false;
  {
    std::function<void(const NP&)> w = [&](const NP& q) { quant = quant || q->op == Op::kForall; for (auto& k : q->k) w(k); };
    w(n);
  }
  if (quant) l = LiftF(f);
  for (size_t i = 0; i < g_grid.size(); ++i) {
    ref::Env t = g_grid[i];
    const ref::Tri r = ref::EvalF(n, t);
    if (r != ref::Tri::T && r != ref::Tri::F) continue;
    ++c.evals;
    int v = -1;
    std::string what;
    if (quant) {
      ref::Env t2 = g_grid[i];
      const ref::Tri r2 = ref::EvalF(l, t2);
      if (r2 == ref::Tri::U || r2 == ref::Tri::X) continue;
      v = r2 == ref::Tri::T;
    } else {
      try { v = f.Evaluate(g_env[i]); } catch (const std::exception& e) { what = e.what(); }
    }
    if (v != (r == ref::Tri::T)) {
      if (quiet) return false;
      if (cap && ref::Str(cap) != ref::Str(n) && AgreeF(cap, f, id, c, nullptr, true)) {
        c.Fail("capture", vf::Cat("substitution captures a quantified variable: ", id, " gives ", f));
        return false;
      }
      c.Fail("truth " + id, vf::Cat(id, " gives ", f, " = ", v < 0 ? what : vf::Cat(v), " at ", EnvStr(g_grid[i], kN)));
      return false;
    }
  }
  return true;
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* b : {"x", "x", "z"}) VV().New(b, Variable::Type::CONTINUOUS);
  for (const char* b : {"b", "b"}) VV().New(b, Variable::Type::BOOLEAN);
  g_grid = Grid({{0, {-1, 0.5, 2}}, {1, {-2, 0, 1.5}}, {2, {-1, 3}}, {3, {0, 1}}, {4, {0, 1}}});
  for (auto& e : g_grid) { e.v.resize(128); g_env.push_back(ToEnv(e, kN)); }
  // names and identities for renamed binders of the reference
  while (ref::VarNames().size() < 128) ref::VarNames().push_back("r" + std::to_string(ref::VarNames().size()));
  // keep lifted fresh variables apart from reference-renamed ones
  while (VV().v.size() < 40) VV().v.push_back(Variable("pad", Variable::Type::CONTINUOUS));
  g_fresh = 96;
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true);
  auto B = [](Op o, NP a, NP b) { return ref::Mk(o, {std::move(a), std::move(b)}); };
  std::vector<NP> E{x, y, ref::C(2), ref::C(-1)};
  {
    std::vector<NP> base = E;
    for (auto& a : base) for (Op o : UnaryOps()) E.push_back(ref::Mk(o, {a}));
    for (auto& a : base) for (auto& b : base) for (Op o : BinaryOps()) E.push_back(B(o, a, b));
    const std::vector<NP> two{B(Op::kAdd, x, y), B(Op::kMul, x, y), B(Op::kPow, x, ref::C(2)), B(Op::kSub, x, y), B(Op::kDiv, x, y), ref::Mk(Op::kSin, {x}), B(Op::kPow, x, y)};
    for (auto& a : two) {
      for (auto& b : two) for (Op o : {Op::kAdd, Op::kMul, Op::kDiv, Op::kSub, Op::kMin}) E.push_back(B(o, a, b));
      E.push_back(B(Op::kMul, ref::C(3), a));
      E.push_back(B(Op::kAdd, ref::C(3), B(Op::kMul, ref::C(-2), a)));
      E.push_back(B(Op::kMul, z, a));
      E.push_back(B(Op::kPow, a, ref::C(2)));
      E.push_back(ref::Mk(Op::kAbs, {a}));
      E.push_back(ref::Mk(Op::kExp, {a}));
    }
    for (Op o : RelOps()) E.push_back(ref::Mk(Op::kIte, {B(o, x, y), x, B(Op::kAdd, y, z)}));
    E.push_back(ref::Mk(Op::kIte, {b1, x, y}));
    E.push_back(ref::Mk(Op::kIte, {B(Op::kAnd, b1, B(Op::kLt, x, z)), B(Op::kMul, x, y), y}));
    E.push_back(ref::Mk(Op::kIte, {ref::Mk(Op::kNot, {b1}), ref::Mk(Op::kIte, {b2, x, z}), y}));
    // conditionals in branches of conditionals, with related conditions
    const std::vector<NP> cond{B(Op::kLt, x, y), ref::Mk(Op::kNot, {B(Op::kLt, x, y)}), B(Op::kGe, x, y), b1, ref::Mk(Op::kNot, {b1}), B(Op::kEq, x, y)};
    auto I = [](NP p, NP q, NP r) { return ref::Mk(Op::kIte, {std::move(p), std::move(q), std::move(r)}); };
    for (auto& p : cond)
      for (auto& q : cond) {
        E.push_back(I(p, B(Op::kAdd, y, z), I(q, x, ref::C(2))));
        E.push_back(I(p, I(q, z, B(Op::kMul, x, y)), B(Op::kAdd, x, ref::C(1))));
      }
    for (auto& p : cond) {
      const NP i = I(p, x, B(Op::kMul, y, z)), j = I(p, y, y);
      for (auto& k : {i, j}) {
        E.push_back(B(Op::kAdd, ref::C(1), k));
        E.push_back(B(Op::kMul, B(Op::kMul, ref::C(2), z), k));
        E.push_back(ref::Mk(Op::kCos, {k}));
        E.push_back(B(Op::kPow, ref::C(2), k));
        E.push_back(B(Op::kMax, k, x));
        E.push_back(B(Op::kAdd, k, I(b2, x, z)));
      }
    }
  }
  std::vector<NP> F;
  {
    std::vector<NP> lit{b1, b2, B(Op::kLt, x, y), B(Op::kEq, x, ref::C(0.5)), B(Op::kGe, B(Op::kAdd, x, y), z), B(Op::kNe, B(Op::kMul, x, x), y), B(Op::kGt, ref::Mk(Op::kIte, {b1, x, z}), y), B(Op::kLe, x, z)};
    for (auto& a : lit) { F.push_back(a); F.push_back(ref::Mk(Op::kNot, {a})); }
    for (auto& a : lit) for (auto& b : lit) for (Op o : {Op::kAnd, Op::kOr, Op::kIff}) F.push_back(B(o, a, b));
    for (size_t i = 0; i < lit.size(); ++i)
      for (size_t j = i + 1; j < lit.size(); ++j)
        for (size_t k = j + 1; k < lit.size(); ++k) {
          F.push_back(B(Op::kAnd, B(Op::kAnd, lit[i], lit[j]), lit[k]));
          F.push_back(B(Op::kOr, B(Op::kOr, lit[i], ref::Mk(Op::kNot, {lit[j]})), lit[k]));
          F.push_back(B(Op::kOr, lit[i], B(Op::kAnd, lit[j], ref::Mk(Op::kNot, {lit[k]}))));
          F.push_back(ref::Mk(Op::kNot, {B(Op::kAnd, lit[i], B(Op::kOr, lit[j], lit[k]))}));
        }
    const std::vector<NP> q{B(Op::kLt, x, y), B(Op::kOr, B(Op::kLt, x, y), B(Op::kEq, z, x)), B(Op::kAnd, b1, B(Op::kLe, y, B(Op::kAdd, x, z))), B(Op::kOr, b1, b2)};
    for (auto& a : q)
      for (auto& bs : std::vector<std::vector<int>>{{0}, {1}, {0, 1}, {2}, {0, 2}}) {
        F.push_back(ref::All(bs, a));
        F.push_back(ref::Mk(Op::kNot, {ref::All(bs, a)}));
        F.push_back(B(Op::kAnd, ref::All(bs, a), B(Op::kLt, x, y)));
        F.push_back(ref::All({1}, B(Op::kOr, ref::All(bs, a), B(Op::kLt, x, y))));
      }
  }
  // replacements
  const std::vector<NP> rx{nullptr, x, y, z, ref::C(2), ref::C(0), B(Op::kAdd, x, y), B(Op::kMul, y, z), B(Op::kMul, ref::C(-1), x), ref::Mk(Op::kSin, {y}), B(Op::kPow, x, ref::C(2))};
  const std::vector<NP> rb{nullptr, b2, ref::Mk(Op::kNot, {b1}), B(Op::kLt, x, y), ref::Mk(Op::kTrue), B(Op::kGt, z, ref::C(0))};
  std::vector<SMap> subs;
  for (auto& a : rx)
    for (auto& b : rx)
      for (size_t i = 0; i < rb.size(); ++i) {
        SMap m;
        if (a) m[0] = a;
        if (b) m[1] = b;
        if (rb[i]) m[3] = rb[i];
        subs.push_back(m);
        if (i == 1) { m[4] = b1; subs.push_back(m); }  // swap of Booleans
      }
  for (auto& a : rx) { SMap m; m[0] = z; m[2] = a ? a : x; subs.push_back(m); m[1] = x; subs.push_back(m); }
  d.rule = "case = a term and a simultaneous substitution; the substituted term's value is compared in every grid environment with the reference substitution (capture-avoiding, simultaneous) evaluated by the reference; quantified formulas are evaluated over a finite domain on both sides; non-trivial = the substitution mentions a free variable of the term";
  d.bounds = {vf::Cat(E.size(), " expressions, ", F.size(), " formulas (", "with nested binders) x ", subs.size(), " substitutions; grid ", g_grid.size())};
  const size_t qs = d.thorough ? 1 : 3;
  d.Add("expressions", E.size(), [&](int64_t u, vf::Ctx& c) {
    Expression e;
    try { e = BuildE(E[u]); } catch (const std::exception&) { return; }
    const std::string before = e.to_string();
    const std::set<int> fv = FreeOf(E[u]);
    for (size_t si = 0; si < subs.size(); ++si) {
      const SMap& m = subs[si];
      if (!fv.count(3) && !fv.count(4) && (m.count(3) || m.count(4)) && si % (7 * qs)) continue;  // irrelevant Boolean part
      const std::string id = ref::Str(E[u]) + " " + SStr(m);
      c.Note(id);
      g_fresh = 96;
      VV().Shrink(40);
      const NP want = Subst(E[u], m);
      sym::ExpressionSubstitution es;
      sym::FormulaSubstitution fs;
      Real(m, &es, &fs);
      ++c.transitions;
      bool touch = false;
      for (auto& p : m) touch = touch || fv.count(p.first);
      if (touch) ++c.nontrivial;
      auto run = [&](const char* how, const std::function<Expression()>& go) {
        Expression r;
        try { r = go(); } catch (const std::exception& x) {
          // allowed only if the result has no value anywhere
          for (auto& env : g_grid) {
            ref::Env t = env;
            if (ref::EvalE(want, t).s == ref::St::Def) { c.Fail("throws " + id, vf::Cat(how, id, " throws ", x.what(), " though the result has a value")); return; }
          }
          return;
        }
        c.Outcome(r.to_string());
        AgreeE(want, r, how + id, c);
        // nothing outside the expected free variables may appear
        const std::set<int> wf = FreeOf(want);
        for (int v : IdxSet(r.GetVariables()))
          if (!wf.count(v)) { c.Fail("freevar " + id, vf::Cat(how, id, " mentions ", ref::VarNames()[v])); break; }
      };
      run("", [&] { return e.Substitute(es, fs); });
      if (fs.empty()) run("(expr) ", [&] { return e.Substitute(es); });
      if (es.empty()) run("(formula) ", [&] { return e.Substitute(fs); });
      if (es.size() == 1 && fs.empty()) run("(var,e) ", [&] { return e.Substitute(es.begin()->first, es.begin()->second); });
      ++c.traces;
    }
    if (e.to_string() != before) c.Fail("mutated " + before, "substituting changed the original: " + before);
    c.State(before);
    c.Sample(before);
  });
  d.Add("formulas", F.size(), [&](int64_t u, vf::Ctx& c) {
    const Formula f = BuildF(F[u]);
    const std::string before = f.to_string();
    const std::set<int> fv = FreeOf(F[u]);
    for (size_t si = 0; si < subs.size(); ++si) {
      const SMap& m = subs[si];
      if (!fv.count(3) && !fv.count(4) && (m.count(3) || m.count(4)) && si % (7 * qs)) continue;
      const std::string id = ref::Str(F[u]) + " " + SStr(m);
      c.Note(id);
      g_fresh = 96;
      VV().Shrink(40);
      const NP want = Subst(F[u], m);
      sym::ExpressionSubstitution es;
      sym::FormulaSubstitution fs;
      Real(m, &es, &fs);
      ++c.transitions;
      bool touch = false;
      for (auto& p : m) touch = touch || fv.count(p.first);
      if (touch) ++c.nontrivial;
      auto run = [&](const char* how, const Formula& r) {
        c.Outcome(r.to_string());
        AgreeF(want, r, how + id, c, Subst(F[u], m, true));
        const std::set<int> wf = FreeOf(want);
        for (int v : IdxSet(r.GetFreeVariables()))
          if (!wf.count(v)) { c.Fail("freevar " + id, vf::Cat(how, id, " mentions ", ref::VarNames()[v])); break; }
      };
      run("", f.Substitute(es, fs));
      if (fs.empty()) run("(expr) ", f.Substitute(es));
      if (es.empty()) run("(formula) ", f.Substitute(fs));
      if (es.size() == 1 && fs.empty()) run("(var,e) ", f.Substitute(es.begin()->first, es.begin()->second));
      if (fs.size() == 1 && es.empty()) run("(var,f) ", f.Substitute(fs.begin()->first, fs.begin()->second));
      ++c.traces;
    }
    if (f.to_string() != before) c.Fail("mutated " + before, "substituting changed the original: " + before);
    c.State(before);
    c.Sample(before);
  });
  d.Add("uninterpreted", 16, [&](int64_t u, vf::Ctx& c) {
    Variables vs;
    auto n = std::make_shared<ref::Node>();
    n->op = Op::kUF;
    for (int i = 0; i < 4; ++i) if (u & (1 << i)) { vs.insert(VV().v[i]); n->bound.push_back(i); }
    const Expression e = sym::uninterpreted_function("uf", vs);
    for (auto& m : subs) {
      const std::string id = ref::Str(NP(n)) + " " + SStr(m);
      c.Note(id);
      sym::ExpressionSubstitution es;
      sym::FormulaSubstitution fs;
      Real(m, &es, &fs);
      ++c.transitions;
      ++c.evals;
      const Expression r = e.Substitute(es, fs);
      if (!sym::is_uninterpreted_function(r) || sym::get_uninterpreted_function_name(r) != "uf" || IdxSet(r.GetVariables()) != FreeOf(Subst(n, m)))
        c.Fail("uf " + id, vf::Cat(id, " gives ", r, " over ", SetStr(IdxSet(r.GetVariables()))));
      ++c.traces;
    }
  });
  // partial evaluation agrees with full evaluation
  d.Add("partial", E.size(), [&](int64_t u, vf::Ctx& c) {
    Expression e;
    try { e = BuildE(E[u]); } catch (const std::exception&) { return; }
    for (int mask = 0; mask < 8; ++mask)
      for (size_t i = 0; i < g_grid.size(); i += 4) {
        Environment part;
        for (int v = 0; v < 3; ++v) if (mask & (1 << v)) part.insert(VV().v[v], g_grid[i].v[v]);
        ref::Env t = g_grid[i];
        const ref::FV r = ref::EvalE(E[u], t);
        if (r.s != ref::St::Def) continue;
        ++c.transitions;
        ++c.evals;
        const std::string id = vf::Cat(ref::Str(E[u]), " partially at mask ", mask, " ", EnvStr(g_grid[i], kN));
        c.Note(id);
        Expression p;
        try { p = e.EvaluatePartial(part); } catch (const std::exception& x) { c.Fail("partial-throws " + id, id + " throws " + x.what()); continue; }
        for (int v = 0; v < 3; ++v)
          if ((mask & (1 << v)) && p.GetVariables().include(VV().v[v])) c.Fail("partial-left " + id, vf::Cat(id, " still mentions ", VV().v[v]));
        const EvalRes v = Ev(p, g_env[i]);
        if (v.thrown || !ref::Accept(r, v.v)) c.Fail("partial " + id, vf::Cat(id, " gives ", p, ", expected value ", r.lo));
        ++c.traces;
      }
  });
  return d.Run();
}
