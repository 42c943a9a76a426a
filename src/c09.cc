// C09: free-variable sets and structural queries are exact.
#include "logic.h"
using namespace lg;  // NOLINT
namespace sym = dreal::drake::symbolic;

static World w;
static bool HasIte(const NP& n) {
  if (n->op == Op::kIte) return true;
  for (auto& k : n->k) if (HasIte(k)) return true;
  return false;
}
static bool Nat(const NP& n) { return n->op == Op::kConst && n->c >= 0 && n->c == std::floor(n->c); }
static bool ConstOnly(const NP& n) { return n->op == Op::kConst; }
// Is the lifted term a polynomial by its shape?
static bool Poly(const NP& n) {
  switch (n->op) {
    case Op::kConst: case Op::kVar: case Op::kReal: return true;
    case Op::kAdd: case Op::kSub: case Op::kMul: return Poly(n->k[0]) && Poly(n->k[1]);
    case Op::kNeg: return Poly(n->k[0]);
    case Op::kDiv: return Poly(n->k[0]) && (ConstOnly(n->k[1]) || n->k[1]->op == Op::kReal);
    case Op::kPow: return Poly(n->k[0]) && Nat(n->k[1]);
    default: return false;
  }
}
// Program made of sums, products and natural powers only (small exponents).
static bool PolyProgram(const NP& n) {
  switch (n->op) {
    case Op::kConst: case Op::kVar: return true;
    case Op::kAdd: case Op::kSub: case Op::kMul: return PolyProgram(n->k[0]) && PolyProgram(n->k[1]);
    case Op::kNeg: return PolyProgram(n->k[0]);
    case Op::kPow: return PolyProgram(n->k[0]) && Nat(n->k[1]);
    default: return false;
  }
}
static void KindsE(const Expression& e, const std::string& id, vf::Ctx& c) {
  using namespace dreal;  // NOLINT
  namespace s = dreal::drake::symbolic;
  using K = s::ExpressionKind;
  const K k = e.get_kind();
  const std::vector<std::pair<bool, K>> t{
      {is_constant(e) && !is_real_constant(e), K::Constant}, {is_real_constant(e), K::RealConstant}, {is_variable(e), K::Var}, {is_addition(e), K::Add}, {is_multiplication(e), K::Mul}, {is_division(e), K::Div}, {is_log(e), K::Log}, {is_abs(e), K::Abs}, {is_exp(e), K::Exp},
      {is_sqrt(e), K::Sqrt}, {is_pow(e), K::Pow}, {is_sin(e), K::Sin}, {is_cos(e), K::Cos}, {is_tan(e), K::Tan}, {is_asin(e), K::Asin}, {is_acos(e), K::Acos}, {is_atan(e), K::Atan}, {is_atan2(e), K::Atan2},
      {is_sinh(e), K::Sinh}, {is_cosh(e), K::Cosh}, {is_tanh(e), K::Tanh}, {is_min(e), K::Min}, {is_max(e), K::Max}, {is_if_then_else(e), K::IfThenElse}, {is_nan(e), K::NaN}, {s::is_uninterpreted_function(e), K::UninterpretedFunction}};
  for (auto& p : t)
    if (p.first != (k == p.second)) c.Fail("kind " + id, vf::Cat("kind tests disagree on ", e, " from ", id));
  if (is_constant(e) && !is_real_constant(e)) {
    const double v = get_constant_value(e);
    if (s::is_zero(e) != (v == 0) || s::is_one(e) != (v == 1) || s::is_neg_one(e) != (v == -1) || s::is_two(e) != (v == 2) || !s::is_constant(e, v) || s::is_constant(e, v == 7 ? 8 : 7)) c.Fail("const " + id, vf::Cat("constant tests disagree on ", e));
  } else if (!is_real_constant(e)) {
    if (s::is_zero(e) || s::is_one(e) || s::is_neg_one(e) || s::is_two(e)) c.Fail("const " + id, vf::Cat("constant tests hold for ", e));
  }
}
static void KindsF(const Formula& f, const std::string& id, vf::Ctx& c) {
  using namespace dreal;  // NOLINT
  namespace s = dreal::drake::symbolic;
  using K = s::FormulaKind;
  const K k = f.get_kind();
  const std::vector<std::pair<bool, K>> t{{is_true(f), K::True}, {is_false(f), K::False}, {s::is_variable(f), K::Var}, {is_equal_to(f), K::Eq}, {is_not_equal_to(f), K::Neq}, {is_greater_than(f), K::Gt}, {is_greater_than_or_equal_to(f), K::Geq},
                                          {is_less_than(f), K::Lt}, {is_less_than_or_equal_to(f), K::Leq}, {is_conjunction(f), K::And}, {is_disjunction(f), K::Or}, {is_negation(f), K::Not}, {is_forall(f), K::Forall}};
  for (auto& p : t)
    if (p.first != (k == p.second)) c.Fail("kind " + id, vf::Cat("kind tests disagree on ", f, " from ", id));
  const bool rel = k == K::Eq || k == K::Neq || k == K::Gt || k == K::Geq || k == K::Lt || k == K::Leq;
  if (is_relational(f) != rel) c.Fail("rel " + id, vf::Cat("is_relational is wrong on ", f));
  if (s::is_nary(f) != (k == K::And || k == K::Or)) c.Fail("nary " + id, vf::Cat("is_nary is wrong on ", f));
}
static Environment Only(const std::set<int>& vs, size_t i) {
  Environment e;
  for (int v : vs) e.insert(VV().v[v], w.grid[i].v[v]);
  return e;
}
static void CheckE(const Expression& e, const NP& n, const std::string& how, vf::Ctx& c) {
  ++c.transitions;
  const std::string id = vf::Cat(how, ref::Str(n));
  c.Note(id);
  NP l;
  try { l = LiftE(e); } catch (const std::runtime_error& x) { c.Fail("unknown " + id, vf::Cat(id, ": ", x.what())); return; }
  const auto got = IdxSet(e.GetVariables()), want = FreeOf(l), src = FreeOf(n);
  if (got != want) { c.Fail("vars " + id, vf::Cat(id, " = ", e, " reports ", SetStr(got), " but contains ", SetStr(want))); return; }
  for (int v : got)
    if (!src.count(v)) c.Fail("extra " + id, vf::Cat(id, " = ", e, " contains ", VV().v[v]));
  KindsE(e, id, c);
  if (e.include_ite() != HasIte(l)) c.Fail("ite " + id, vf::Cat("include_ite is wrong on ", e, " from ", id));
  if (e.is_polynomial() && !Poly(l)) c.Fail("poly " + id, vf::Cat(e, " from ", id, " is reported as a polynomial"));
  if (!e.is_polynomial() && how.empty() && PolyProgram(n)) c.Fail("notpoly " + id, vf::Cat(e, " from ", id, " is not reported as a polynomial"));
  // reassembling the reported parts denotes the same value
  if (l->op != Op::kNan) {
    bool any = true;
    for (size_t i = 0; i < w.grid.size() && any; i += 2) {
      ref::Env t = w.grid[i];
      const ref::FV r = ref::EvalE(l, t);
      if (r.s != ref::St::Def) continue;
      const EvalRes v = Ev(e, w.env[i]);
      ++c.evals;
      if (!v.thrown && !(v.v >= r.lo - 1e-9 * (1 + r.mag) && v.v <= r.hi + 1e-9 * (1 + r.mag))) { any = false; c.Fail("reassembly " + id, vf::Cat(e, " from ", id, " is ", v.v, " at ", EnvStr(w.grid[i], w.n), " but its reported parts give ", r.lo)); }
    }
  }
  // exactly the reported variables suffice to evaluate
  bool undef = l->op == Op::kUF;
  std::function<void(const NP&)> uf = [&](const NP& q) { undef = undef || q->op == Op::kUF || q->op == Op::kNan || q->op == Op::kForall; for (auto& k : q->k) uf(k); };
  uf(l);
  std::string tab;
  if (!undef)
    for (size_t i = 0; i < w.grid.size(); i += 3) {
      const EvalRes a = Ev(e, Only(got, i)), b = Ev(e, w.env[i]);
      ++c.evals;
      if (a.thrown != b.thrown || (!a.thrown && !(a.v == b.v || (std::isnan(a.v) && std::isnan(b.v))))) {
        c.Fail("suffice " + id, vf::Cat(e, " from ", id, " with exactly its reported variables: ", a.thrown ? a.what : vf::Cat(a.v), ", with all: ", b.thrown ? b.what : vf::Cat(b.v)));
        break;
      }
      tab += a.thrown ? "x" : vf::Cat(a.v);
    }
  if (dreal::IsDifferentiable(e))
    for (int v : got) {
      if (VV().v[v].get_type() == Variable::Type::BOOLEAN) continue;
      try { (void)e.Differentiate(VV().v[v]); } catch (const std::exception& x) { if (std::string(x.what()).find("Division by zero") == std::string::npos) c.Fail("diff " + id, vf::Cat(e, " is reported differentiable but: ", x.what())); }
    }
  c.Outcome(tab);
  c.StateHash(vf::HashStr(ref::Str(l)));
  if (!got.empty()) ++c.nontrivial;
  ++c.traces;
  c.Sample(vf::Cat(id, " = ", e, " over ", SetStr(got)));
}
static void CheckF(const FS& s, const std::string& how, vf::Ctx& c) {
  ++c.transitions;
  const Formula& f = s.f;
  const std::string id = vf::Cat(how, ref::Str(s.n));
  c.Note(id);
  NP l;
  try { l = LiftF(f); } catch (const std::runtime_error& x) { c.Fail("unknown " + id, vf::Cat(id, ": ", x.what())); return; }
  const auto got = IdxSet(f.GetFreeVariables()), want = FreeOf(l), src = FreeOf(s.n);
  if (got != want) { c.Fail("vars " + id, vf::Cat(id, " = ", f, " reports ", SetStr(got), " but contains ", SetStr(want))); return; }
  for (int v : got)
    if (!src.count(v)) c.Fail("extra " + id, vf::Cat(id, " = ", f, " contains ", VV().v[v]));
  KindsF(f, id, c);
  if (f.include_ite() != HasIte(l)) c.Fail("ite " + id, vf::Cat("include_ite is wrong on ", f, " from ", id));
  const Formula r = BuildF(l);
  if (!r.EqualTo(f)) c.Fail("reassembly " + id, vf::Cat(f, " from ", id, " reassembles to ", r));
  // atoms, clauses, clausal form
  const bool neg_q = l->op == Op::kNot && l->k[0]->op == Op::kForall;
  if (!neg_q && dreal::is_atomic(f) != IsLiteral(l)) c.Fail("atomic " + id, vf::Cat("is_atomic is wrong on ", f));
  if (dreal::is_clause(f) != IsClause(l) && !(l->op == Op::kNot && !IsLiteral(l))) c.Fail("clause " + id, vf::Cat("is_clause is wrong on ", f));
  if (l->op != Op::kNot || IsLiteral(l)) {
    if (dreal::is_cnf(f) != IsCnf(l)) c.Fail("cnf " + id, vf::Cat("is_cnf is wrong on ", f));
  }
  if (IsCnf(l)) {
    std::set<std::string> a, b;
    for (auto& k : dreal::get_clauses(f)) a.insert(ref::Str(LiftF(k)));
    if (l->op == Op::kAnd) for (auto& k : l->k) b.insert(ref::Str(k));
    else b.insert(ref::Str(l));
    if (a != b) c.Fail("clauses " + id, vf::Cat("get_clauses is wrong on ", f));
  }
  std::string tab;
  if (!Quantified(l))
    for (size_t i = 0; i < w.grid.size(); i += 3) {
      auto ev = [&](const Environment& e) -> std::string { try { return f.Evaluate(e) ? "1" : "0"; } catch (const std::exception& x) { return x.what(); } };
      const std::string a = ev(Only(got, i)), b = ev(w.env[i]);
      ++c.evals;
      if (a != b) { c.Fail("suffice " + id, vf::Cat(f, " from ", id, " with exactly its reported variables: ", a, ", with all: ", b)); break; }
      tab += a;
    }
  c.Outcome(tab);
  c.StateHash(vf::HashStr(ref::Str(l)));
  if (!got.empty()) ++c.nontrivial;
  ++c.traces;
  if (c.samples.size() < 2) c.Sample(vf::Cat(id, " = ", f, " over ", SetStr(got)));
}
// Everything one operation away from a term.
static void Derived(const Expression& e, const NP& n, vf::Ctx& c) {
  auto attempt = [&](const char* how, const std::function<Expression()>& go) {
    Expression r;
    try { r = go(); } catch (const std::exception&) { return; }
    CheckE(r, n, how, c);
  };
  attempt("Expand ", [&] { return e.Expand(); });
  for (int v : {0, 1}) attempt(v ? "d/dy " : "d/dx ", [&] { return e.Differentiate(VV().v[v]); });
  for (double k : {0.0, 1.0, -2.0}) attempt("x:=const ", [&] { return e.Substitute(VV().v[0], Expression(k)); });
  attempt("x:=x+1 ", [&] { return e.Substitute(VV().v[0], VV().v[0] + 1.0); });
  attempt("partial ", [&] { Environment env; env.insert(VV().v[1], 2.0); return e.EvaluatePartial(env); });
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x", "z"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b"}) VV().New(v, Variable::Type::BOOLEAN);
  VV().New("w", Variable::Type::CONTINUOUS);
  w.Set({{0, {-1, 0, 2}}, {1, {-1, 0.5, 2}}, {2, {0, 3}}, {3, {0, 1}}, {4, {0, 1}}, {5, {1.5}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true);
  auto C = [](double v) { return ref::C(v); };
  auto Ite = [](NP a, NP b, NP c) { return ref::Mk(Op::kIte, {a, b, c}); };
  NP uf;
  { auto u = std::make_shared<ref::Node>(); u->op = Op::kUF; u->bound = {0, 2}; uf = u; }
  std::vector<NP> leaf{x, y, z, C(0), C(1), C(2), C(-1), C(0.5), ref::RC(0.1, std::nextafter(0.1, 1), true), Ite(b1, x, y), Ite(B(Op::kLt, x, y), z, C(1)), uf};
  static ESet L1, L2;
  for (auto& a : leaf) L1.Insert(BuildE(a), a);
  auto grow = [](const std::vector<ES>& a, const std::vector<ES>& b, ESet* out) {
    for (auto& p : a) out->Insert(p.e, p.n);
    for (auto& p : a) for (Op o : UnaryOps()) { try { out->Insert(Apply(o, {p.e}), ref::Mk(o, {p.n})); } catch (const std::exception&) {} }
    for (auto& p : a) for (auto& q : b) for (Op o : BinaryOps()) { try { out->Insert(Apply(o, {p.e, q.e}), B(o, p.n, q.n)); } catch (const std::exception&) {} }
  };
  grow(L1.v, L1.v, &L2);
  d.rule = "case = a term reached by building or derived by one transformation; reported free variables against the variables found by walking the accessors, kind tests, reassembly, polynomial / conditional / clause / atom tests against definitions on the walked term, and evaluation with exactly the reported variables; non-trivial = the term has a variable";
  // all construction routes of the third level
  auto routes = [](const ES& a, const ES& b, vf::Ctx& c) {
    for (Op o : BinaryOps()) {
      const NP n = B(o, a.n, b.n);
      Expression r;
      try { r = Apply(o, {a.e, b.e}); } catch (const std::exception&) { continue; }
      CheckE(r, n, "", c);
      if (c.thorough) Derived(r, n, c);
      if (o == Op::kAdd) { try { Expression u = BuildE(a.n); u += b.e; CheckE(u, n, "+= ", c); u += u; CheckE(u, B(Op::kAdd, n, n), "+= ", c); } catch (const std::exception&) {} }
      if (o == Op::kMul) { try { Expression u = BuildE(a.n); u *= b.e; CheckE(u, n, "*= ", c); } catch (const std::exception&) {} }
      if (o == Op::kSub) { try { Expression u = BuildE(a.n); u -= b.e; CheckE(u, n, "-= ", c); } catch (const std::exception&) {} }
      if (o == Op::kDiv) { try { Expression u = BuildE(a.n); u /= b.e; CheckE(u, n, "/= ", c); } catch (const std::exception&) {} }
    }
    // conditionals, and comparisons of the pair
    const Expression ite = dreal::if_then_else(Formula(VV().v[3]), a.e, b.e);
    CheckE(ite, ref::Mk(Op::kIte, {ref::V(3, true), a.n, b.n}), "", c);
  };
  d.Add("depth2", L2.v.size(), [&](int64_t u, vf::Ctx& c) {
    const ES& a = L2.v[u];
    CheckE(a.e, a.n, "", c);
    Derived(a.e, a.n, c);
    for (Op o : UnaryOps()) {
      Expression r;
      try { r = Apply(o, {a.e}); } catch (const std::exception&) { continue; }
      CheckE(r, ref::Mk(o, {a.n}), "", c);
      Derived(r, ref::Mk(o, {a.n}), c);
    }
    for (auto& b : L1.v) { routes(a, b, c); routes(b, a, c); }
  });
  // four leaves, all different, under three operators in both shapes
  static const std::vector<Op> top{Op::kAdd, Op::kSub, Op::kMul, Op::kDiv, Op::kPow, Op::kMax};
  d.Add("towers", top.size() * top.size() * top.size(), [=](int64_t u, vf::Ctx& c) {
    const Op o1 = top[u % 6], o2 = top[u / 6 % 6], o3 = top[u / 36];
    const NP l[] = {x, y, z, ref::C(2), ref::C(-1), ref::V(5)};
    const int n = c.thorough ? 6 : 5;
    auto ap = [](Op o, const ES& a, const ES& b) { return ES{Apply(o, {a.e, b.e}), B(o, a.n, b.n)}; };
    auto leaf1 = [&](int k) { return ES{BuildE(l[k == n - 1 ? 5 : k]), l[k == n - 1 ? 5 : k]}; };
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        for (int k = 0; k < n; ++k)
          for (int m = 0; m < n; ++m) {
            if (!c.thorough && (i == j || j == k || k == m || i == m)) continue;
            try {
              const ES ij = ap(o1, leaf1(i), leaf1(j));
              try { const ES t = ap(o3, ap(o2, ij, leaf1(k)), leaf1(m)); CheckE(t.e, t.n, "", c); } catch (const std::exception&) {}
              try { const ES t = ap(o3, leaf1(m), ap(o2, ij, leaf1(k))); CheckE(t.e, t.n, "", c); } catch (const std::exception&) {}
              try { const ES t = ap(o3, ij, ap(o2, leaf1(k), leaf1(m))); CheckE(t.e, t.n, "", c); } catch (const std::exception&) {}
            } catch (const std::exception&) {}
          }
  });
  // polynomials: deeper
  static ESet P1, P2;
  for (auto& a : {x, y, C(2), C(-1), C(3)}) P1.Insert(BuildE(a), a);
  for (auto& p : P1.v) for (auto& q : P1.v) for (Op o : {Op::kAdd, Op::kMul, Op::kSub, Op::kDiv, Op::kPow}) { try { P2.Insert(Apply(o, {p.e, q.e}), B(o, p.n, q.n)); } catch (const std::exception&) {} }
  d.Add("polynomials", P2.v.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& b : P2.v)
      for (Op o : {Op::kAdd, Op::kMul, Op::kSub, Op::kDiv}) {
        Expression r;
        try { r = Apply(o, {P2.v[u].e, b.e}); } catch (const std::exception&) { continue; }
        const NP n = B(o, P2.v[u].n, b.n);
        CheckE(r, n, "", c);
        Derived(r, n, c);
        for (double k : {0.0, 1.0, 2.0, 3.0, -1.0, 0.5}) {
          try { const Expression q = dreal::pow(r, Expression(k)); CheckE(q, B(Op::kPow, n, ref::C(k)), "", c); Derived(q, B(Op::kPow, n, ref::C(k)), c); } catch (const std::exception&) {}
        }
        for (auto& a : P1.v) {
          try { CheckE(r * a.e, B(Op::kMul, n, a.n), "", c); } catch (const std::exception&) {}
          try { CheckE(r + a.e, B(Op::kAdd, n, a.n), "", c); } catch (const std::exception&) {}
        }
      }
  });
  // formulas
  std::vector<FS> A{Fs(ref::Mk(Op::kTrue)), Fs(b1), Fs(b2)};
  for (Op o : RelOps()) A.push_back(Fs(B(o, x, y)));
  A.push_back(Fs(B(Op::kLt, z, C(0))));
  A.push_back(Fs(B(Op::kGe, Ite(b2, x, z), y)));
  A.push_back(Fs(ref::All({2}, B(Op::kLe, x, z))));
  A.push_back(Fs(ref::All({0, 2}, B(Op::kOr, B(Op::kLe, x, z), B(Op::kLt, y, Ite(b1, z, x))))));
  A.push_back(Fs(ref::All({0}, b1)));
  A.push_back(Fs(ref::All({3}, B(Op::kAnd, b1, B(Op::kLe, x, z)))));
  A.push_back(Fs(ref::All({1}, B(Op::kOr, b2, ref::All({0}, B(Op::kLt, x, y))))));
  static FSet F2;
  F2 = Grow(A, A, {Op::kAnd, Op::kOr, Op::kIff});
  static std::vector<FS> S{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(ref::All({1}, B(Op::kLt, x, y))), Fs(N(b2))};
  static FSet S2;
  S2 = Grow(S, S, {Op::kAnd, Op::kOr});
  auto checkf = [](const FS& s, vf::Ctx& c) {
    CheckF(s, "", c);
    // binders and substitution on top
    for (auto& b : std::vector<std::vector<int>>{{0}, {1, 2}, {3}}) {
      Variables vs;
      for (int i : b) vs.insert(VV().v[i]);
      CheckF(FS{dreal::forall(vs, s.f), ref::All(b, s.n)}, "", c);
    }
    if (!Quantified(s.n)) CheckF(FS{s.f.Substitute(VV().v[0], Expression(1.0)), s.n}, "x:=1 ", c);
  };
  Pairs(d, "formulas", F2.v, A, {Op::kAnd, Op::kOr}, checkf);
  Pairs(d, "clauses", S2.v, S2.v, {Op::kAnd, Op::kOr}, checkf);
  // comparisons of all depth-2 terms
  d.Add("comparisons", L2.v.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& b : L1.v)
      for (Op o : RelOps()) {
        try { CheckF(FS{ApplyRel(o, L2.v[u].e, b.e), B(o, L2.v[u].n, b.n)}, "", c); } catch (const std::exception& x) { if (std::string(x.what()).find("NaN") == std::string::npos) throw; }
      }
  });
  // variable-set intersection query
  d.Add("intersections", 32, [&](int64_t u, vf::Ctx& c) {
    for (int m = 0; m < 32; ++m) {
      Variables p, q;
      for (int i = 0; i < 5; ++i) { if (u >> i & 1) p.insert(VV().v[i]); if (m >> i & 1) q.insert(VV().v[i]); }
      ++c.transitions; ++c.evals; ++c.traces; ++c.nontrivial;
      if (dreal::HaveIntersection(p, q) != ((u & m) != 0)) c.Fail(vf::Cat("inter ", u, " ", m), vf::Cat("HaveIntersection(", p, ", ", q, ") is wrong"));
      if (dreal::drake::symbolic::intersect(p, q).empty() == ((u & m) != 0)) c.Fail(vf::Cat("inter2 ", u, " ", m), vf::Cat("intersect(", p, ", ", q, ") is wrong"));
    }
  });
  d.bounds = {vf::Cat(leaf.size(), " leaves (variables, constants, conditionals, uninterpreted function): depth 2 complete (", L2.v.size(), " distinct), depth 3 with a leaf on either side and every unary function; compound assignment routes; each depth-2 (thorough: depth-3) term also expanded, differentiated, substituted, partially evaluated"),
              vf::Cat("polynomial programs: ", P2.v.size(), "^2 x 4, powers and one more factor or summand"), vf::Cat("formulas: ", A.size(), " atoms, depth 3 with any atom (", F2.v.size(), "), ", S2.v.size(), "^2 clause candidates, each under 3 binders; comparisons of every depth-2 term with every leaf")};
  return d.Run();
}
