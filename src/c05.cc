// C05: expansion preserves value and reaches a normal form.
#include <array>
#include "uni.h"
using namespace uni;  // NOLINT
static std::vector<ref::Env> g_grid;
static std::vector<Environment> g_env;
static const int kN = 3;

// exact polynomials: monomial (exponents of x, y, z) -> coefficient
using Poly = std::map<std::array<int, 3>, double>;
static void Norm(Poly* p) {
  for (auto it = p->begin(); it != p->end();) it = it->second == 0 ? p->erase(it) : std::next(it);
}
static Poly PMul(const Poly& a, const Poly& b) {
  Poly r;
  for (auto& p : a)
    for (auto& q : b) {
      std::array<int, 3> m{p.first[0] + q.first[0], p.first[1] + q.first[1], p.first[2] + q.first[2]};
      r[m] += p.second * q.second;
    }
  Norm(&r);
  return r;
}
static Poly PAdd(const Poly& a, const Poly& b, double s) {
  Poly r = a;
  for (auto& q : b) r[q.first] += s * q.second;
  Norm(&r);
  return r;
}
static std::string PStr(const Poly& p) {
  std::string s;
  for (auto& t : p) s += vf::Cat(t.second, "*x", t.first[0], "y", t.first[1], "z", t.first[2], " ");
  return s.empty() ? "0" : s;
}
// polynomial of a program, or false if it is not a polynomial program
static bool PolyOf(const NP& n, Poly* out) {
  Poly a, b;
  switch (n->op) {
    case Op::kConst: *out = {{{0, 0, 0}, n->c}}; Norm(out); return true;
    case Op::kVar: { std::array<int, 3> m{0, 0, 0}; m[n->var] = 1; *out = {{m, 1.0}}; return true; }
    case Op::kNeg: if (!PolyOf(n->k[0], &a)) return false; *out = PAdd({}, a, -1); return true;
    case Op::kAdd: case Op::kSub: case Op::kMul:
      if (!PolyOf(n->k[0], &a) || !PolyOf(n->k[1], &b)) return false;
      *out = n->op == Op::kMul ? PMul(a, b) : PAdd(a, b, n->op == Op::kAdd ? 1 : -1);
      return true;
    case Op::kDiv:
      if (!PolyOf(n->k[0], &a) || n->k[1]->op != Op::kConst || n->k[1]->c == 0) return false;
      *out = PMul(a, {{{0, 0, 0}, 1 / n->k[1]->c}});
      return true;
    case Op::kPow: {
      if (!PolyOf(n->k[0], &a) || n->k[1]->op != Op::kConst) return false;
      const double e = n->k[1]->c;
      if (e < 0 || e != std::floor(e) || e > 64) return false;
      *out = {{{0, 0, 0}, 1.0}};
      for (int i = 0; i < e; ++i) *out = PMul(*out, a);
      return true;
    }
    default: return false;
  }
}
// reads a real term as a sum of monomials; false if it is of another shape
static bool Mono(const Expression& e, Poly* p) {
  using namespace dreal;  // NOLINT
  std::array<int, 3> m{0, 0, 0};
  double c = 1;
  auto factor = [&](const Expression& b, const Expression& x) {
    if (!is_variable(b) || !is_constant(x)) return false;
    const double v = get_constant_value(x);
    if (v != std::floor(v) || v < 1) return false;
    m[VV().Index(get_variable(b))] += static_cast<int>(v);
    return true;
  };
  if (is_constant(e)) c = get_constant_value(e);
  else if (is_variable(e)) { if (!factor(e, Expression(1.0))) return false; }
  else if (is_pow(e)) { if (!factor(get_first_argument(e), get_second_argument(e))) return false; }
  else if (is_multiplication(e)) {
    c = get_constant_in_multiplication(e);
    for (const auto& t : get_base_to_exponent_map_in_multiplication(e)) if (!factor(t.first, t.second)) return false;
  } else return false;
  (*p)[m] += c;
  return true;
}
static bool SumOfMonomials(const Expression& e, Poly* p) {
  using namespace dreal;  // NOLINT
  if (!is_addition(e)) return Mono(e, p);
  (*p)[{0, 0, 0}] += get_constant_in_addition(e);
  for (const auto& t : get_expr_to_coeff_map_in_addition(e)) {
    Poly q;
    if (!Mono(t.first, &q)) return false;
    for (auto& x : q) (*p)[x.first] += t.second * x.second;
  }
  return true;
}
static std::string LiftZ(const Expression& e) {  // a sum's constant -0 reads as 0
  std::string l = ref::Str(LiftE(e));
  for (size_t q; (q = l.find("(+ -0 ")) != std::string::npos;) l.replace(q, 6, "(+ 0 ");
  return l == "-0" ? "0" : l;
}
static bool HasIte(const NP& n) {
  if (n->op == Op::kIte) return true;
  for (auto& k : n->k) if (HasIte(k)) return true;
  return false;
}
static void Check(const ES& s, vf::Ctx& c) {
  const std::string id = ref::Str(s.n);
  c.Note("Expand " + id);
  ++c.transitions;
  const NP before = LiftE(s.e);
  Expression x;
  try { x = s.e.Expand(); } catch (const std::exception& ex) {
    if (!HasIte(before)) c.Fail("throws " + id, vf::Cat("expanding ", s.e, " throws: ", ex.what()));
    c.Outcome("refused");
    return;
  }
  if (ref::Str(LiftE(s.e)) != ref::Str(before)) c.Fail("modified " + id, "Expand changed its own operand " + id);
  bool any = false;
  for (size_t i = 0; i < g_grid.size(); ++i) {
    ref::Env t = g_grid[i];
    const ref::FV r = ref::EvalE(before, t);
    if (r.s != ref::St::Def) continue;
    ++c.evals;
    any = true;
    const EvalRes v = Ev(x, g_env[i]);
    if (v.thrown || !ref::Accept(r, v.v)) {
      c.Fail("value " + id, vf::Cat("expanding ", s.e, " gives ", x, " with value ", v.thrown ? v.what : vf::Cat(v.v), " at ", EnvStr(g_grid[i], kN), " instead of ", r.lo));
      return;
    }
  }
  c.State(ref::Str(LiftE(x)));
  try {
    const Expression y = x.Expand();
    ++c.evals;
    if (LiftZ(y) != LiftZ(x) || !y.EqualTo(x)) c.Fail("idempotent " + id, vf::Cat("expanding ", s.e, " gives ", x, " and expanding again ", y));
  } catch (const std::exception& ex) { c.Fail("again " + id, vf::Cat("expanding ", x, " throws: ", ex.what())); }
  if (any) ++c.nontrivial;
  ++c.traces;
  c.Sample(id + "  ->  " + x.to_string());
}
static void CheckPoly(const ES& s, vf::Ctx& c) {
  Poly want;
  if (!PolyOf(s.n, &want)) return;
  const std::string id = ref::Str(s.n);
  Expression x;
  try { x = s.e.Expand(); } catch (const std::exception&) { return; }
  Poly got;
  ++c.evals;
  if (!SumOfMonomials(x, &got)) { c.Fail("shape " + id, vf::Cat("expanding ", s.e, " gives ", x, ", which is not a sum of monomials")); return; }
  Norm(&got);
  if (got != want) c.Fail("poly " + id, vf::Cat("expanding ", s.e, " gives ", x, ", i.e. ", PStr(got), " instead of ", PStr(want)));
  ++c.extra["polynomials"];
}
static ESet Grow(const std::vector<ES>& a, const std::vector<ES>& b, const std::vector<Op>& un, const std::vector<Op>& bin) {
  ESet s;
  for (auto& x : a) s.Insert(x.e, x.n);
  for (auto& x : b) s.Insert(x.e, x.n);
  auto add = [&](const NP& n, Op op, const std::vector<Expression>& k) {
    try { s.Insert(Apply(op, k), n); } catch (const std::runtime_error&) {} catch (const std::domain_error&) {}
  };
  for (auto& x : a) for (Op o : un) add(ref::Mk(o, {x.n}), o, {x.e});
  for (auto& x : a) for (auto& y : b) for (Op o : bin) { add(ref::Mk(o, {x.n, y.n}), o, {x.e, y.e}); if (o != Op::kAdd && o != Op::kMul) add(ref::Mk(o, {y.n, x.n}), o, {y.e, x.e}); }
  return s;
}
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (auto n : {"x", "x", "z"}) VV().New(n, Variable::Type::CONTINUOUS);
  g_grid = Grid({{0, {-2, -0.5, 0, 1, 3}}, {1, {-3, 0, 0.5, 2}}, {2, {-1, 1.5}}});
  for (auto& e : g_grid) g_env.push_back(ToEnv(e, kN));
  auto atom = [](const NP& n) { return ES{BuildE(n), n}; };
  // general terms
  std::vector<ES> A0{atom(ref::V(0)), atom(ref::V(1)), atom(ref::C(2)), atom(ref::C(-1)), atom(ref::C(0.5)), atom(ref::C(3)), atom(ref::RC(0.1, std::nextafter(0.1, 1), true))};
  ESet S2 = Grow(A0, A0, UnaryOps(), BinaryOps());
  for (Op o : {Op::kLt, Op::kEq}) { const NP n = ref::Mk(Op::kIte, {ref::Mk(o, {ref::V(0), ref::V(1)}), ref::Mk(Op::kMul, {ref::C(2), ref::V(0)}), ref::V(1)}); S2.Insert(BuildE(n), n); }
  const int64_t n2 = S2.v.size();
  // polynomial programs
  const std::vector<Op> pb{Op::kAdd, Op::kSub, Op::kMul};
  std::vector<ES> P1{atom(ref::V(0)), atom(ref::V(1)), atom(ref::C(2)), atom(ref::C(-1)), atom(ref::C(0.5))};
  ESet P2 = Grow(P1, P1, {Op::kNeg}, pb);
  std::vector<double> consts{2, -4};
  auto pd = [&](ESet* s, const std::vector<ES>& from) {
    const std::vector<ES> copy = from;
    for (auto& x : copy) {
      for (double e : {2.0, 3.0}) { const NP n = ref::Mk(Op::kPow, {x.n, ref::C(e)}); s->Insert(pow(x.e, Expression(e)), n); }
      for (double q : consts) { const NP n = ref::Mk(Op::kDiv, {x.n, ref::C(q)}); s->Insert(x.e / Expression(q), n); }
    }
  };
  pd(&P2, P2.v);
  P2.Insert(BuildE(ref::V(2)), ref::V(2));
  ESet P3 = Grow(P2.v, P2.v, {Op::kNeg}, pb);
  { const std::vector<ES> p3 = P3.v; if (p3.size() < 20000) pd(&P3, p3); }
  const int64_t np3 = P3.v.size();
  std::vector<ES> P4op{atom(ref::V(0)), atom(ref::V(2)), atom(ref::C(-1))};
  { auto q = [&](const NP& n) { P4op.push_back(atom(n)); };
    q(ref::Mk(Op::kAdd, {ref::V(0), ref::V(1)}));
    q(ref::Mk(Op::kSub, {ref::V(1), ref::C(0.5)}));
    q(ref::Mk(Op::kPow, {ref::Mk(Op::kAdd, {ref::V(0), ref::C(2)}), ref::C(2)})); }
  d.rule = "case = Expand applied to one distinct built term: value at every grid point against the reference reading of the term, idempotence, operand unchanged; polynomial programs additionally against exact polynomial arithmetic; non-trivial = defined somewhere on the grid";
  d.bounds = {vf::Cat(n2, " distinct terms of depth 2 over all operators, and all depth-3 terms from them with an atom"), vf::Cat(np3, " distinct polynomial terms of depth 3 (+,-,*,neg, pow 2/3, division by 2/-4 over x,y,z,2,-1,0.5); depth 4: each with ", P4op.size(), " operands under *,+,- and pow 2; every pair (polynomial of depth 2, polynomial of depth 3) decided through the difference of expansions"), vf::Cat(g_grid.size(), " grid points")};
  d.Add("general2", (n2 + 15) / 16, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * 16; i < std::min(n2, u * 16 + 16); ++i) Check(S2.v[i], c);
  });
  d.Add("general3", n2, [&](int64_t u, vf::Ctx& c) {
    const ES& a = S2.v[u];
    auto go = [&](const NP& n, Op o, const std::vector<Expression>& k) {
      try { const Expression e = Apply(o, k); Check({e, n}, c); } catch (const std::runtime_error&) {} catch (const std::domain_error&) {}
    };
    for (Op o : UnaryOps()) go(ref::Mk(o, {a.n}), o, {a.e});
    for (const ES& b : d.thorough ? S2.v : A0)
      for (Op o : BinaryOps()) {
        go(ref::Mk(o, {a.n, b.n}), o, {a.e, b.e});
        if (!d.thorough && o != Op::kAdd && o != Op::kMin && o != Op::kMax) go(ref::Mk(o, {b.n, a.n}), o, {b.e, a.e});
      }
  });
  // quotients: sums, products, powers and quotients of two-operand terms
  ESet Q2 = Grow(P1, P1, {}, {Op::kAdd, Op::kSub, Op::kMul, Op::kDiv, Op::kPow});
  const int64_t nq = Q2.v.size();
  d.bounds.push_back(vf::Cat("quotients: all pairs of ", nq, " distinct two-operand terms under +,-,*,/, each also squared, cubed and divided by 4 and by x"));
  d.Add("quotients", nq, [&](int64_t u, vf::Ctx& c) {
    auto tryc = [&](const std::function<Expression()>& go, const NP& n, Expression* out) {
      try { *out = go(); } catch (const std::runtime_error&) { return false; } catch (const std::domain_error&) { return false; }
      Check({*out, n}, c);
      return true;
    };
    for (const ES& b : Q2.v)
      for (Op o : {Op::kAdd, Op::kSub, Op::kMul, Op::kDiv}) {
        const NP n = ref::Mk(o, {Q2.v[u].n, b.n});
        Expression r, q;
        if (!tryc([&] { return Apply(o, {Q2.v[u].e, b.e}); }, n, &r)) continue;
        for (double k : {2.0, 3.0}) tryc([&] { return pow(r, Expression(k)); }, ref::Mk(Op::kPow, {n, ref::C(k)}), &q);
        tryc([&] { return r / Expression(4.0); }, ref::Mk(Op::kDiv, {n, ref::C(4)}), &q);
        tryc([&] { return r / Expression(VV().v[0]); }, ref::Mk(Op::kDiv, {n, ref::V(0)}), &q);
      }
  });
  const int64_t B = 64;
  d.Add("poly3", (np3 + B - 1) / B, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B; i < std::min(np3, u * B + B); ++i) { Check(P3.v[i], c); CheckPoly(P3.v[i], c); }
  });
  d.Add("poly4", (np3 + B - 1) / B, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B; i < std::min(np3, u * B + B); ++i) {
      const ES& a = P3.v[i];
      for (const ES& b : P4op)
        for (Op o : pb) {
          if (!d.thorough && o != Op::kMul && i % 2) continue;
          const ES s{Apply(o, {a.e, b.e}), ref::Mk(o, {a.n, b.n})};
          if (o == Op::kMul || d.thorough) Check(s, c);
          else { ++c.transitions; c.Note("Expand " + ref::Str(s.n)); }
          CheckPoly(s, c);
        }
    }
  }, 600);
  d.Add("equality", (np3 + B - 1) / B, [&](int64_t u, vf::Ctx& c) {
    std::vector<std::pair<Poly, Expression>> small;
    for (auto& s : P2.v) { Poly p; if (PolyOf(s.n, &p)) small.push_back({p, s.e.Expand()}); }
    std::map<std::string, std::vector<Expression>> same;
    for (int64_t i = u * B; i < std::min(np3, u * B + B); ++i) {
      const ES& a = P3.v[i];
      Poly p;
      if (!PolyOf(a.n, &p)) continue;
      c.Note("difference with " + ref::Str(a.n));
      const Expression x = a.e.Expand();
      for (auto& q : small) {
        ++c.transitions;
        ++c.evals;
        const Expression diff = x - q.second;
        const bool zero = is_zero(diff);
        if (zero != (p == q.first)) c.Fail("diff " + ref::Str(a.n), vf::Cat("the difference of the expansions of ", a.e, " and of a polynomial ", PStr(q.first), " is ", diff, zero ? " although they differ" : " although they are equal"));
        if (p == q.first) ++c.nontrivial;
      }
      ++c.traces;
    }
  });
  // high powers, and products of powers, of sums; coefficients stay exact
  struct PowCase { NP base; int n; };
  std::vector<PowCase> hp;
  {
    auto B = [](Op o, NP p, NP q) { return ref::Mk(o, {std::move(p), std::move(q)}); };
    const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), one = ref::C(1), two = ref::C(2);
    const std::vector<std::pair<NP, int>> bs{{B(Op::kAdd, x, y), d.thorough ? 50 : 40}, {B(Op::kSub, x, y), d.thorough ? 50 : 30}, {B(Op::kAdd, x, one), d.thorough ? 50 : 40},
      {B(Op::kSub, B(Op::kMul, x, y), one), d.thorough ? 40 : 24}, {B(Op::kMul, two, x), 60}, {B(Op::kMul, x, y), 60}, {B(Op::kMul, B(Op::kMul, two, x), B(Op::kMul, y, z)), 40}, {x, 60},
      {B(Op::kAdd, B(Op::kMul, two, x), y), d.thorough ? 30 : 24}, {B(Op::kAdd, B(Op::kAdd, x, y), z), d.thorough ? 20 : 13}, {B(Op::kAdd, B(Op::kAdd, x, y), B(Op::kAdd, z, one)), d.thorough ? 12 : 8},
      {B(Op::kMul, B(Op::kAdd, x, one), B(Op::kSub, x, y)), d.thorough ? 14 : 10}, {B(Op::kPow, B(Op::kAdd, x, y), two), d.thorough ? 20 : 12}, {B(Op::kAdd, B(Op::kPow, x, ref::C(3)), B(Op::kPow, y, two)), d.thorough ? 30 : 20}};
    for (auto& b : bs) for (int n = 2; n <= b.second; ++n) hp.push_back({b.first, n});
    d.bounds.push_back(vf::Cat("powers: ", bs.size(), " sums and products to every power up to 8 ... 60 (", hp.size(), " cases), alone, scaled inside a sum, and times another sum"));
  }
  d.Add("powers", hp.size(), [&](int64_t u, vf::Ctx& c) {
    const PowCase& q = hp[hp.size() - 1 - u];
    const NP n = ref::Mk(Op::kPow, {q.base, ref::C(q.n)});
    auto go = [&](const NP& m) {
      const ES s{BuildE(m), m};
      if (q.n <= 4) Check(s, c);
      CheckPoly(s, c);  // exact; values would suffer from cancellation
      const Expression e = s.e.Expand();
      c.State(e.to_string());
      c.Note("Expand twice " + ref::Str(m));
      ++c.transitions;
      ++c.evals;
      ++c.traces;
      if (!e.Expand().EqualTo(e)) c.Fail("idempotent " + ref::Str(m), vf::Cat("expanding ", s.e, " gives ", e, ", which expands further"));
    };
    go(n);
    go(ref::Mk(Op::kAdd, {ref::V(2), ref::Mk(Op::kMul, {ref::C(2), n})}));
    if (q.n <= 24) go(ref::Mk(Op::kMul, {n, ref::Mk(Op::kSub, {ref::V(0), ref::C(2)})}));
    if (q.n <= 12) go(ref::Mk(Op::kSub, {n, ref::Mk(Op::kMul, {q.base, ref::Mk(Op::kPow, {q.base, ref::C(q.n - 1)})})}));
  }, 600);
  // equal polynomials written differently expand to the same term
  d.Add("canonical", 1, [&](int64_t, vf::Ctx& c) {
    std::map<std::string, std::pair<std::string, std::string>> rep;
    for (auto& s : P3.v) {
      Poly p;
      if (!PolyOf(s.n, &p)) continue;
      ++c.transitions;
      ++c.evals;
      const Expression x = s.e.Expand();
      const std::string l = LiftZ(x);
      auto r = rep.emplace(PStr(p), std::make_pair(l, ref::Str(s.n)));
      if (!r.second) ++c.nontrivial;
      if (r.first->second.first != l) c.Fail("canonical " + ref::Str(s.n), vf::Cat("the same polynomial ", PStr(p), " expands to ", l, " (from ", ref::Str(s.n), ") and to ", r.first->second.first, " (from ", r.first->second.second, ")"));
    }
    c.extra["distinct polynomials"] = rep.size();
  });
  return d.Run();
}
