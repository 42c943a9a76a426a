// C01: building an expression preserves its value.
#include "uni.h"
using namespace uni;  // NOLINT

static std::vector<ref::Env> g_grid;
static std::vector<Environment> g_env;
static const int kN = 2;

static void Check(const NP& n, Op op, const std::vector<Expression>& args, vf::Ctx& c, ESet* out = nullptr) {
  ++c.transitions;
  Expression e;
  bool thrown = false;
  std::string what;
  try {
    e = n->op == Op::kIte ? BuildE(n) : Apply(op, args);
  } catch (const std::domain_error& x) {
    thrown = true;
    what = x.what();
  } catch (const std::runtime_error& x) {
    thrown = true;
    what = x.what();
  }
  if (thrown) {
    for (auto& env : g_grid) {
      ref::Env t = env;
      const ref::FV r = ref::EvalE(n, t);
      ++c.evals;
      if (r.s == ref::St::Def) {
        c.Fail("build-throws " + ref::Str(n), vf::Cat("building ", ref::Str(n), " throws (", what, ") though it has the value ", r.lo, " at ", EnvStr(env, kN)));
        return;
      }
    }
    c.Outcome("throw:" + std::string(ref::Name(op)));
    return;
  }
  bool any = false;
  for (size_t i = 0; i < g_grid.size(); ++i) {
    ref::Env t = g_grid[i];
    const ref::FV r = ref::EvalE(n, t);
    if (r.s == ref::St::Unk) continue;
    ++c.evals;
    const EvalRes v = Ev(e, g_env[i]);
    if (r.s == ref::St::Undef) {
      if (!v.thrown && std::isnan(v.v)) {
        c.Fail("nan " + ref::Str(n), vf::Cat("evaluating ", ref::Str(n), " (built: ", e, ") silently returns NaN at ", EnvStr(g_grid[i], kN)));
        return;
      }
      continue;
    }
    any = true;
    if (v.thrown) {
      c.Fail("throws " + ref::Str(n), vf::Cat("evaluating ", ref::Str(n), " (built: ", e, ") throws (", v.what, ") at ", EnvStr(g_grid[i], kN), " where its value is ", r.lo));
      return;
    }
    if (!ref::Accept(r, v.v)) {
      c.Fail("value " + ref::Str(n), vf::Cat("evaluating ", ref::Str(n), " (built: ", e, ") gives ", v.v, " at ", EnvStr(g_grid[i], kN), " but the value is ", r.lo));
      return;
    }
  }
  if (any) ++c.nontrivial;
  ++c.traces;
  c.StateHash(vf::HashStr(e.to_string()));
  c.Sample(ref::Str(n) + "  ->  " + e.to_string());
  if (out) out->Insert(e, n);
}

// grows a set by applying all ops; used only to obtain the operands (states)
static ESet Grow(const std::vector<ES>& a, const std::vector<ES>& b, const std::vector<Op>& un, const std::vector<Op>& bin) {
  ESet s;
  for (auto& x : a) s.Insert(x.e, x.n);
  for (auto& x : b) s.Insert(x.e, x.n);
  auto add = [&](const NP& n, Op op, const std::vector<Expression>& k) {
    try {
      s.Insert(Apply(op, k), n);
    } catch (const std::runtime_error&) {
    } catch (const std::domain_error&) {
    }
  };
  for (auto& x : a)
    for (Op o : un) add(ref::Mk(o, {x.n}), o, {x.e});
  for (auto& x : a)
    for (auto& y : b)
      for (Op o : bin) add(ref::Mk(o, {x.n, y.n}), o, {x.e, y.e});
  return s;
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  VV().New("x", Variable::Type::CONTINUOUS);
  VV().New("y", Variable::Type::CONTINUOUS);
  g_grid = Grid({{0, {-2, -1, -0.5, 0, 0.5, 1, 3}}, {1, {-3, -1, 0, 0.5, 2}}});
  for (auto& e : g_grid) g_env.push_back(ToEnv(e, kN));
  auto atom = [](const NP& n) { return ES{BuildE(n), n}; };
  const std::vector<double> cs{0, 1, -1, 2, 3, 0.5, -2.5};
  std::vector<ES> A0{atom(ref::V(0)), atom(ref::V(1))};
  for (double k : cs) A0.push_back(atom(ref::C(k)));
  A0.push_back(atom(ref::RC(0.1, std::nextafter(0.1, 1), true)));
  // conditionals as atoms of level 2
  std::vector<NP> ites;
  for (Op o : RelOps()) {
    ites.push_back(ref::Mk(Op::kIte, {ref::Mk(o, {ref::V(0), ref::V(1)}), ref::V(0), ref::V(1)}));
    ites.push_back(ref::Mk(Op::kIte, {ref::Mk(o, {ref::V(0), ref::C(0)}), ref::C(2), ref::Mk(Op::kNeg, {ref::V(1)})}));
    ites.push_back(ref::Mk(Op::kIte, {ref::Mk(o, {ref::C(1), ref::C(2)}), ref::V(0), ref::V(1)}));
  }
  ESet S2 = Grow(A0, A0, UnaryOps(), BinaryOps());
  for (auto& n : ites) S2.Insert(BuildE(n), n);
  // arithmetic fragment, deeper
  const std::vector<Op> ab{Op::kAdd, Op::kSub, Op::kMul, Op::kDiv, Op::kPow};
  const std::vector<Op> au{Op::kNeg, Op::kAbs, Op::kSqrt};
  std::vector<ES> R1{atom(ref::V(0)), atom(ref::V(1)), atom(ref::C(2)), atom(ref::C(-1)), atom(ref::C(0.5))};
  ESet R2 = Grow(R1, R1, au, ab);
  ESet R3 = Grow(R2.v, R2.v, au, ab);
  const int64_t nA = A0.size(), n2 = S2.v.size(), nr2 = R2.v.size(), nr3 = R3.v.size();

  d.rule = "case = one operator applied to already built distinct operands (every distinct built term is reached by BFS over programs); compared at every grid point with an independent evaluator of the program as written; non-trivial = defined at >= 1 grid point";
  d.bounds = {vf::Cat("full alphabet: 14 unary, 8 binary operators, conditionals; atoms ", nA, "; depth 3 (second operand depth 2 atoms)"),
              vf::Cat("arithmetic fragment (+,-,*,/,pow,neg,abs,sqrt over x,y,2,-1,0.5): depth 3 complete (", nr2, "^2 pairs), depth 4 with a depth-1 or depth-2 second operand"),
              vf::Cat("grid: ", g_grid.size(), " points")};

  d.Add("atoms-x-atoms", nA, [&](int64_t u, vf::Ctx& c) {
    const ES& a = A0[u];
    for (Op o : UnaryOps()) { const NP n = ref::Mk(o, {a.n}); c.Note(ref::Str(n)); Check(n, o, {a.e}, c); }
    for (const ES& b : A0)
      for (Op o : BinaryOps()) { const NP n = ref::Mk(o, {a.n, b.n}); c.Note(ref::Str(n)); Check(n, o, {a.e, b.e}, c); }
  });
  d.Add("conditionals", ites.size(), [&](int64_t u, vf::Ctx& c) { c.Note(ref::Str(ites[u])); Check(ites[u], Op::kIte, {}, c); });
  const int64_t B = 8;
  d.Add("depth3", (n2 + B - 1) / B, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B; i < std::min(n2, (u + 1) * B); ++i) {
      const ES& a = S2.v[i];
      for (Op o : UnaryOps()) { const NP n = ref::Mk(o, {a.n}); c.Note(ref::Str(n)); Check(n, o, {a.e}, c); }
      for (const ES& b : A0)
        for (Op o : BinaryOps()) {
          const NP n = ref::Mk(o, {a.n, b.n}), m = ref::Mk(o, {b.n, a.n});
          c.Note(ref::Str(n));
          Check(n, o, {a.e, b.e}, c);
          Check(m, o, {b.e, a.e}, c);
        }
    }
  });
  d.Add("arith3", nr2, [&](int64_t u, vf::Ctx& c) {
    const ES& a = R2.v[u];
    for (Op o : au) { const NP n = ref::Mk(o, {a.n}); c.Note(ref::Str(n)); Check(n, o, {a.e}, c); }
    for (const ES& b : R2.v)
      for (Op o : ab) { const NP n = ref::Mk(o, {a.n, b.n}); c.Note(ref::Str(n)); Check(n, o, {a.e, b.e}, c); }
  });
  // depth 4: R3 x R1 (quick), R3 x R2 (thorough)
  const int64_t B4 = 64;
  d.Add("arith4", (nr3 + B4 - 1) / B4, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B4; i < std::min(nr3, (u + 1) * B4); ++i) {
      const ES& a = R3.v[i];
      for (Op o : au) { const NP n = ref::Mk(o, {a.n}); c.Note(ref::Str(n)); Check(n, o, {a.e}, c); }
      for (const ES& b : d.thorough ? R2.v : R1)
        for (Op o : ab) {
          const NP n = ref::Mk(o, {a.n, b.n}), m = ref::Mk(o, {b.n, a.n});
          c.Note(ref::Str(n));
          Check(n, o, {a.e, b.e}, c);
          if (d.thorough || o != Op::kSub) Check(m, o, {b.e, a.e}, c);
        }
    }
  }, 600);
  if (d.thorough) {
    const int64_t BT = 4;
    d.Add("depth3-full", (n2 + BT - 1) / BT, [&](int64_t u, vf::Ctx& c) {
      for (int64_t i = u * BT; i < std::min(n2, (u + 1) * BT); ++i)
        for (const ES& b : S2.v)
          for (Op o : BinaryOps()) {
            const ES& a = S2.v[i];
            const NP n = ref::Mk(o, {a.n, b.n});
            c.Note(ref::Str(n));
            Check(n, o, {a.e, b.e}, c);
          }
    }, 600);
  }
  return d.Run();
}
