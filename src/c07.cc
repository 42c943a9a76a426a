// C07: building and evaluating formulas obeys classical logic.
#include "uni.h"
using namespace uni;  // NOLINT

static std::vector<ref::Env> g_grid;
static std::vector<Environment> g_env;
static const int kN = 5;  // x y b1 b2 b3

static int EvF(const Formula& f, const Environment& env, std::string* what) {
  try {
    return f.Evaluate(env) ? 1 : 0;
  } catch (const std::exception& e) {
    *what = e.what();
    return -1;
  }
}
static void Compare(const NP& n, const Formula& f, vf::Ctx& c, const char* how) {
  ++c.transitions;
  bool any = false;
  std::string tab;
  for (size_t i = 0; i < g_grid.size(); ++i) {
    ref::Env t = g_grid[i];
    const ref::Tri r = ref::EvalF(n, t);
    if (r == ref::Tri::U || r == ref::Tri::X) continue;
    ++c.evals;
    any = true;
    std::string what;
    const int v = EvF(f, g_env[i], &what);
    if (v < 0) {
      c.Fail(std::string("throws ") + how + ref::Str(n), vf::Cat(how, ref::Str(n), " (built: ", f, ") throws (", what, ") at ", EnvStr(g_grid[i], kN)));
      return;
    }
    if (v != (r == ref::Tri::T)) {
      c.Fail(std::string("truth ") + how + ref::Str(n), vf::Cat(how, ref::Str(n), " (built: ", f, ") evaluates to ", v, " at ", EnvStr(g_grid[i], kN)));
      return;
    }
    tab += static_cast<char>('0' + v);
  }
  if (any) ++c.nontrivial;
  ++c.traces;
  c.Outcome(tab);
  c.StateHash(vf::HashStr(f.to_string()));
  c.Sample(ref::Str(n) + "  ->  " + f.to_string());
}
static Formula Bin(Op o, const Formula& a, const Formula& b) {
  switch (o) {
    case Op::kAnd: return a && b;
    case Op::kOr: return a || b;
    case Op::kImp: return dreal::imply(a, b);
    case Op::kIff: return dreal::iff(a, b);
    default: throw std::logic_error("Bin");
  }
}
static const std::vector<Op> kBin{Op::kAnd, Op::kOr, Op::kImp, Op::kIff};

static FSet GrowF(const std::vector<FS>& a, const std::vector<FS>& b, const std::vector<Op>& ops) {
  FSet s;
  for (auto& x : a) s.Insert(x.f, x.n);
  for (auto& x : a) s.Insert(!x.f, ref::Mk(Op::kNot, {x.n}));
  for (auto& x : a)
    for (auto& y : b)
      for (Op o : ops) s.Insert(Bin(o, x.f, y.f), ref::Mk(o, {x.n, y.n}));
  return s;
}
// every overload and construction route for the same pair
static void AllRoutes(const FS& a, const FS& b, vf::Ctx& c) {
  for (Op o : kBin) {
    const NP n = ref::Mk(o, {a.n, b.n});
    c.Note(ref::Str(n));
    Compare(n, Bin(o, a.f, b.f), c, "");
  }
  const NP nand = ref::Mk(Op::kAnd, {a.n, b.n}), nor = ref::Mk(Op::kOr, {a.n, b.n});
  { Formula x{a.f}; Compare(nand, std::move(x) && b.f, c, "move&& "); }
  { Formula y{b.f}; Compare(nand, a.f && std::move(y), c, "&&move "); }
  { Formula x{a.f}, y{b.f}; Compare(nand, std::move(x) && std::move(y), c, "move&&move "); }
  { Formula x{a.f}; Compare(nor, std::move(x) || b.f, c, "move|| "); }
  { Formula y{b.f}; Compare(nor, a.f || std::move(y), c, "||move "); }
  { Formula x{a.f}, y{b.f}; Compare(nor, std::move(x) || std::move(y), c, "move||move "); }
  // freshly rebuilt operands are uniquely owned: the in-place routes
  Compare(nand, BuildF(a.n) && BuildF(b.n), c, "fresh&&fresh ");
  Compare(nor, BuildF(a.n) || BuildF(b.n), c, "fresh||fresh ");
  Compare(nand, dreal::drake::symbolic::make_conjunction(std::set<Formula>{a.f, b.f}), c, "make_conjunction ");
  Compare(nor, dreal::drake::symbolic::make_disjunction(std::set<Formula>{a.f, b.f}), c, "make_disjunction ");
  Compare(nand, dreal::make_conjunction(std::vector<Formula>{a.f, b.f}), c, "make_conjunction(v) ");
  Compare(nor, dreal::make_disjunction(std::vector<Formula>{a.f, b.f}), c, "make_disjunction(v) ");
  Compare(ref::Mk(Op::kIff, {a.n, b.n}), a.f == b.f, c, "== ");
  Compare(ref::Mk(Op::kNot, {ref::Mk(Op::kIff, {a.n, b.n})}), a.f != b.f, c, "!= ");
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  VV().New("x", Variable::Type::CONTINUOUS);
  VV().New("x", Variable::Type::CONTINUOUS);
  for (const char* b : {"b1", "b2", "b3"}) VV().New(b, Variable::Type::BOOLEAN);
  g_grid = Grid({{0, {-1, 0, 2}}, {1, {-1, 0.5, 2}}, {2, {0, 1}}, {3, {0, 1}}, {4, {0, 1}}});
  for (auto& e : g_grid) g_env.push_back(ToEnv(e, kN));
  auto F = [](const NP& n) { return FS{BuildF(n), n}; };
  const NP x = ref::V(0), y = ref::V(1), b1 = ref::V(2, true), b2 = ref::V(3, true), b3 = ref::V(4, true);
  // expression operands for relational atoms
  std::vector<NP> es{x, y, ref::C(0), ref::C(2), ref::C(-1), ref::C(0.5), ref::Mk(Op::kAdd, {x, y}), ref::Mk(Op::kAdd, {y, x}), ref::Mk(Op::kSub, {x, x}),
                     ref::Mk(Op::kMul, {x, ref::C(0)}), ref::Mk(Op::kMul, {x, y}), ref::Mk(Op::kAdd, {x, ref::C(1)}), ref::Mk(Op::kSub, {x, ref::C(1)}),
                     ref::Mk(Op::kMul, {ref::C(2), x}), ref::Mk(Op::kMul, {ref::C(-1), x}), ref::Mk(Op::kPow, {x, ref::C(2)}), ref::Mk(Op::kAbs, {x}), ref::Mk(Op::kSin, {x}),
                     ref::Mk(Op::kMin, {x, y}), ref::Mk(Op::kDiv, {x, ref::C(2)}), ref::RC(0.1, std::nextafter(0.1, 1), true), ref::RC(std::nextafter(0.5, 0), 0.5, false),
                     ref::Mk(Op::kIte, {ref::Mk(Op::kGt, {x, ref::C(0)}), x, y})};
  std::vector<FS> F1{F(ref::Mk(Op::kTrue)), F(ref::Mk(Op::kFalse)), F(b1), F(b2), F(b3)};
  std::vector<NP> rels;
  for (auto& a : es)
    for (auto& b : es)
      for (Op o : RelOps()) rels.push_back(ref::Mk(o, {a, b}));
  for (Op o : RelOps()) {
    F1.push_back(F(ref::Mk(o, {x, y})));
    F1.push_back(F(ref::Mk(o, {x, ref::C(0)})));
  }
  F1.push_back(F(ref::Mk(Op::kLt, {y, x})));
  F1.push_back(F(ref::Mk(Op::kLt, {ref::Mk(Op::kMin, {x, y}), ref::Mk(Op::kIte, {b1, x, y})})));
  std::vector<FS> G1{F(b1), F(b2), F(b3), F(ref::Mk(Op::kLt, {x, y})), F(ref::Mk(Op::kTrue))};
  FSet F2 = GrowF(F1, F1, kBin);
  FSet G2 = GrowF(G1, G1, kBin);
  FSet G3 = GrowF(G2.v, G2.v, kBin);
  const int64_t n1 = F1.size(), n2 = F2.v.size(), g2 = G2.v.size(), g3 = G3.v.size();
  d.rule = "case = one connective or comparison applied to already built distinct operands via one overload/construction route; truth compared in every grid assignment with an independent evaluator; non-trivial = determined at >= 1 point";
  d.bounds = {vf::Cat("comparisons: 6 operators on all ", es.size(), "^2 operand pairs"), vf::Cat("full alphabet ", n1, " atoms: depth 3 with atom second operand (", n2, " depth-2 formulas)"),
              vf::Cat("Boolean fragment {b1,b2,b3,x<y,true}: depth 3 complete (", g2, "^2 pairs, all overload routes), depth 4 with depth-1 second operand (", g3, " depth-3 formulas)"),
              vf::Cat("grid: ", g_grid.size(), " assignments")};
  d.Add("relations", es.size(), [&](int64_t u, vf::Ctx& c) {
    const int64_t per = es.size() * 6;
    for (int64_t i = u * per; i < (u + 1) * per; ++i) {
      c.Note(ref::Str(rels[i]));
      Compare(rels[i], BuildF(rels[i]), c, "");
      Compare(ref::Mk(Op::kNot, {rels[i]}), !BuildF(rels[i]), c, "");
    }
  });
  d.Add("atoms-x-atoms", n1, [&](int64_t u, vf::Ctx& c) {
    for (auto& b : F1) AllRoutes(F1[u], b, c);
    Compare(ref::Mk(Op::kNot, {F1[u].n}), !F1[u].f, c, "");
  });
  d.Add("variables", 3, [&](int64_t u, vf::Ctx& c) {
    // overloads taking Boolean variables
    const Variable v = VV().v[2 + u];
    const NP vn = ref::V(2 + u, true);
    for (auto& f : G2.v) {
      const NP a1 = ref::Mk(Op::kAnd, {vn, f.n}), o1 = ref::Mk(Op::kOr, {vn, f.n});
      Compare(a1, v && f.f, c, "v&& ");
      Compare(a1, f.f && v, c, "&&v ");
      Compare(o1, v || f.f, c, "v|| ");
      Compare(o1, f.f || v, c, "||v ");
      { Formula t{f.f}; Compare(a1, v && std::move(t), c, "v&&move "); }
      { Formula t{f.f}; Compare(a1, std::move(t) && v, c, "move&&v "); }
      { Formula t{f.f}; Compare(o1, v || std::move(t), c, "v||move "); }
      { Formula t{f.f}; Compare(o1, std::move(t) || v, c, "move||v "); }
      Compare(ref::Mk(Op::kImp, {vn, f.n}), dreal::imply(v, f.f), c, "imply(v,.) ");
      Compare(ref::Mk(Op::kImp, {f.n, vn}), dreal::imply(f.f, v), c, "imply(.,v) ");
      Compare(ref::Mk(Op::kIff, {vn, f.n}), dreal::iff(v, f.f), c, "iff(v,.) ");
      Compare(ref::Mk(Op::kIff, {f.n, vn}), dreal::iff(f.f, v), c, "iff(.,v) ");
      Compare(ref::Mk(Op::kIff, {f.n, vn}), f.f == v, c, "f==v ");
      Compare(ref::Mk(Op::kIff, {f.n, vn}), v == f.f, c, "v==f ");
      Compare(ref::Mk(Op::kNot, {ref::Mk(Op::kIff, {f.n, vn})}), f.f != v, c, "f!=v ");
      Compare(ref::Mk(Op::kNot, {ref::Mk(Op::kIff, {f.n, vn})}), v != f.f, c, "v!=f ");
    }
    for (int w = 0; w < 3; ++w) {
      const Variable v2 = VV().v[2 + w];
      const NP wn = ref::V(2 + w, true);
      Compare(ref::Mk(Op::kAnd, {vn, wn}), v && v2, c, "v&&v ");
      Compare(ref::Mk(Op::kOr, {vn, wn}), v || v2, c, "v||v ");
      Compare(ref::Mk(Op::kIff, {vn, wn}), v == v2, c, "v==v ");
      Compare(ref::Mk(Op::kNot, {ref::Mk(Op::kIff, {vn, wn})}), v != v2, c, "v!=v ");
      Compare(ref::Mk(Op::kImp, {vn, wn}), dreal::imply(v, v2), c, "imply(v,v) ");
      Compare(ref::Mk(Op::kIff, {vn, wn}), dreal::iff(v, v2), c, "iff(v,v) ");
    }
    Compare(ref::Mk(Op::kNot, {vn}), !v, c, "!v ");
  });
  d.Add("numeric-variables", 1, [&](int64_t, vf::Ctx& c) {
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) {
        Compare(ref::Mk(Op::kEq, {ref::V(i), ref::V(j)}), VV().v[i] == VV().v[j], c, "var==var ");
        Compare(ref::Mk(Op::kNe, {ref::V(i), ref::V(j)}), VV().v[i] != VV().v[j], c, "var!=var ");
      }
  });
  const int64_t B = 16;
  d.Add("depth3", (n2 + B - 1) / B, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B; i < std::min(n2, (u + 1) * B); ++i) {
      const FS& a = F2.v[i];
      Compare(ref::Mk(Op::kNot, {a.n}), !a.f, c, "");
      for (auto& b : F1)
        for (Op o : kBin) {
          const NP n = ref::Mk(o, {a.n, b.n}), m = ref::Mk(o, {b.n, a.n});
          c.Note(ref::Str(n));
          Compare(n, Bin(o, a.f, b.f), c, "");
          if (o == Op::kImp || d.thorough) Compare(m, Bin(o, b.f, a.f), c, "");
        }
    }
  });
  d.Add("bool3", g2, [&](int64_t u, vf::Ctx& c) {
    for (auto& b : G2.v) AllRoutes(G2.v[u], b, c);
  });
  const int64_t B4 = 32;
  d.Add("bool4", (g3 + B4 - 1) / B4, [&](int64_t u, vf::Ctx& c) {
    for (int64_t i = u * B4; i < std::min(g3, (u + 1) * B4); ++i) {
      const FS& a = G3.v[i];
      Compare(ref::Mk(Op::kNot, {a.n}), !a.f, c, "");
      for (auto& b : G2.v)
        for (Op o : kBin) {
          const NP n = ref::Mk(o, {a.n, b.n});
          c.Note(ref::Str(n));
          Compare(n, Bin(o, a.f, b.f), c, "");
        }
    }
  }, 600);
  // sets and vectors of three and four members
  const int64_t g1 = G2.v.size();
  d.Add("sets", g1, [&](int64_t u, vf::Ctx& c) {
    for (auto& b : G1)
      for (auto& e : G2.v) {
        const std::vector<FS> m{G2.v[u], b, e};
        std::vector<Formula> vec;
        std::vector<NP> ns;
        for (auto& q : m) { vec.push_back(q.f); ns.push_back(q.n); }
        const std::set<Formula> st(vec.begin(), vec.end());
        const NP na = ref::Mk(Op::kAnd, ns), no = ref::Mk(Op::kOr, ns);
        c.Note(ref::Str(na));
        Compare(na, dreal::make_conjunction(vec), c, "conj(v) ");
        Compare(no, dreal::make_disjunction(vec), c, "disj(v) ");
        Compare(na, dreal::drake::symbolic::make_conjunction(st), c, "conj(s) ");
        Compare(no, dreal::drake::symbolic::make_disjunction(st), c, "disj(s) ");
      }
    if (u == 0) {
      Compare(ref::Mk(Op::kTrue), dreal::make_conjunction(std::vector<Formula>{}), c, "conj() ");
      Compare(ref::Mk(Op::kFalse), dreal::make_disjunction(std::vector<Formula>{}), c, "disj() ");
      Compare(ref::Mk(Op::kTrue), dreal::drake::symbolic::make_conjunction(std::set<Formula>{}), c, "conj(s) ");
      Compare(ref::Mk(Op::kFalse), dreal::drake::symbolic::make_disjunction(std::set<Formula>{}), c, "disj(s) ");
      Compare(ref::Mk(Op::kTrue), Formula(), c, "default ");
    }
  });
  return d.Run();
}
