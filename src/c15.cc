// C15: eliminating conditionals keeps satisfying assignments.
#include "dreal/util/if_then_else_eliminator.h"
#include "logic.h"
using namespace lg;  // NOLINT

static World w;
static NP Ite(NP c, NP a, NP b) { return ref::Mk(Op::kIte, {std::move(c), std::move(a), std::move(b)}); }
static bool HasIte(const NP& n) {
  if (n->op == Op::kIte) return true;
  for (auto& k : n->k) if (HasIte(k)) return true;
  return false;
}
// Values every conditional (and branch) of n can take at e: the candidates for
// the fresh variables.
static void Branches(const NP& n, const ref::Env& e, std::set<double>* out) {
  if (n->op == Op::kIte)
    for (int i : {0, 1, 2}) {
      if (i == 0) continue;
      ref::Env t = e;
      const ref::FV v = ref::EvalE(n->k[i], t);
      if (v.s == ref::St::Def) out->insert(v.exact() ? v.lo : (v.lo + v.hi) / 2);
    }
  for (auto& k : n->k) Branches(k, e, out);
}
// Truth of a transformed formula: an atom without a value satisfies neither
// itself nor its negation, and a true disjunct suffices.
static int Holds(const NP& n, ref::Env& e, bool pos = true) {
  switch (n->op) {
    case Op::kNot: return Holds(n->k[0], e, !pos);
    case Op::kAnd:
    case Op::kOr: {
      const bool all = (n->op == Op::kAnd) == pos;
      int r = all ? 1 : 0;
      for (auto& k : n->k) {
        const int t = Holds(k, e, pos);
        if (t == (all ? 0 : 1)) return t;
        if (t < 0) r = -1;
      }
      return r;
    }
    default: {
      const ref::Tri t = ref::EvalF(n, e);
      if (t == ref::Tri::U) return -1;
      if (t == ref::Tri::X) return Quantified(n) ? -1 : 0;
      return (t == ref::Tri::T) == pos;
    }
  }
}
// The conjuncts of g that must hold whatever the fresh variables are make the
// search cheap: split g into its top-level conjuncts and prune on each prefix.
static int Search(const std::vector<std::pair<NP, std::set<int>>>& conj, const std::vector<int>& fresh, const std::set<double>& cand, ref::Env* e, size_t i, std::set<int>* done) {
  bool und = false;
  for (auto& c : conj) {
    bool ready = true;
    for (int v : c.second) ready = ready && done->count(v);
    if (!ready) continue;
    const int t = Holds(c.first, *e);
    if (t == 0) return 0;
    if (t < 0) und = true;
  }
  if (i == fresh.size()) return und ? -1 : 1;
  int r = 0;
  const bool boolean = VV().v[fresh[i]].get_type() == Variable::Type::BOOLEAN;
  const std::set<double> bools{0, 1};
  done->insert(fresh[i]);
  for (double v : boolean ? bools : cand) {
    e->v[fresh[i]] = v;
    const int t = Search(conj, fresh, cand, e, i + 1, done);
    if (t == 1) { r = 1; break; }
    if (t < 0) r = -1;
  }
  done->erase(fresh[i]);
  return r;
}

struct Hist {
  dreal::IfThenElseEliminator el;
  std::set<size_t> known;
  std::set<double> extra;  // per environment index: handled through sources
  std::vector<NP> sources;
  std::string text;
  Hist() { for (int i = 0; i < w.n; ++i) known.insert(VV().v[i].get_id()); }
  void Step(const FS& s, vf::Ctx& c) {
    ++c.transitions;
    const size_t keep = VV().v.size();
    const std::string id = vf::Cat(text, "elim(", ref::Str(s.n), ")");
    c.Note(id);
    sources.push_back(s.n);
    const std::set<size_t> before = known;
    const Formula g = el.Process(s.f);
    std::set<size_t> reported;
    for (auto& v : el.variables()) {
      reported.insert(v.get_id());
      for (int i = 0; i < w.n; ++i) if (VV().v[i].get_id() == v.get_id()) c.Fail("clash " + id, vf::Cat(id, " reports the input variable ", v, " as fresh"));
    }
    const NP l = LiftF(g);
    if (HasIte(l)) c.Fail("ite " + id, vf::Cat(id, " gives ", g, ", which still has a conditional"));
    std::vector<int> fresh;
    for (const Variable& v : g.GetFreeVariables()) {
      bool declared = false;
      for (int i = 0; i < w.n; ++i) declared = declared || VV().v[i].get_id() == v.get_id();
      if (declared) continue;
      fresh.push_back(VV().Index(v));
      if (!reported.count(v.get_id())) c.Fail("unreported " + id, vf::Cat(id, " gives ", g, " with the unreported variable ", v));
    }
    {
      const auto want = FreeOf(s.n);
      for (const Variable& v : g.GetFreeVariables())
        if (VV().Index(v) < w.n && !want.count(VV().Index(v)) && sources.size() == 1) c.Fail("newvar " + id, vf::Cat(id, " mentions ", v));
    }
    for (size_t r : reported) known.insert(r);
    const bool big = VV().v.size() > 120;
    std::vector<std::pair<NP, std::set<int>>> conj;
    {
      std::vector<NP> cs = l->op == Op::kAnd ? l->k : std::vector<NP>{l};
      for (auto& k : cs) {
        std::set<int> vs;
        for (int v : FreeOf(k)) if (v >= w.n) vs.insert(v);
        conj.push_back({k, vs});
      }
    }
    std::string tab;
    if (!big)
      for (size_t i = 0; i < w.grid.size(); ++i) {
        const int want = TruthRef(s.n, w.grid[i]);
        if (want < 0) continue;
        std::set<double> cand{1234.5};
        bool defined = true;
        for (auto& src : sources) Branches(src, w.grid[i], &cand);
        // definitions of earlier calls must be satisfiable for the points
        // where those calls' formulas had a value
        for (auto& src : sources) defined = defined && TruthRef(src, w.grid[i]) >= 0;
        if (!defined) continue;
        ref::Env e = w.grid[i];
        std::set<int> done;
        const int got = Search(conj, fresh, cand, &e, 0, &done);
        ++c.evals;
        if (got < 0) continue;
        tab += static_cast<char>('0' + want);
        if (got != want) {
          c.Fail("truth " + id, vf::Cat(id, " gives ", g, " which ", got ? "can" : "cannot", " be satisfied at ", EnvStr(w.grid[i], w.n), " where the formula is ", want ? "true" : "false"));
          break;
        }
      }
    c.Outcome(tab);
    c.StateHash(vf::HashStr(ref::Str(LiftF(s.f))));
    if (HasIte(LiftF(s.f))) ++c.nontrivial;
    ++c.traces;
    c.Sample(vf::Cat(id, " -> ", g));
    VV().Shrink(keep);
    text += ref::Str(s.n) + "; ";
  }
};
static void Check(const FS& s, vf::Ctx& c) { Hist h; h.Step(s, c); }

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x", "z"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b"}) VV().New(v, Variable::Type::BOOLEAN);
  w.Set({{0, {-1, 0.5, 2}}, {1, {-1, 0.5, 2}}, {2, {0}}, {3, {0, 1}}, {4, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true);
  auto C = [](double v) { return ref::C(v); };
  // conditions, including ones that contain conditionals
  std::vector<NP> cond{b1, B(Op::kLt, x, y), B(Op::kEq, x, C(2)), N(b1), B(Op::kAnd, b1, B(Op::kGe, x, y)), B(Op::kOr, b2, B(Op::kNe, x, y)), B(Op::kIff, b1, b2)};
  std::vector<NP> leaf{x, y, C(0.5), C(-1)};
  std::vector<NP> I1;
  for (auto& c : cond) for (auto& a : leaf) for (auto& b : leaf) if (a != b) I1.push_back(Ite(c, a, b));
  const NP i0 = Ite(b1, x, y), i1 = Ite(B(Op::kLt, x, y), C(2), x), i2 = Ite(b2, C(-1), C(0.5));
  std::vector<NP> I2;  // nested in the condition and in the branches
  for (auto& c : cond) {
    for (auto& in : {i0, i1, i2}) {
      I2.push_back(Ite(c, in, C(0.5)));
      I2.push_back(Ite(c, C(-1), in));
      I2.push_back(Ite(B(Op::kLe, in, C(0.5)), x, C(2)));
      I2.push_back(Ite(B(Op::kAnd, c, B(Op::kGt, in, y)), C(-1), x));
      I2.push_back(Ite(N(B(Op::kEq, in, x)), in, y));
      I2.push_back(Ite(c, Ite(N(c), in, C(2)), Ite(c, in, C(-1))));
      for (auto& in2 : {i0, i1, i2}) { I2.push_back(Ite(c, in, in2)); I2.push_back(Ite(B(Op::kLt, in, in2), in2, in)); }
    }
  }
  // branches that have no value where they are not taken
  const NP lg = B(Op::kDiv, C(3), B(Op::kAdd, x, C(1))), inv = B(Op::kDiv, C(3), B(Op::kSub, x, C(2)));
  for (auto& e : {Ite(B(Op::kGt, x, C(0)), lg, y), Ite(B(Op::kLe, x, C(0)), y, lg), Ite(B(Op::kNe, x, C(2)), inv, y), Ite(B(Op::kAnd, b1, B(Op::kNe, x, C(2))), inv, Ite(b2, y, C(-1))),
                  Ite(b1, Ite(B(Op::kGt, x, C(0)), lg, C(2)), y), Ite(b1, y, Ite(B(Op::kGt, x, C(0)), lg, C(2))), Ite(B(Op::kGt, x, C(0)), Ite(B(Op::kGt, lg, C(0)), x, y), C(-1)),
                  Ite(B(Op::kLt, x, C(0)), C(2), Ite(B(Op::kGt, ref::Mk(Op::kSqrt, {x}), C(1)), y, C(0.5)))})
    I2.push_back(e);
  // and with every kind of term between the conditional not taken and the one inside it
  {
    const NP pos = B(Op::kGt, x, C(0)), in = Ite(b2, lg, C(0.5));
    std::vector<NP> mid;
    for (Op u : UnaryOps()) mid.push_back(ref::Mk(u, {in}));
    for (Op bop : BinaryOps()) { mid.push_back(B(bop, in, y)); mid.push_back(B(bop, y, in)); mid.push_back(B(bop, C(2), in)); }
    for (Op o : RelOps()) { mid.push_back(Ite(B(o, in, y), x, C(2))); mid.push_back(Ite(B(o, y, in), x, C(2))); }
    for (Op o : {Op::kAnd, Op::kOr, Op::kIff}) mid.push_back(Ite(B(o, b1, N(B(Op::kLt, in, y))), x, C(2)));
    mid.push_back(B(Op::kMul, C(3), B(Op::kMul, y, in)));
    mid.push_back(B(Op::kAdd, C(3), B(Op::kAdd, y, B(Op::kMul, C(-2), in))));
    for (auto& m : mid) { I2.push_back(Ite(pos, m, y)); I2.push_back(Ite(N(pos), y, m)); I2.push_back(Ite(b1, C(0.5), Ite(pos, m, y))); }
  }
  // contexts of an expression: every kind of node on the path
  auto ctx = [&](const NP& e) {
    std::vector<NP> v{e, B(Op::kAdd, e, x), B(Op::kAdd, C(1), B(Op::kMul, C(-2), e)), B(Op::kMul, e, y), B(Op::kSub, e, e), B(Op::kPow, e, C(2)), B(Op::kMul, e, e),
                      ref::Mk(Op::kAbs, {e}), B(Op::kMin, e, x), B(Op::kMax, y, e), B(Op::kDiv, e, C(2)), B(Op::kDiv, C(1), e), ref::Mk(Op::kNeg, {e})};
    return v;
  };
  std::vector<NP> small_ctx_src{i0, i1, Ite(B(Op::kLe, i2, x), y, i0)};
  std::vector<FS> F1;
  for (auto& e : I1) for (Op o : RelOps()) for (auto& r : {x, C(0.5)}) F1.push_back(Fs(B(o, e, r)));
  for (auto& e : I2) for (Op o : {Op::kEq, Op::kLt, Op::kNe, Op::kGe}) for (auto& r : {y, C(0.5)}) F1.push_back(Fs(B(o, r, e)));
  std::vector<FS> F2;
  for (auto& e : small_ctx_src) {
    for (auto& q : ctx(e)) for (Op o : RelOps()) F2.push_back(Fs(B(o, q, C(0.5))));
    for (Op u : UnaryOps()) F2.push_back(Fs(B(Op::kLe, ref::Mk(u, {e}), C(0.3))));
    for (auto& e2 : small_ctx_src) for (Op bop : BinaryOps()) { F2.push_back(Fs(B(Op::kGt, B(bop, e, e2), C(0.5)))); F2.push_back(Fs(B(Op::kLe, B(bop, e, e2), e))); }
  }
  // atoms with conditionals under every connective and polarity
  std::vector<FS> A{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(B(Op::kGt, i0, C(0.5))), Fs(B(Op::kEq, i1, y)), Fs(B(Op::kLe, i2, i0)), Fs(B(Op::kNe, Ite(B(Op::kLt, i2, x), y, C(2)), x))};
  FSet P2 = Grow(A, A, {Op::kAnd, Op::kOr, Op::kIff});
  // quantified bodies (branches stay within the finite domain of the reference)
  const std::vector<double>& dom = ref::QuantDomain();
  std::vector<FS> Q;
  {
    std::vector<NP> qi{Ite(B(Op::kLt, z, x), z, C(-1)), Ite(b1, z, C(2)), Ite(B(Op::kGe, x, z), C(0), Ite(b2, z, C(0.5))), Ite(B(Op::kLe, Ite(b1, z, C(0)), x), C(2), z)};
    std::vector<NP> body;
    for (auto& e : qi) {
      for (Op o : RelOps()) { body.push_back(B(o, e, x)); body.push_back(B(o, z, e)); }
      body.push_back(B(Op::kOr, b1, B(Op::kLe, e, x)));
      body.push_back(B(Op::kAnd, B(Op::kLe, e, C(2)), B(Op::kOr, B(Op::kGt, e, z), b2)));
      body.push_back(N(B(Op::kAnd, B(Op::kLt, e, x), B(Op::kGe, e, z))));
      body.push_back(B(Op::kIff, b1, B(Op::kEq, e, z)));
    }
    for (auto& f : body) { Q.push_back(Fs(ref::All({2}, f))); Q.push_back(Fs(N(ref::All({2}, f)))); }
    Q.push_back(Fs(ref::All({2}, B(Op::kOr, B(Op::kLt, Ite(B(Op::kLt, z, x), z, C(-1)), C(2)), ref::All({1}, B(Op::kLe, Ite(b1, y, z), C(2)))))));
  }
  (void)dom;
  d.rule = "case = one elimination, or a sequence of eliminations by one eliminator; absence of conditionals, freshness and reporting of introduced variables, and at every grid assignment the existence of an extension (exhaustive search over the values the conditionals can take) against the formula's truth; non-trivial = a conditional was present";
  d.bounds = {vf::Cat(I1.size(), " flat and ", I2.size(), " nested conditionals under comparisons: ", F1.size(), " formulas"),
              vf::Cat(F2.size(), " formulas with conditionals under every kind of term"),
              vf::Cat("Boolean structure: ", A.size(), " atoms, depth 3 complete (", P2.v.size(), "^2 x 2)"), vf::Cat(Q.size(), " quantified formulas, alone and combined"),
              vf::Cat("grid ", w.grid.size(), ", quantifiers over ", ref::QuantDomain().size(), " values")};
  auto each = [&](const char* name, const std::vector<FS>& v) {
    d.Add(name, (v.size() + 19) / 20, [&v](int64_t u, vf::Ctx& c) {
      for (size_t i = u * 20; i < v.size() && i < size_t(u) * 20 + 20; ++i) { Check(v[i], c); Check(FS{!v[i].f, N(v[i].n)}, c); }
    });
  };
  each("flat-and-nested", F1);
  each("contexts", F2);
  Pairs(d, "structure", P2.v, d.thorough ? P2.v : A, {Op::kAnd, Op::kOr}, Check);
  Pairs(d, "quantified", Q, A, {Op::kAnd, Op::kOr}, Check);
  std::vector<FS> H = A;
  for (size_t i = 0; i < P2.v.size(); i += d.thorough ? 3 : 9) H.push_back(P2.v[i]);
  H.push_back(Q[0]); H.push_back(Q[11]);
  d.bounds.push_back(vf::Cat("histories: every sequence of ", 3, " calls out of ", H.size(), " on one eliminator"));
  d.Add("histories", H.size() * H.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& f : H) {
      Hist h;
      h.Step(H[u / H.size()], c);
      h.Step(H[u % H.size()], c);
      h.Step(f, c);
    }
  });
  static const std::vector<FS> CL{Fs(b1), Fs(B(Op::kGt, i0, C(0.5))), Fs(B(Op::kLe, i2, i1))};
  const int csteps = d.thorough ? 4 : 3;
  d.bounds.push_back(vf::Cat("chains: every alternation of and, or and negation of depth ", csteps + 1, " with ", CL.size(), " literals"));
  Chains(d, "chains", CL, csteps, Check);
  return d.Run();
}
