// C13: clausal conversion keeps satisfying assignments and produces clauses.
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/tseitin_cnfizer.h"
#include "logic.h"
using namespace lg;  // NOLINT

static World w;

struct Lit { int fresh; bool neg; NP atom; };  // fresh >= 0, or a fixed atom
static bool Dpll(const std::vector<std::vector<std::pair<int, bool>>>& cs, std::vector<int>* a) {
  // unit propagation + branching; literal = (fresh index, negated)
  std::vector<std::pair<int, int>> trail;
  auto set = [&](int v, int b) { (*a)[v] = b; trail.push_back({v, b}); };
  auto undo = [&] { for (auto& t : trail) (*a)[t.first] = -1; };
  int branch = -1;
  for (bool again = true; again;) {
    again = false;
    branch = -1;
    for (auto& cl : cs) {
      bool sat = false;
      int open = 0, ov = -1, ob = 0;
      for (auto& l : cl) {
        if ((*a)[l.first] < 0) { ++open; ov = l.first; ob = l.second ? 0 : 1; }
        else if ((*a)[l.first] == (l.second ? 0 : 1)) { sat = true; break; }
      }
      if (sat) continue;
      if (open == 0) { undo(); return false; }
      if (open == 1) { set(ov, ob); again = true; break; }
      branch = ov;
    }
  }
  if (branch < 0) return true;
  for (int b : {0, 1}) {
    (*a)[branch] = b;
    if (Dpll(cs, a)) return true;
    (*a)[branch] = -1;
  }
  undo();
  return false;
}
// Is the conjunction of the clauses satisfiable over the fresh variables at e,
// undecided atoms counting as `undecided`?
static bool Sat(const std::vector<NP>& clauses, const std::map<int, int>& fresh, const ref::Env& e, bool undecided) {
  std::vector<std::vector<std::pair<int, bool>>> cs;
  for (auto& cl : clauses) {
    std::vector<NP> lits = cl->op == Op::kOr ? cl->k : std::vector<NP>{cl};
    std::vector<std::pair<int, bool>> r;
    bool sat = false;
    for (auto& l : lits) {
      const bool neg = l->op == Op::kNot;
      const NP a = neg ? l->k[0] : l;
      if (a->op == Op::kBool && fresh.count(a->var)) { r.push_back({fresh.at(a->var), neg}); continue; }
      const int t = TruthRef(a, e);
      if (t < 0 ? undecided : (t == 1) != neg) { sat = true; break; }
    }
    if (sat) continue;
    if (r.empty()) return false;
    cs.push_back(r);
  }
  std::vector<int> a(fresh.size(), -1);
  return Dpll(cs, &a);
}

static void Naive(const FS& s, vf::Ctx& c) {
  const std::string id = vf::Cat("naive(", ref::Str(s.n), ")");
  c.Note(id);
  ++c.transitions;
  const Formula g = dreal::NaiveCnfizer{}.Convert(s.f);
  Same(id, s.n, g, w, c);
  const NP l = LiftF(g);
  bool quantified_ok = true;
  std::function<void(const NP&)> body = [&](const NP& n) {
    if (n->op == Op::kForall) quantified_ok = quantified_ok && IsCnf(n->k[0]);
  };
  if (!IsCnf(l)) c.Fail("shape " + id, vf::Cat(id, " gives ", g, ", which is not a conjunction of clauses"));
  const auto want = FreeOf(s.n);
  for (int v : FreeOf(l)) if (!want.count(v)) c.Fail("newvar " + id, id + " mentions a new variable");
  if (!dreal::is_cnf(g)) c.Fail("is_cnf " + id, vf::Cat(id, " gives ", g, ", which is_cnf denies"));
  if (ref::Str(l) != ref::Str(LiftF(s.f))) ++c.nontrivial;
}
// One call on a converter; `known` are the ids of all variables seen so far.
static void Definitional(dreal::TseitinCnfizer* conv, const FS& s, const std::string& hist, std::set<size_t>* known, vf::Ctx& c) {
  const size_t keep = VV().v.size();
  const std::string id = vf::Cat(hist, "tseitin(", ref::Str(s.n), ")");
  c.Note(id);
  ++c.transitions;
  const std::vector<Formula> out = conv->Convert(s.f);
  std::set<size_t> reported, introduced;
  for (auto& p : conv->map()) {
    reported.insert(p.first.get_id());
    if (p.first.get_type() != Variable::Type::BOOLEAN) c.Fail("type " + id, id + " reports a fresh variable that is not Boolean");
    if (known->count(p.first.get_id())) c.Fail("clash " + id, vf::Cat(id, " reuses the variable ", p.first));
  }
  std::map<int, int> fresh;
  std::vector<NP> clauses;
  for (auto& f : out) {
    clauses.push_back(LiftF(f));
    if (!IsClause(clauses.back())) c.Fail("shape " + id, vf::Cat(id, " contains ", f, ", which is not a clause"));
    for (const Variable& v : f.GetFreeVariables())
      if (!known->count(v.get_id())) {
        introduced.insert(v.get_id());
        if (!reported.count(v.get_id())) c.Fail("unreported " + id, vf::Cat(id, " introduces ", v, " without reporting it"));
        const int k = fresh.size();
        fresh.emplace(VV().Index(v), k);
      }
  }
  std::string tab;
  for (auto& e : w.grid) {
    const int want = TruthRef(s.n, e);
    if (want < 0) continue;
    ++c.evals;
    tab += static_cast<char>('0' + want);
    ref::Env t = e;
    t.v.resize(std::max(t.v.size(), VV().v.size() + 8));
    if (want == 1 && !Sat(clauses, fresh, t, true)) {
      std::string o;
      for (auto& f : out) o += f.to_string() + " ; ";
      c.Fail("lost " + id, vf::Cat(id, " = ", o, " has no extension at ", EnvStr(e, w.n), " though the formula is true there"));
      break;
    }
    if (want == 0 && Sat(clauses, fresh, t, false)) {
      std::string o;
      for (auto& f : out) o += f.to_string() + " ; ";
      c.Fail("gained " + id, vf::Cat(id, " = ", o, " is satisfiable at ", EnvStr(e, w.n), " though the formula is false there"));
      break;
    }
  }
  c.Outcome(tab);
  c.State(ref::Str(LiftF(s.f)));
  ++c.traces;
  if (!fresh.empty()) ++c.nontrivial;
  known->insert(introduced.begin(), introduced.end());
  known->insert(reported.begin(), reported.end());
  if (c.samples.size() < 3) c.Sample(vf::Cat(id, " -> ", out.size(), " clauses, ", fresh.size(), " fresh"));
  VV().Shrink(keep);
}
static std::set<size_t> Declared() {
  std::set<size_t> s;
  for (int i = 0; i < w.n; ++i) s.insert(VV().v[i].get_id());
  return s;
}
static void Check(const FS& s, vf::Ctx& c) {
  Naive(s, c);
  dreal::TseitinCnfizer conv;
  auto known = Declared();
  Definitional(&conv, s, "", &known, c);
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x", "z"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b", "b3", "b4"}) VV().New(v, Variable::Type::BOOLEAN);
  w.Set({{0, {-1, 2}}, {1, {-1, 2}}, {2, {0}}, {3, {0, 1}}, {4, {0, 1}}, {5, {0, 1}}, {6, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true), b3 = ref::V(5, true), b4 = ref::V(6, true);
  const NP p = B(Op::kLt, x, y), q = B(Op::kEq, x, y), r = B(Op::kLe, x, z), s = B(Op::kLt, y, z);
  std::vector<FS> S{Fs(b1), Fs(b2), Fs(p), Fs(q)};
  if (d.thorough) S.push_back(Fs(b3));
  FSet Q2 = Grow(S, S, {Op::kAnd, Op::kOr, Op::kIff});
  FSet QQ = Grow(Q2.v, Q2.v, {Op::kAnd, Op::kOr});
  // read-once deep trees over distinct atoms
  std::vector<FS> R{Fs(b1), Fs(N(b2)), Fs(p), Fs(b3)}, R2{Fs(b4), Fs(q), Fs(N(p)), Fs(b2)};
  FSet D1 = Grow(R, R2, {Op::kAnd, Op::kOr});
  FSet D2 = Grow(D1.v, R, {Op::kAnd, Op::kOr, Op::kIff});
  // quantified atoms: bodies of every Boolean shape over bound and free atoms
  FSet body = Grow({Fs(r), Fs(s), Fs(b1), Fs(b2), Fs(p)}, {Fs(r), Fs(s), Fs(b1), Fs(b2), Fs(p)}, {Op::kAnd, Op::kOr, Op::kIff});
  FSet body2 = Grow(body.v, {Fs(r), Fs(b1), Fs(N(b2))}, {Op::kAnd, Op::kOr});
  std::vector<FS> QF;
  {
    FSet q0 = GrowQ(body2, {{2}, {1, 2}});
    for (auto& f : q0.v) if (Quantified(f.n)) QF.push_back(f);
    QF.push_back(Fs(ref::All({2}, B(Op::kOr, r, ref::All({1}, B(Op::kAnd, s, b1))))));
    QF.push_back(Fs(ref::All({2}, B(Op::kAnd, r, ref::All({1}, B(Op::kOr, s, b1))))));
    QF.push_back(Fs(ref::All({2}, N(ref::All({1}, B(Op::kOr, s, b1))))));
  }
  std::vector<FS> small{Fs(b1), Fs(p), Fs(N(b2)), Fs(B(Op::kAnd, b1, b3)), Fs(B(Op::kOr, b3, p))};
  if (d.thorough) for (auto& f : {ref::All({2}, B(Op::kAnd, r, b3)), N(ref::All({2}, B(Op::kAnd, r, b3)))}) small.push_back(Fs(f));
  d.rule = "case = one conversion (distributive or definitional) of a formula, or a sequence of definitional conversions on one converter; every output clause's shape, the reporting and freshness of every introduced variable, and at every grid assignment the existence of an extension over the fresh variables (by exhaustive search) against the formula's truth; non-trivial = fresh variables were introduced";
  d.bounds = {vf::Cat(S.size(), " atoms: depth 3 complete (", Q2.v.size(), "^2 x 3 connectives), depth 4 with atoms (", QQ.v.size(), " x ", S.size(), " x 2)"),
              vf::Cat("deep read-once: ", D2.v.size(), " x ", R2.size(), " x 3"), vf::Cat(QF.size(), " quantified formulas, alone, negated and under each connective with ", small.size(), " formulas"),
              vf::Cat("grid ", w.grid.size(), ", quantifiers over ", ref::QuantDomain().size(), " values")};
  Pairs(d, "depth3", Q2.v, Q2.v, {Op::kAnd, Op::kOr, Op::kIff}, Check);
  Pairs(d, "depth4", QQ.v, S, {Op::kAnd, Op::kOr}, Check);
  Pairs(d, "deep", D2.v, R2, {Op::kAnd, Op::kOr, Op::kIff}, Check);
  Pairs(d, "quantified", QF, small, {Op::kAnd, Op::kOr, Op::kIff}, Check);
  // histories on one converter
  std::vector<FS> H;
  for (size_t i = 0; i < Q2.v.size(); i += d.thorough ? 1 : 3) H.push_back(Q2.v[i]);
  for (auto& n : {B(Op::kIff, B(Op::kIff, b1, p), b2), N(B(Op::kAnd, B(Op::kOr, b1, p), b3)), ref::All({2}, B(Op::kAnd, r, B(Op::kOr, s, b1))), N(ref::All({2}, B(Op::kAnd, r, b1)))}) H.push_back(Fs(n));
  d.bounds.push_back(vf::Cat("histories: every sequence of 3 conversions out of ", H.size(), " on one converter"));
  d.Add("histories", H.size() * H.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& h : H) {
      dreal::TseitinCnfizer conv;
      auto known = Declared();
      Definitional(&conv, H[u / H.size()], "", &known, c);
      Definitional(&conv, H[u % H.size()], "2nd ", &known, c);
      Definitional(&conv, h, vf::Cat("after ", ref::Str(H[u % H.size()].n), ": "), &known, c);
    }
  });
  static const std::vector<FS> CL{Fs(b1), Fs(N(b2)), Fs(p)};
  const int csteps = d.thorough ? 5 : 4;
  d.bounds.push_back(vf::Cat("chains: every alternation of and, or and negation of depth ", csteps + 1, " with ", CL.size(), " literals"));
  Chains(d, "chains", CL, csteps, Check);
  return d.Run();
}
