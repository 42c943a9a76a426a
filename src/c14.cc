// C14: predicate abstraction is a faithful bijection of atoms over any history.
#include "dreal/util/predicate_abstractor.h"
#include "logic.h"
using namespace lg;  // NOLINT
namespace sym = dreal::drake::symbolic;

static World w;
// What an atom is abstracted as: a key and a polarity.
static std::pair<std::string, bool> Key(const NP& a) {
  switch (a->op) {
    case Op::kNe: return {ref::Str(B(Op::kEq, a->k[0], a->k[1])), true};
    case Op::kGt: return {ref::Str(B(Op::kLe, a->k[0], a->k[1])), true};
    case Op::kGe: return {ref::Str(B(Op::kLt, a->k[0], a->k[1])), true};
    default: return {ref::Str(a), false};
  }
}
static bool Prop(const NP& n, const std::map<std::string, bool>& val) {
  switch (n->op) {
    case Op::kTrue: return true;
    case Op::kFalse: return false;
    case Op::kNot: return !Prop(n->k[0], val);
    case Op::kAnd: for (auto& k : n->k) if (!Prop(k, val)) return false; return true;
    case Op::kOr: for (auto& k : n->k) if (Prop(k, val)) return true; return false;
    default: { const auto k = Key(n); return val.at(k.first) != k.second; }
  }
}
static void Atoms(const NP& n, std::map<std::string, NP>* out) {
  if (n->op == Op::kNot || n->op == Op::kAnd || n->op == Op::kOr) { for (auto& k : n->k) Atoms(k, out); return; }
  if (n->op == Op::kTrue || n->op == Op::kFalse) return;
  (*out)[Key(n).first] = n;
}

// One abstractor and the model of its history.
struct H {
  dreal::PredicateAbstractor pa;
  std::map<std::string, Variable> var_of;  // atom key -> variable
  std::map<size_t, std::string> key_of;    // variable -> atom key
  std::string hist;

  void Step(const FS& s, const Formula& g, const std::string& what, vf::Ctx& c) {
    ++c.transitions;
    const size_t keep = VV().v.size();
    const std::string id = hist + what;
    const NP src = LiftF(s.f);
    std::map<std::string, NP> atoms;
    Atoms(src, &atoms);
    // 1. only Boolean variables and connectives are left
    const NP l = LiftF(g);
    std::map<std::string, NP> left;
    Atoms(l, &left);
    for (auto& a : left)
      if (a.second->op != Op::kBool) { c.Fail("left " + id, vf::Cat(id, " gives ", g, " in which an atom is left")); return; }
    // 2. maps are inverse to one another
    const auto& fv = pa.var_to_formula_map();
    for (auto& p : fv) {
      if (!sym::Variable(pa[p.second]).equal_to(p.first)) c.Fail("inverse " + id, vf::Cat(id, ": ", p.first, " stands for ", p.second, " which stands for ", pa[p.second]));
      if (!pa[p.first].EqualTo(p.second)) c.Fail("inverse2 " + id, vf::Cat(id, ": lookups of ", p.first, " disagree"));
      const std::string k = ref::Str(LiftF(p.second));
      auto it = key_of.find(p.first.get_id());
      if (it != key_of.end() && it->second != k) c.Fail("moved " + id, vf::Cat(id, ": ", p.first, " now stands for ", p.second));
      auto jt = var_of.find(k);
      if (jt != var_of.end() && !jt->second.equal_to(p.first)) c.Fail("second variable " + id, vf::Cat(id, ": the atom ", p.second, " has two variables"));
      key_of[p.first.get_id()] = k;
      var_of.emplace(k, p.first);
      if (p.first.get_type() != Variable::Type::BOOLEAN) c.Fail("type " + id, id + ": abstracting variable is not Boolean");
      for (int i = 0; i < w.n; ++i)
        if (VV().v[i].equal_to(p.first)) c.Fail("clash " + id, id + ": an input variable is used to stand for an atom");
    }
    for (auto& p : var_of)
      if (!fv.count(p.second)) c.Fail("forgot " + id, vf::Cat(id, " forgot ", p.first));
    // 3. same propositional structure: every valuation of the atoms
    std::map<std::string, std::string> name;  // atom key -> key of the variable in l
    for (auto& a : atoms) {
      if (a.second->op == Op::kBool) { name[a.first] = a.first; continue; }
      auto it = var_of.find(a.first);
      if (it == var_of.end()) { name[a.first] = ""; continue; }  // must be irrelevant
      name[a.first] = ref::Str(ref::V(VV().Index(it->second), true));
    }
    std::vector<std::string> ks;
    for (auto& a : atoms) ks.push_back(a.first);
    if (ks.size() <= 10) {
      for (unsigned m = 0; m < (1u << ks.size()); ++m) {
        std::map<std::string, bool> va, vb;
        for (size_t i = 0; i < ks.size(); ++i) {
          va[ks[i]] = m >> i & 1;
          if (!name[ks[i]].empty()) vb[name[ks[i]]] = m >> i & 1;
        }
        ++c.evals;
        bool got;
        try { got = Prop(l, vb); } catch (const std::out_of_range&) { c.Fail("stray " + id, vf::Cat(id, " gives ", g, ", mentioning a variable for no atom of the formula")); break; }
        if (got != Prop(src, va)) { c.Fail("structure " + id, vf::Cat(id, " gives ", g, ", a different combination of the atoms")); break; }
      }
    }
    // 4. substituting back restores the meaning
    sym::FormulaSubstitution back;
    for (auto& p : fv) back.emplace(p.first, p.second);
    Same(id + " back", s.n, g.Substitute(back), w, c);
    if (!left.empty()) ++c.nontrivial;
    ++c.traces;
    VV().Shrink(keep);
    hist += what + "; ";
  }
};

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "x", "z"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b", "b((x < x))"}) VV().New(v, Variable::Type::BOOLEAN);
  w.Set({{0, {-1, 0.5, 2}}, {1, {-1, 0.5, 2}}, {2, {0}}, {3, {0, 1}}, {4, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true);
  const NP fa = ref::All({2}, B(Op::kLe, x, z));
  std::vector<FS> A{Fs(b1), Fs(ref::Mk(Op::kTrue))};
  for (Op o : RelOps()) A.push_back(Fs(B(o, x, y)));
  for (Op o : {Op::kLt, Op::kGe, Op::kEq}) A.push_back(Fs(B(o, y, x)));
  A.push_back(Fs(B(Op::kGt, B(Op::kAdd, x, y), ref::C(0))));
  A.push_back(Fs(B(Op::kLe, B(Op::kAdd, y, x), ref::C(0))));
  A.push_back(Fs(B(Op::kLe, ref::C(0), B(Op::kAdd, y, x))));
  A.push_back(Fs(B(Op::kLt, ref::Mk(Op::kIte, {b2, x, y}), ref::C(1))));
  A.push_back(Fs(fa));
  A.push_back(Fs(ref::All({2}, B(Op::kGe, x, z))));
  A.push_back(Fs(ref::All({2}, B(Op::kAnd, b1, B(Op::kLe, x, z)))));
  FSet P2 = Grow(A, A, {Op::kAnd, Op::kOr, Op::kIff});
  std::vector<FS> S{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(B(Op::kGe, x, y)), Fs(B(Op::kNe, x, y)), Fs(fa)};
  FSet Q2 = Grow(S, S, {Op::kAnd, Op::kOr, Op::kIff});
  d.rule = "case = one conversion in a history of conversions by one abstractor; after each, the two lookup directions, stability of every earlier atom-variable pair, the Boolean structure under every valuation of the atoms, and the meaning after substituting back are checked; non-trivial = an atom was abstracted";
  d.bounds = {vf::Cat(A.size(), " atoms: every formula of depth 2 (", P2.v.size(), "), depth 3 with any atom"),
              vf::Cat(S.size(), " atoms: depth 3 complete (", Q2.v.size(), "^2 x 2)")};
  auto single = [](const FS& s, vf::Ctx& c) {
    H h;
    c.Note(ref::Str(s.n));
    c.StateHash(vf::HashStr(ref::Str(LiftF(s.f))));
    h.Step(s, h.pa.Convert(s.f), vf::Cat("convert(", ref::Str(s.n), ")"), c);
    h.Step(s, h.pa.Convert(s.f), "again", c);
    h.Step(FS{!s.f, N(s.n)}, h.pa.Convert(!s.f), "negated", c);
  };
  Pairs(d, "single", P2.v, A, {Op::kAnd, Op::kOr, Op::kIff}, single);
  Pairs(d, "depth3", Q2.v, Q2.v, {Op::kAnd, Op::kOr}, single);
  // histories: every sequence of three conversions from a pool
  static std::vector<FS> pool;
  for (auto& a : A) { pool.push_back(a); pool.push_back(FS{!a.f, N(a.n)}); }
  for (size_t i = 0; i < Q2.v.size(); i += d.thorough ? 1 : 2) pool.push_back(Q2.v[i]);
  d.bounds.push_back(vf::Cat("histories: every sequence of 3 conversions out of ", pool.size(), "; vectors of two and three formulas"));
  d.Add("histories", pool.size() * pool.size(), [&](int64_t u, vf::Ctx& c) {
    const FS &a = pool[u / pool.size()], &b = pool[u % pool.size()];
    for (auto& s : pool) {
      H h;
      c.Note(vf::Cat(ref::Str(a.n), "; ", ref::Str(b.n), "; ", ref::Str(s.n)));
      h.Step(a, h.pa.Convert(a.f), ref::Str(a.n), c);
      h.Step(b, h.pa.Convert(b.f), ref::Str(b.n), c);
      h.Step(s, h.pa.Convert(s.f), ref::Str(s.n), c);
    }
  });
  d.Add("vectors", pool.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& b : pool)
      for (auto& e : A) {
        H h;
        const std::string id = vf::Cat("[", ref::Str(pool[u].n), ", ", ref::Str(b.n), ", ", ref::Str(e.n), "]");
        c.Note(id);
        const NP n2 = B(Op::kAnd, pool[u].n, b.n), n3 = B(Op::kAnd, n2, e.n);
        h.Step(FS{pool[u].f && b.f && e.f, n3}, h.pa.Convert(std::vector<Formula>{pool[u].f, b.f, e.f}), id, c);
        h.Step(FS{pool[u].f && b.f, n2}, h.pa.Convert(std::vector<Formula>{b.f, pool[u].f}), "two", c);
      }
  });
  static const std::vector<FS> CL{Fs(b1), Fs(B(Op::kLt, x, y)), Fs(B(Op::kGe, y, x))};
  const int csteps = d.thorough ? 5 : 4;
  d.bounds.push_back(vf::Cat("chains: every alternation of and, or and negation of depth ", csteps + 1, " with ", CL.size(), " literals"));
  Chains(d, "chains", CL, csteps, single);
  return d.Run();
}
