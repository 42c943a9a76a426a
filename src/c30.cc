// BUILD: full
// C30: the Boolean engine on every history of adding, blocking, pushing and
// popping, compared with truth tables over the atoms.
#include "dreal/solver/config.h"
#include "dreal/solver/sat_solver.h"
#include "dreal/symbolic/symbolic.h"
#include "vf.h"
using namespace dreal;
namespace {
struct World {
  Variable x{"x"}, y{"y"};
  Variable a{"a", Variable::Type::BOOLEAN}, b{"b", Variable::Type::BOOLEAN};
  std::vector<Formula> atoms, negs;  // opaque propositions; bit i of a valuation
  std::vector<Formula> pool;
  std::vector<std::vector<char>> truth;  // pool x valuation
  std::vector<unsigned> uses;            // atoms occurring in it
  World() {
    const Formula A{a}, B{b}, p{x > 0}, q{y == 1}, r{x + y <= 2};
    atoms = {A, B, p, q, r};
    negs = {!A, !B, x <= 0, y != 1, x + y > 2};
    pool = {A, !p, p || q, (!p) || A, (A && q) || r, !(p && q && !B), (p && !q) || (!p && q), B || (A && !(q || r)), !q};
    for (auto& f : pool) {
      std::vector<char> t;
      for (unsigned m = 0; m < 32; ++m) t.push_back(Eval(f, m));
      truth.push_back(t);
      uses.push_back(Uses(f));
    }
  }
  int Index(const Formula& f) const {
    for (size_t i = 0; i < atoms.size(); ++i) if (atoms[i].EqualTo(f)) return i;
    return -1;
  }
  // f is the negation of an atom, written as a comparison
  int NegIndex(const Formula& f) const {
    for (size_t i = 0; i < atoms.size(); ++i) if (negs[i].EqualTo(f)) return i;
    return -1;
  }
  bool Eval(const Formula& f, unsigned m) const {
    const int i = Index(f);
    if (i >= 0) return m >> i & 1;
    if (!is_negation(f) && NegIndex(f) >= 0) return !(m >> NegIndex(f) & 1);
    if (is_negation(f)) return !Eval(get_operand(f), m);
    if (is_conjunction(f)) { for (auto& g : get_operands(f)) if (!Eval(g, m)) return false; return true; }
    if (is_disjunction(f)) { for (auto& g : get_operands(f)) if (Eval(g, m)) return true; return false; }
    return is_true(f);
  }
  unsigned Uses(const Formula& f) const {
    const int i = Index(f);
    if (i >= 0) return 1u << i;
    if (!is_negation(f) && NegIndex(f) >= 0) return 1u << NegIndex(f);
    if (is_negation(f)) return Uses(get_operand(f));
    unsigned u = 0;
    if (is_conjunction(f) || is_disjunction(f)) for (auto& g : get_operands(f)) u |= Uses(g);
    return u;
  }
};
struct Cube { unsigned mask, val; };
struct Scope { std::vector<int> fs; std::vector<Cube> blocked; };
enum { kCheckBlock = 100, kCheck, kPush, kPop, kBlockTheory, kAddList };
std::string OpName(int o) {
  switch (o) { case kCheckBlock: return "check+block"; case kCheck: return "check"; case kPush: return "push"; case kPop: return "pop"; case kBlockTheory: return "check+block the theory part"; case kAddList: return "add f2,f3"; }
  return vf::Cat("add f", o);
}
struct Run {
  const World& w;
  const Config cfg;
  SatSolver s;
  std::vector<Scope> sc{1};
  explicit Run(const World& w_, const Config& c) : w{w_}, cfg{c}, s{c} {}
  std::vector<char> Active() const {
    std::vector<char> t(32, 1);
    for (auto& k : sc) {
      for (int f : k.fs) for (unsigned m = 0; m < 32; ++m) t[m] = t[m] && w.truth[f][m];
      for (auto& c : k.blocked) for (unsigned m = 0; m < 32; ++m) if ((m & c.mask) == c.val) t[m] = 0;
    }
    return t;
  }
  unsigned ActiveAtoms() const {
    unsigned u = 0;
    for (auto& k : sc) { for (int f : k.fs) u |= w.uses[f]; for (auto& c : k.blocked) u |= c.mask; }
    return u;
  }
  // one check; "" or what is wrong.  got: sat?
  std::string Check(bool* sat, Cube* all, Cube* theory, std::set<Formula>* lits, std::set<Formula>* tlits) {
    const auto m = s.CheckSat();
    const auto act = Active();
    bool any = false;
    for (char c : act) any = any || c;
    *sat = static_cast<bool>(m);
    if (*sat != any) return any ? "answered unsatisfiable, though a valuation remains" : "answered satisfiable, though none remains";
    if (!*sat) return "";
    *all = {0, 0}; *theory = {0, 0};
    lits->clear(); tlits->clear();
    const unsigned au = ActiveAtoms();
    auto put = [&](const Formula& f, bool v, bool th) -> std::string {
      int i = w.Index(f);
      const bool v0 = v;
      if (i < 0 && (i = w.NegIndex(f)) >= 0) v = !v;
      if (i < 0) return vf::Cat("reports ", f, ", which is no atom of the problem");
      if (!(au >> i & 1)) return vf::Cat("reports ", f, ", which is in no open scope");
      if (all->mask >> i & 1) return vf::Cat("reports ", f, " twice");
      all->mask |= 1u << i; all->val |= static_cast<unsigned>(v) << i;
      lits->insert(v0 ? f : !f);
      if (th) { theory->mask |= 1u << i; theory->val |= static_cast<unsigned>(v) << i; tlits->insert(v0 ? f : !f); }
      return "";
    };
    for (auto& p : m->first) {
      std::string e = put(Formula{p.first}, p.second, false);
      if (!e.empty()) return e;
    }
    for (auto& p : m->second) {
      const Formula f = s.theory_literal(p.first);
      if (is_variable(f)) return "a Boolean variable among the theory literals";
      std::string e = put(f, p.second, true);
      if (!e.empty()) return e;
    }
    for (unsigned v = 0; v < 32; ++v)
      if ((v & all->mask) == all->val && !act[v]) {
        std::string t;
        for (auto& f : *lits) t += " " + f.to_string();
        return vf::Cat("the literals {", t, " } do not make every asserted formula true");
      }
    return "";
  }
  std::string Step(int o) {
    bool sat; Cube al, th; std::set<Formula> l, tl;
    if (o < 100) { s.AddFormula(w.pool[o]); sc.back().fs.push_back(o); return ""; }
    switch (o) {
      case kAddList: s.AddFormulas({w.pool[2], w.pool[3]}); sc.back().fs.push_back(2); sc.back().fs.push_back(3); return "";
      case kPush: s.Push(); sc.emplace_back(); return "";
      case kPop: s.Pop(); sc.pop_back(); return "";
      case kCheck: return Check(&sat, &al, &th, &l, &tl);
      case kCheckBlock: {
        std::string e = Check(&sat, &al, &th, &l, &tl);
        if (e.empty() && sat && !l.empty()) { s.AddLearnedClause(l); sc.back().blocked.push_back(al); }
        return e;
      }
      case kBlockTheory: {
        std::string e = Check(&sat, &al, &th, &l, &tl);
        if (e.empty() && sat && !tl.empty()) { s.AddLearnedClause(tl); sc.back().blocked.push_back(th); }
        return e;
      }
    }
    return "";
  }
  // enumerate to the end
  std::string Finish(uint64_t* n) {
    for (int k = 0; k < 40; ++k) {
      bool sat; Cube al, th; std::set<Formula> l, tl;
      std::string e = Check(&sat, &al, &th, &l, &tl);
      ++*n;
      if (!e.empty()) return e;
      if (!sat) return "";
      if (l.empty()) return "";  // everything is true
      s.AddLearnedClause(l);
      sc.back().blocked.push_back(al);
    }
    return "the enumeration does not end";
  }
};
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const int depth = d.thorough ? 6 : 5;
  const auto w = std::make_shared<World>();
  std::vector<int> ops;
  for (size_t i = 0; i < w->pool.size(); ++i) ops.push_back(i);
  for (int o : {kCheckBlock, kCheck, kPush, kPop, kBlockTheory, kAddList}) ops.push_back(o);
  const int O = ops.size();
  struct Cf { Config c; std::string n; };
  std::vector<Cf> cfs;
  for (int ph = 0; ph < 3; ++ph) {
    Config c;
    using P = Config::SatDefaultPhase;
    c.mutable_sat_default_phase().set_from_command_line(ph == 0 ? P::JeroslowWang : ph == 1 ? P::False : P::True);
    if (ph == 2) c.mutable_random_seed().set_from_command_line(7);
    cfs.push_back({c, vf::Cat("phase ", ph)});
  }
  const int C = cfs.size();
  // unit = first two operations and a configuration
  d.Add("histories", O * O * C, [=](int64_t u, vf::Ctx& c) {
    const Cf& cf = cfs[u % C];
    const int f0 = u / C / O, f1 = u / C % O;
    std::vector<int> h;
    std::function<void()> rec = [&] {
      int open = 0, adds = 0;
      for (int i : h) {
        if (ops[i] == kPush) ++open;
        if (ops[i] == kPop && --open < 0) return;
        if (ops[i] < 100 || ops[i] == kAddList) ++adds;
      }
      if (h.size() >= 2) {
        // the other configurations follow the default one to a lesser depth
        auto name = [&] { std::string s; for (int i : h) s += (s.empty() ? "" : "; ") + OpName(ops[i]); return s + " (" + cf.n + ")"; };
        c.Note(name());
        Run r{*w, cf.c};
        std::string e;
        for (int i : h) { e = r.Step(ops[i]); ++c.transitions; if (!e.empty()) break; }
        if (e.empty()) e = r.Finish(&c.evals);
        if (e.empty() && open) {  // and after leaving the scopes again
          r.s.Pop(); r.sc.pop_back();
          e = r.Finish(&c.evals);
          if (!e.empty()) e = "after a further pop: " + e;
        }
        ++c.traces;
        if (adds) ++c.nontrivial;
        if (!e.empty()) c.Fail(e, vf::Cat(name(), ": ", e));
        const auto act = r.Active();
        c.State(vf::Cat(open, std::string(act.begin(), act.end()), r.ActiveAtoms()));
        c.Outcome(vf::Cat(open, r.sc.back().blocked.size()));
        if (h.size() == 2) c.Sample(name());
      }
      if (static_cast<int>(h.size()) >= (u % C ? depth - 1 : depth)) return;
      for (int i = 0; i < O; ++i) { h.push_back(i); rec(); h.pop_back(); }
    };
    h = {f0, f1};
    rec();
  });
  d.rule = "an assignment is reported exactly when a valuation of the atoms satisfies what is asserted in open scopes and is not blocked; the literals reported imply every asserted formula; blocking each ends exactly when all are covered; popped formulas, clauses and atoms have no influence";
  d.bounds = {vf::Cat("histories of length ", depth, " over ", O, " operations (", w->pool.size(), " formulas over 2 Boolean variables and 3 constraints), each followed by complete enumeration"), "two more solver settings one step less deep"};
  return d.Run();
}
