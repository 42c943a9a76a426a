// C24: sorts, logics, commands and terms, over all names near the known ones
// and all pairs of small terms.
#include <sstream>
#include "dreal/smt2/command.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
#include "uni.h"
using namespace uni;  // NOLINT
using dreal::Logic;
using dreal::Sort;
using dreal::Term;

static std::vector<std::string> Mutants(const std::vector<std::string>& names) {
  const std::string alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_- .";
  std::set<std::string> s{"", " "};
  for (const auto& n : names) {
    s.insert(n);
    for (size_t i = 0; i <= n.size(); ++i) {
      s.insert(n.substr(0, i));
      s.insert(n.substr(i));
      for (char c : alpha) s.insert(n.substr(0, i) + c + n.substr(i));
      if (i == n.size()) break;
      s.insert(n.substr(0, i) + n.substr(i + 1));
      for (char c : alpha) s.insert(n.substr(0, i) + c + n.substr(i + 1));
      if (i + 1 < n.size()) { std::string t = n; std::swap(t[i], t[i + 1]); s.insert(t); }
    }
    for (const auto& m : names) s.insert(n + m);
    std::string lo = n, up = n;
    for (auto& c : lo) c = tolower(c);
    for (auto& c : up) c = toupper(c);
    s.insert(lo);
    s.insert(up);
  }
  for (char a : alpha) { s.insert(std::string(1, a)); for (char b : alpha) { s.insert(std::string{a, b}); } }
  return {s.begin(), s.end()};
}
template <class T>
static std::string P(const T& x) { std::ostringstream o; o << x; return o.str(); }

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* b : {"x", "y"}) VV().New(b, Variable::Type::CONTINUOUS);
  VV().New("i", Variable::Type::INTEGER);
  VV().New("k", Variable::Type::BINARY);
  VV().New("b", Variable::Type::BOOLEAN);
  VV().New("c", Variable::Type::BOOLEAN);
  const int kN = 6;
  std::vector<std::pair<std::string, Sort>> sorts{{"Real", Sort::Real}, {"Int", Sort::Int}, {"Bool", Sort::Bool}, {"Binary", Sort::Binary}};
  std::vector<std::pair<std::string, Logic>> logics{{"ALL", Logic::ALL}, {"QF_LIA", Logic::QF_LIA}, {"QF_LIRA", Logic::QF_LIRA}, {"QF_LRA", Logic::QF_LRA}, {"QF_NIA", Logic::QF_NIA}, {"QF_NIAT", Logic::QF_NIAT}, {"QF_NIRA", Logic::QF_NIRA}, {"QF_NIRAT", Logic::QF_NIRAT}, {"QF_NRA", Logic::QF_NRA}, {"QF_NRAT", Logic::QF_NRAT}, {"QF_RDL", Logic::QF_RDL}};
  std::vector<std::string> ns, nl;
  for (auto& p : sorts) ns.push_back(p.first);
  for (auto& p : logics) nl.push_back(p.first);
  const auto ms = Mutants(ns), ml = Mutants(nl);
  d.rule = "case = one name, command or (term, operation) pair; names against the tables, printed commands against the standard's syntax, terms against the expression or formula they were built from";
  d.bounds = {vf::Cat(ms.size(), " sort names and ", ml.size(), " logic names (every one-edit neighbour of a known name)")};
  d.Add("sorts", 1, [&](int64_t, vf::Ctx& c) {
    const Variable::Type T[] = {Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BOOLEAN, Variable::Type::BINARY};
    for (auto& s : ms) {
      c.Note(s);
      ++c.transitions;
      ++c.evals;
      int want = -1, got = -1;
      for (size_t i = 0; i < sorts.size(); ++i) if (sorts[i].first == s) want = i;
      try {
        const Sort r = dreal::ParseSort(s);
        for (size_t i = 0; i < sorts.size(); ++i) if (sorts[i].second == r) got = i;
      } catch (const std::runtime_error&) {}
      if (want != got) c.Fail("sort " + s, "ParseSort(\"" + s + "\") is wrong");
      if (want >= 0) ++c.nontrivial;
      ++c.traces;
    }
    for (int i = 0; i < 4; ++i) {
      if (P(sorts[i].second) != sorts[i].first) c.Fail("sort print " + sorts[i].first, "sort prints as " + P(sorts[i].second));
      if (dreal::SortToType(sorts[i].second) != T[i]) c.Fail("sort type " + sorts[i].first, "SortToType(" + sorts[i].first + ") is wrong");
      c.State(sorts[i].first);
      c.Sample(sorts[i].first);
    }
  });
  d.Add("logics", 1, [&](int64_t, vf::Ctx& c) {
    for (auto& s : ml) {
      c.Note(s);
      ++c.transitions;
      ++c.evals;
      int want = -1, got = -1;
      for (size_t i = 0; i < logics.size(); ++i) if (logics[i].first == s) want = i;
      try {
        const Logic r = dreal::parse_logic(s);
        for (size_t i = 0; i < logics.size(); ++i) if (logics[i].second == r) got = i;
      } catch (const std::runtime_error&) {}
      if (want != got) c.Fail("logic " + s, "parse_logic(\"" + s + "\") is wrong");
      ++c.traces;
    }
    for (auto& l : logics) {
      if (P(l.second) != l.first) c.Fail("logic print " + l.first, "logic prints as " + P(l.second));
      c.State(l.first);
      const std::string w = "(set-logic " + l.first + ")";
      if (P(dreal::set_logic_command(l.second)) != w) c.Fail("cmd " + w, "command prints as " + P(dreal::set_logic_command(l.second)));
    }
  });
  d.Add("commands", 1, [&](int64_t, vf::Ctx& c) {
    auto ck = [&](const dreal::Command& m, const std::string& w) {
      ++c.transitions;
      ++c.evals;
      ++c.traces;
      const dreal::Command copy(m);
      if (P(m) != w || P(copy) != w) c.Fail("cmd " + w, "command prints as " + P(m) + ", expected " + w);
      c.State(w);
    };
    ck(dreal::check_sat_command(), "(check-sat)");
    ck(dreal::exit_command(), "(exit)");
    ck(dreal::reset_command(), "(reset)");
    for (int i : {0, 1, 2, 17, 2147483647}) { ck(dreal::push_command(i), vf::Cat("(push ", i, ")")); ck(dreal::pop_command(i), vf::Cat("(pop ", i, ")")); }
    for (auto& k : {":precision", ":status", ""}) for (auto& v : {"0.001", "sat", "true", ""}) {
      ck(dreal::set_info_command(k, v), vf::Cat("(set-info ", k, " ", v, ")"));
      ck(dreal::set_option_command(k, v), vf::Cat("(set-option ", k, " ", v, ")"));
    }
    for (const Formula& f : {Formula::True(), Formula(VV().v[4]), VV().v[0] < VV().v[1], VV().v[0] < 1.0 && Formula(VV().v[4])}) ck(dreal::assert_command(f), "(assert " + P(f) + ")");
  });
  // terms
  const NP x = ref::V(0), y = ref::V(1), iv = ref::V(2), kv = ref::V(3), b = ref::V(4, true), cc = ref::V(5, true);
  auto B = [](Op o, NP p, NP q) { return ref::Mk(o, {std::move(p), std::move(q)}); };
  std::vector<NP> E{x, y, iv, kv, ref::C(0), ref::C(2.5), B(Op::kAdd, x, y), B(Op::kMul, x, iv), B(Op::kPow, x, ref::C(2)), ref::Mk(Op::kSin, {x}), ref::Mk(Op::kIte, {b, x, kv}), ref::Mk(Op::kIte, {B(Op::kLt, x, y), iv, ref::C(1)}), B(Op::kDiv, y, ref::C(3)), B(Op::kMin, x, kv)};
  for (const NP& q : {b, B(Op::kOr, b, cc), B(Op::kAnd, cc, B(Op::kLt, x, y))}) {
    const NP t = ref::Mk(Op::kIte, {q, x, B(Op::kAdd, iv, ref::C(1))});
    E.push_back(B(Op::kAdd, ref::C(1), t));
    E.push_back(B(Op::kMul, y, t));
    E.push_back(ref::Mk(Op::kCos, {t}));
    E.push_back(B(Op::kMax, t, y));
    E.push_back(ref::Mk(Op::kIte, {B(Op::kLt, t, y), kv, t}));
  }
  std::vector<NP> F{ref::Mk(Op::kTrue), ref::Mk(Op::kFalse), b, cc, ref::Mk(Op::kNot, {b}), B(Op::kLt, x, y), B(Op::kEq, iv, kv), B(Op::kAnd, b, B(Op::kGe, x, ref::C(0))), B(Op::kOr, ref::Mk(Op::kNot, {cc}), b), ref::Mk(Op::kNot, {B(Op::kEq, B(Op::kAdd, x, iv), y)}), B(Op::kLe, ref::Mk(Op::kIte, {cc, x, y}), kv)};
  for (const NP& q : {b, ref::Mk(Op::kNot, {cc})}) {
    const NP t = B(Op::kAdd, ref::C(1), ref::Mk(Op::kIte, {q, x, y}));
    F.push_back(B(Op::kLt, t, kv));
    F.push_back(B(Op::kOr, B(Op::kGe, B(Op::kMul, t, iv), x), B(Op::kAnd, cc, B(Op::kLt, x, y))));
    F.push_back(ref::Mk(Op::kNot, {B(Op::kAnd, b, B(Op::kEq, t, iv))}));
  }
  std::vector<NP> T = E;
  T.insert(T.end(), F.begin(), F.end());
  const size_t ne = E.size();
  const auto grid = Grid({{0, {-1, 0.5}}, {1, {-2, 1.5}}, {2, {-1, 3}}, {3, {0, 1}}, {4, {0, 1}}, {5, {0, 1}}});
  std::vector<Environment> env;
  for (auto& g : grid) env.push_back(ToEnv(g, kN));
  // value of a term at grid point i: expression value, or 0/1
  auto val = [&](const Term& t, size_t i) { return t.type() == Term::Type::EXPRESSION ? t.expression().Evaluate(env[i]) : double{t.formula().Evaluate(env[i])}; };
  auto mk = [&](size_t i) { return i < ne ? Term(BuildE(T[i])) : Term(BuildF(T[i])); };
  d.Add("terms", T.size(), [&](int64_t u, vf::Ctx& c) {
    const bool isE = static_cast<size_t>(u) < ne;
    const std::string id = ref::Str(T[u]);
    c.Note(id);
    const Term t = mk(u);
    c.State(id);
    c.Sample(id);
    auto same = [&](const Term& q, const std::string& how) {
      ++c.evals;
      if ((q.type() == Term::Type::EXPRESSION) != isE) { c.Fail("kind " + how + id, how + id + " has the wrong kind"); return; }
      if (isE ? !q.expression().EqualTo(BuildE(T[u])) : !q.formula().EqualTo(BuildF(T[u]))) c.Fail("content " + how + id, how + id + " holds something else");
      bool thrown = false;
      try { if (isE) q.formula(); else q.expression(); } catch (const std::runtime_error&) { thrown = true; }
      if (!thrown) c.Fail("wrong access " + how + id, how + id + " can be read as the other kind");
      thrown = false;
      Term m(q);
      try { if (isE) m.mutable_formula(); else m.mutable_expression(); } catch (const std::runtime_error&) { thrown = true; }
      if (!thrown) c.Fail("wrong mutable access " + how + id, how + id + " can be modified as the other kind");
      if (P(q) != (isE ? P(BuildE(T[u])) : P(BuildF(T[u])))) c.Fail("print " + how + id, how + id + " prints as " + P(q));
    };
    same(t, "");
    for (size_t o = 0; o < T.size(); ++o) {  // assignment over a term of any kind
      ++c.transitions;
      Term a = mk(o), b2 = mk(o), c2 = mk(o), keep = mk(o);
      const Term other = a;
      a = t;
      same(a, "copy-assigned over " + ref::Str(T[o]) + " ");
      if (isE) b2 = BuildE(T[u]); else b2 = BuildF(T[u]);
      same(b2, "assigned over " + ref::Str(T[o]) + " ");
      Term mv = mk(u);
      c2 = std::move(mv);
      same(c2, "move-assigned over " + ref::Str(T[o]) + " ");
      if (P(other) != P(keep)) c.Fail("alias " + id + ref::Str(T[o]), "assigning to a term changed another");
      if ((o < ne) == isE) {
        Term m = mk(o);
        const Term before = m;
        if (isE) m.mutable_expression() = BuildE(T[u]); else m.mutable_formula() = BuildF(T[u]);
        same(m, "mutated from " + ref::Str(T[o]) + " ");
        if (P(before) != P(keep)) c.Fail("alias2 " + id + ref::Str(T[o]), "changing a term through its mutable access changed a copy");
      }
      ++c.traces;
    }
    // acceptance
    auto acc = [&](auto s) { try { t.Check(s); return true; } catch (const std::runtime_error&) { return false; } };
    for (auto& s : sorts) {
      ++c.transitions;
      ++c.evals;
      if (acc(s.second) != (isE == (s.second != Sort::Bool))) c.Fail("sort check " + id + s.first, id + " at sort " + s.first + ": wrong verdict");
      const Variable::Type vt = dreal::SortToType(s.second);
      if (acc(vt) != (isE == (vt != Variable::Type::BOOLEAN))) c.Fail("type check " + id + s.first, id + " at type of " + s.first + ": wrong verdict");
    }
    // substitution of an equal-sorted term
    for (int v = 0; v < kN; ++v)
      for (size_t o = 0; o < T.size(); ++o) {
        if ((o < ne) != (v < 4)) continue;
        ++c.transitions;
        ++c.nontrivial;
        const std::string sid = id + "[" + ref::VarNames()[v] + ":=" + ref::Str(T[o]) + "]";
        c.Note(sid);
        Term q = mk(u);
        const Term r = q.Substitute(VV().v[v], mk(o));
        if ((r.type() == Term::Type::EXPRESSION) != isE) { c.Fail("subst kind " + sid, sid + " changes the kind of the term"); continue; }
        same(q, "after substitution " + sid + " ");
        for (size_t i = 0; i < grid.size(); ++i) {
          ref::Env e = grid[i], e2 = grid[i];
          double w;
          if (o < ne) { const ref::FV rv = ref::EvalE(T[o], e); if (rv.s != ref::St::Def) continue; w = rv.lo; }
          else w = ref::EvalF(T[o], e) == ref::Tri::T;
          e2.v[v] = w;
          ++c.evals;
          if (isE) {
            const ref::FV rv = ref::EvalE(T[u], e2);
            if (rv.s != ref::St::Def) continue;
            if (!ref::Accept(rv, val(r, i))) { c.Fail("subst " + sid, vf::Cat(sid, " gives ", r)); break; }
          } else {
            const ref::Tri tv = ref::EvalF(T[u], e2);
            if (tv != ref::Tri::T && tv != ref::Tri::F) continue;
            if (val(r, i) != (tv == ref::Tri::T)) { c.Fail("subst " + sid, vf::Cat(sid, " gives ", r)); break; }
          }
        }
        ++c.traces;
      }
  });
  d.Add("default", 1, [&](int64_t, vf::Ctx& c) {
    ++c.transitions;
    const Term t;
    if (t.type() != Term::Type::FORMULA || !dreal::is_false(t.formula())) c.Fail("default", "a default term is not false");
    ++c.traces;
  });
  return d.Run();
}
