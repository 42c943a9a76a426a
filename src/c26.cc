// BUILD: full
// C26: after every history of declaring, asserting, pushing, popping, changing
// bounds and checking, a check answers for exactly the scopes still open.
#include "dreal/solver/context.h"
#include "problems.h"
using namespace dreal;
using prob::P;
namespace {
enum { kPush, kPop, kCheck, kWide, kHigh, kNone, kDeclare, kAssert };
struct Scope {
  double xl, xu;
  double yl{-2};
  std::vector<int> fs;
  int z{0};  // which z is declared, if any
  bool none{false};  // y in [1, 0]
};
struct State {
  std::vector<Scope> sc{{-2, 3}};
};
struct Cfg { std::string name; double delta; bool poly, wl; int phase; };
const std::vector<Cfg> kC{{"0.1", 0.1, false, false, -1}, {"0.01 polytope worklist phase true", 0.01, true, true, 1}};
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const prob::Vars v;
  static const Variable z1{"z"}, z2{"z"};
  static std::vector<Formula> raw;
  static std::vector<P> fs;
  {
    const Expression x{v.x}, y{v.y}, n{v.n};
    const Formula b{v.b};
    raw = {x + y == 1, x * y <= -0.5 || b, !b, y >= 1.5, n >= 1 && 2 * n == y, pow(x, 2) + pow(y, 2) <= 1, Formula::False(),
           if_then_else(x > 0.25, y, -y) >= 0.75, dreal::imply(b, x * y == 1), y <= 1, x * y <= -0.5, b, exp(x) <= 1.5, x <= 0};
    for (auto& f : raw) fs.push_back(prob::Mk(f));
  }
  const int NF = raw.size();
  // the last operation asserts a constraint on the declared z
  const int kZ = kAssert + NF, NO = kZ + 1;
  auto name = [=](int o) {
    switch (o) { case kPush: return std::string("push"); case kPop: return std::string("pop"); case kCheck: return std::string("check"); case kWide: return std::string("x, y in [-2, 3]"); case kNone: return std::string("y in [1, 0]"); case kHigh: return std::string("x in [0.75, 3]"); case kDeclare: return std::string("declare z in [0, 1]"); }
    return o == kZ ? std::string("assert z == x") : vf::Cat("assert ", raw[o - kAssert]);
  };
  auto make = [](const Cfg& k) {
    Config c;
    c.mutable_precision() = k.delta;
    c.mutable_use_polytope() = k.poly;
    c.mutable_use_worklist_fixpoint() = k.wl;
    if (k.phase == 1) c.mutable_sat_default_phase() = Config::SatDefaultPhase::True;
    return c;
  };
  auto run = [=](vf::Ctx& c, const std::vector<int>& h, const Cfg& k) {
    State s;
    std::string hist = vf::Cat("precision ", k.name, ": declare x, y, n, b");
    for (int o : h) hist += "; " + name(o);
    c.Note(hist);
    Context ctx{make(k)};
    ctx.DeclareVariable(v.x, -2, 3);
    ctx.DeclareVariable(v.y, -2, 3);
    ctx.DeclareVariable(v.n, -1, 3);
    ctx.DeclareVariable(v.b);
    int zs = 0;
    auto fail = [&](const std::string& m) { c.Fail(hist.substr(0, 300), vf::Cat(hist, ": ", m)); };
    for (size_t i = 0; i <= h.size(); ++i) {
      const int o = i < h.size() ? h[i] : kCheck;
      Scope& t = s.sc.back();
      ++c.transitions;
      switch (o) {
        case kPush: { ctx.Push(1); const Scope top = t; s.sc.push_back(top); break; }
        case kPop: ctx.Pop(1); s.sc.pop_back(); break;
        case kWide: ctx.SetInterval(v.x, -2, 3); ctx.SetInterval(v.y, -2, 3); t.xl = -2; t.xu = 3; t.none = false; break;
        case kNone: ctx.SetInterval(v.y, 1, 0); t.none = true; break;
        case kHigh: ctx.SetInterval(v.x, 0.75, 3); t.xl = 0.75; t.xu = 3; break;
        case kDeclare: ++zs; t.z = zs & 1 ? 1 : 2; ctx.DeclareVariable(t.z == 1 ? z1 : z2, 0, 1); break;
        case kCheck: {
          const optional<Box> r = ctx.CheckSat();
          ++c.traces;
          const prob::Bounds q{"", t.xl, t.xu, -2, 3, -1, 3};
          std::vector<const P*> open;
          bool usez = false, no = false;
          prob::Bits w = prob::Within(q);
          for (int f : t.fs) {
            if (f == kZ) { usez = true; continue; }
            if (is_false(raw[f - kAssert])) no = true;
            open.push_back(&fs[f - kAssert]);
            w = prob::AndB(w, fs[f - kAssert].t);
          }
          if (usez) w = prob::AndB(w, prob::Within({"", 0, 1, -2, 3, -1, 3}));
          ++c.evals;
          if (!r) {
            const int p = prob::First(w);
            if (p >= 0 && !t.none) return fail(vf::Cat("unsatisfiable, though ", prob::Pt(p), " satisfies everything in force"));
            if (!ctx.get_model().empty()) return fail("unsatisfiable, yet a model is kept");
          } else {
            ++c.nontrivial;
            if (no) return fail("satisfiable, though false is in force");
            if (t.none) return fail("satisfiable over an empty domain");
            const std::string e = prob::ModelError(*r, v, open, &q, k.delta);
            if (!e.empty()) return fail(e);
            if (ctx.get_model() != *r) return fail("the model kept is another one");
            // exactly the declared variables
            const int want = 4 + (t.z ? 1 : 0);
            if (r->size() != want) return fail(vf::Cat("model over other variables than the declared: ", prob::BoxStr(*r)));
            for (int j = 0; j < r->size(); ++j) {
              bool ok = t.z && r->variable(j).equal_to(t.z == 1 ? z1 : z2);
              for (const Variable& u : {v.x, v.y, v.n, v.b}) ok = ok || r->variable(j).equal_to(u);
              if (!ok) return fail(vf::Cat("model over a variable not in scope: ", prob::BoxStr(*r)));
            }
            if (t.z) {
              const Box::Interval zi = (*r)[t.z == 1 ? z1 : z2];
              if (zi.lb() < 0 || zi.ub() > 1) return fail(vf::Cat("z outside its bounds: ", prob::BoxStr(*r)));
              if (usez && std::fabs(zi.mid() - (*r)[v.x].mid()) > k.delta * 1.001) return fail(vf::Cat("z differs from x: ", prob::BoxStr(*r)));
            }
          }
          // a context which never saw anything else
          if (i == h.size()) {
            Context fresh{make(k)};
            fresh.DeclareVariable(v.x, t.xl, t.xu);
            fresh.DeclareVariable(v.y, t.none ? 1 : -2, t.none ? 0 : 3);
            fresh.DeclareVariable(v.n, -1, 3);
            fresh.DeclareVariable(v.b);
            if (t.z) fresh.DeclareVariable(t.z == 1 ? z1 : z2, 0, 1);
            for (int f : t.fs) fresh.Assert(f == kZ ? (t.z == 1 ? z1 : z2) == v.x : raw[f - kAssert]);
            const bool want = static_cast<bool>(fresh.CheckSat());
            if (want != static_cast<bool>(r)) return fail(want ? "unsatisfiable, though satisfiable in a fresh context" : "satisfiable, though unsatisfiable in a fresh context");
            const bool again = static_cast<bool>(ctx.CheckSat());
            if (again != want) return fail("another answer when asked again");
            std::string st = vf::Cat(t.xl, t.z, t.none, s.sc.size());
            for (int f : t.fs) st += vf::Cat(" ", f);
            c.State(st);
            c.Outcome(vf::Cat(st, want));
          }
          break;
        }
        default:
          t.fs.push_back(o == kZ ? kZ : o);
          ctx.Assert(o == kZ ? (t.z == 1 ? z1 : z2) == v.x : raw[o - kAssert]);
      }
    }
  };
  // may operation o follow, given the nesting and the declaration per scope?
  struct Sh { std::vector<char> z; int checks; };
  auto valid = [=](const std::vector<int>& h) {
    std::vector<char> z{0};
    for (size_t i = 0; i < h.size(); ++i) {
      const int o = h[i];
      if (o == kPush) z.push_back(z.back());
      else if (o == kPop) { if (z.size() == 1) return false; z.pop_back(); if (h[i - 1] == kPush) return false; }
      else if (o == kDeclare) { if (z.back()) return false; z.back() = 1; }
      else if (o == kZ && !z.back()) return false;
      else if (o == kCheck && i && h[i - 1] == kCheck) return false;
    }
    return true;
  };
  auto all = [=](int pre_n, int len, const std::vector<int>& ops) {
    return [=](int64_t u, vf::Ctx& c) {
      const int B = ops.size();
      std::vector<int> h;
      for (int i = 0; i < pre_n; ++i) { h.push_back(ops[u % B]); u /= B; }
      if (!valid(h)) return;
      std::vector<int> idx(len - pre_n, 0);
      while (true) {
        std::vector<int> g = h;
        for (int i : idx) g.push_back(ops[i]);
        if (valid(g) && (g.empty() || (g.back() != kCheck && g.back() != kPush)))
          for (size_t k = 0; k < kC.size(); ++k) run(c, g, kC[k]);
        size_t i = 0;
        while (i < idx.size() && ++idx[i] == B) idx[i++] = 0;
        if (i == idx.size()) break;
      }
    };
  };
  std::vector<int> ops;
  for (int i = 0; i < NO; ++i) ops.push_back(i);
  const int full = d.thorough ? 5 : 4;
  for (int len = 1; len <= full; ++len) {
    const int pre = std::min(len, 2);
    d.Add(vf::Cat("histories of ", len), pre == 1 ? NO : NO * NO, all(pre, len, ops), 600);
  }
  // fewer constraints, longer
  auto A = [](int i) { return kAssert + i; };
  const std::vector<std::vector<int>> subs{
      {kPush, kPop, kCheck, A(0), A(3), A(5)}, {kPush, kPop, kCheck, kWide, kHigh, A(12)}, {kPush, kCheck, kWide, kHigh, A(13), A(9)}, {kPop, kPush, kCheck, kHigh, A(12), A(13)}, {kPush, kPop, kCheck, kDeclare, kZ, A(10)}, {kPush, kPop, kCheck, A(1), A(2), A(8)},
      {kPush, kPop, kCheck, A(6), kDeclare, kWide}, {kPush, kPop, kCheck, A(7), kDeclare, A(9)}, {kPush, kPop, kCheck, A(4), A(11), A(8)}};
  const int L = d.thorough ? 8 : 7;
  for (size_t i = 0; i < subs.size(); ++i)
    d.Add(vf::Cat("histories of ", L, ", choice ", i), 216, all(3, L, subs[i]), 600);
  d.rule = "unsatisfiable only if no grid point satisfies everything in force; a model satisfies it within the precision, over exactly the variables in scope; the same answer as a fresh context, and again when repeated";
  d.bounds = {vf::Cat("histories of at most ", full, " operations out of ", NO, ", of ", L, " out of 6; ", kC.size(), " configurations")};
  return d.Run();
}
