// BUILD: full
// C25: an unsatisfiable answer leaves no point, a satisfiable one a model.
#include <cmath>
#include <cstring>
#include <functional>
#include <sstream>
#include "dreal/api/api.h"
#include "dreal/solver/context.h"
#include "problems.h"
using namespace dreal;
using prob::P;
namespace {
struct Cfg { std::string name; double delta; bool poly{false}, wl{false}, left{false}; int phase{-1}; };
std::vector<Cfg> Cfgs() {
  return {{"0.1", 0.1}, {"0.001", 0.001}, {"0.1 polytope", 0.1, true}, {"0.1 worklist", 0.1, false, true}, {"0.1 left first", 0.1, false, false, true},
          {"0.1 phase true", 0.1, false, false, false, 1}, {"0.01 polytope worklist left phase false", 0.01, true, true, true, 0}, {"0.5", 0.5}};
}
Config MkCfg(const Cfg& k) {
  Config c;
  c.mutable_precision() = k.delta;
  c.mutable_use_polytope() = k.poly;
  c.mutable_use_worklist_fixpoint() = k.wl;
  c.mutable_stack_left_box_first() = k.left;
  if (k.phase == 0) c.mutable_sat_default_phase() = Config::SatDefaultPhase::False;
  if (k.phase == 1) c.mutable_sat_default_phase() = Config::SatDefaultPhase::True;
  return c;
}
const std::vector<prob::Bounds> kB{
    {"wide", -2, 3, -2, 3, -1, 3}, {"narrow", 0, 1, -1, 0.5, 0, 2}, {"x unbounded", -prob::kInf, prob::kInf, -2, 3, -1, 3, true}, {"point", 0.5, 0.5, -1, 1, 1, 1}, {"fractional", -1.75, 0.25, 0.25, 2.75, 0, 1}};
struct Case { std::vector<const P*> fs; };
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const prob::Vars v;
  static const std::vector<P> fs = prob::Formulas(v);
  static std::vector<prob::Bits> within;
  for (auto& b : kB) within.push_back(prob::Within(b));
  const auto cfgs = Cfgs();
  const int NF = fs.size(), NC = cfgs.size();
  // one problem: the answer, or what is wrong with it
  auto judge = [=](vf::Ctx& c, const std::string& what, const std::vector<const P*>& cs, const prob::Bounds& q, const prob::Bits& w, double delta, const optional<Box>& r) {
    ++c.traces;
    std::string t;
    for (auto* p : cs) t += vf::Cat(" [", p->f, "]");
    if (!r) {
      prob::Bits s = w;
      for (auto* p : cs) s = prob::AndB(s, p->t);
      c.evals += prob::Count(w);
      const int k = prob::First(s);
      if (k >= 0) c.Fail(vf::Cat("unsat", t), vf::Cat(what, t, ": unsatisfiable, though ", prob::Pt(k), " satisfies everything"));
    } else {
      ++c.evals;
      const std::string e = prob::ModelError(*r, v, cs, &q, delta);
      if (!e.empty()) c.Fail(vf::Cat("model", t), vf::Cat(what, t, ": ", e));
      ++c.nontrivial;
    }
    c.Outcome(vf::Cat(static_cast<bool>(r), q.name, t));
  };
  auto declare = [](Context* ctx, const prob::Bounds& q) {
    if (std::isinf(q.xl)) ctx->DeclareVariable(v.x); else ctx->DeclareVariable(v.x, q.xl, q.xu);
    ctx->DeclareVariable(v.y, q.yl, q.yu);
    ctx->DeclareVariable(v.n, q.nl, q.nu);
    ctx->DeclareVariable(v.b);
  };
  // pairs of formulas, asserted one after the other
  const int nb = kB.size(), nc = NC;
  d.Add("pairs of constraints", NF * NF, [=](int64_t u, vf::Ctx& c) {
    const P &f = fs[u / NF], &g = fs[u % NF];
    for (int b = 0; b < nb; ++b) {
      // a search over an unbounded dimension need not end in practice
      if (kB[b].skip_x && u / NF != u % NF) continue;
      for (int k = 0; k < nc; ++k) {
        const int cf = k;
        const std::string what = vf::Cat("bounds ", kB[b].name, ", precision ", cfgs[cf].name, ":");
        c.Note(vf::Cat(what, " [", f.f, "] [", g.f, "]"));
        Context ctx{MkCfg(cfgs[cf])};
        declare(&ctx, kB[b]);
        ctx.Assert(f.f);
        ctx.Assert(g.f);
        c.transitions += 3;
        judge(c, what, {&f, &g}, kB[b], within[b], cfgs[cf].delta, ctx.CheckSat());
      }
    }
    c.State(vf::Cat(u));
  });
  // one formula, asked through the interface with the bounds as constraints
  static std::vector<std::vector<P>> bp;
  for (auto& q : kB) {
    std::vector<P> l;
    const Formula X = std::isinf(q.xl) ? Formula::True() : q.xl <= v.x && v.x <= q.xu;
    for (const Formula& f : {X, q.yl <= v.y && v.y <= q.yu, q.nl <= v.n && v.n <= q.nu}) l.push_back(prob::Mk(f));
    bp.push_back(l);
  }
  d.Add("through the interface", NF * NF, [=](int64_t u, vf::Ctx& c) {
    const P &f = fs[u / NF], &g = fs[u % NF];
    if (u / NF > u % NF) return;
    for (size_t b = 0; b < kB.size(); ++b) {
      if (b == 2) continue;
      const int cf = (u + b) % NC;
      const std::string what = vf::Cat("bounds ", kB[b].name, ", precision ", cfgs[cf].name, ", one conjunction:");
      c.Note(vf::Cat(what, " [", f.f, "] [", g.f, "]"));
      const Formula all = f.f && bp[b][0].f && bp[b][1].f && g.f && bp[b][2].f;
      ++c.transitions;
      judge(c, what, {&f, &g, &bp[b][0], &bp[b][1], &bp[b][2]}, {"", -prob::kInf, prob::kInf, -prob::kInf, prob::kInf, -prob::kInf, prob::kInf}, within[b], cfgs[cf].delta, CheckSatisfiability(all, MkCfg(cfgs[cf])));
    }
  });
  d.Add("triples of constraints", NF * NF, [=](int64_t u, vf::Ctx& c) {
      const int i = u / NF, j = u % NF;
      if (i >= j) return;
      for (int k = j + 1; k < NF; ++k) {
       for (int rep = 0; rep < (d.thorough ? 8 : 1); ++rep) {
        const int cf = (i + j + k + rep) % NC, b0 = (i + 2 * j + k + 2 * rep) % kB.size(), b = kB[b0].skip_x ? 0 : b0;
        const std::string what = vf::Cat("bounds ", kB[b].name, ", precision ", cfgs[cf].name, ":");
        c.Note(vf::Cat(what, " [", fs[i].f, "] [", fs[j].f, "] [", fs[k].f, "]"));
        Context ctx{MkCfg(cfgs[cf])};
        declare(&ctx, kB[b]);
        for (int l : {k, i, j}) ctx.Assert(fs[l].f);
        c.transitions += 4;
        judge(c, what, {&fs[i], &fs[j], &fs[k]}, kB[b], within[b], cfgs[cf].delta, ctx.CheckSat());
       }
      }
    }, 300);
  // integers far from zero: ranges at and beyond those of machine integers
  struct W { const char* name; double lo, hi; };
  static const double big = 9007199254740992.0;
  static const W ws[] = {{"int", -2147483647, 2147483647}, {"above 3e9", 3e9, 3e9 + 4}, {"below -3e9", -3e9 - 4, -3e9}, {"to 1e10", 0, 1e10}, {"both 1e10", -1e10, 1e10}, {"around 2^31", 2147483646, 2147483649},
                         {"around -2^31", -2147483650, -2147483646}, {"all exact", -big, big}, {"above 2^32", 4294967290, 4294967300}, {"not below 5", 5, prob::kInf}, {"not above -5", -prob::kInf, -5}, {"undeclared", -2147483647, 2147483647},
                         {"around 2^62", 4611686018427387904.0, 4611686018427388928.0}, {"small", -3, 4}};
  struct R { Formula f; std::function<bool(double, double)> t; std::function<double(double, double)> off; };
  static const Variable n{"N", Variable::Type::INTEGER}, m{"M", Variable::Type::INTEGER};
  static const std::vector<R> rs{
      {n >= 5, [](double a, double) { return a >= 5; }, [](double a, double) { return 5 - a; }},
      {n >= 2147483648.0, [](double a, double) { return a >= 2147483648.0; }, [](double a, double) { return 2147483648.0 - a; }},
      {n <= -2147483649.0, [](double a, double) { return a <= -2147483649.0; }, [](double a, double) { return a + 2147483649.0; }},
      {n > 2147483647.0, [](double a, double) { return a > 2147483647.0; }, [](double a, double) { return 2147483647.0 - a; }},
      {n == 3e9 + 1, [](double a, double) { return a == 3e9 + 1; }, [](double a, double) { return std::fabs(a - 3e9 - 1); }},
      {n == 2 * m, [](double a, double b) { return a == 2 * b; }, [](double a, double b) { return std::fabs(a - 2 * b); }},
      {n - m == 1, [](double a, double b) { return a - b == 1; }, [](double a, double b) { return std::fabs(a - b - 1); }},
      {n + m == 6e9, [](double a, double b) { return a + b == 6e9; }, [](double a, double b) { return std::fabs(a + b - 6e9); }},
      {n + m >= 2147483648.0, [](double a, double b) { return a + b >= 2147483648.0; }, [](double a, double b) { return 2147483648.0 - a - b; }},
      {n > m, [](double a, double b) { return a > b; }, [](double a, double b) { return b - a; }},
      {0.5 * n >= 1.5e9, [](double a, double) { return 0.5 * a >= 1.5e9; }, [](double a, double) { return 1.5e9 - 0.5 * a; }},
      {n != m, [](double a, double b) { return a != b; }, [](double, double) { return 0.0; }},
  };
  const int nw = sizeof ws / sizeof *ws, nr = rs.size();
  d.Add("integers far from zero", nw * nr, [=](int64_t u, vf::Ctx& c) {
    const W& w = ws[u / nr];
    const bool exact = std::fabs(w.lo) < 1e15 && std::fabs(w.hi) < 1e15;
    std::vector<double> cand;  // both variables range over these
    for (double e : {w.lo, w.hi, 5.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 3e9 + 1, 3e9, -3e9, 0.0, 6e9})
      for (double o : {-1.0, 0.0, 1.0, 2.0}) if (std::isfinite(e) && e + o >= w.lo && e + o <= w.hi) cand.push_back(e + o);
    for (int j = -1; j < nr; ++j) {
      if (j >= 0 && j == static_cast<int>(u % nr)) continue;
      const R &f = rs[u % nr], &g = rs[j < 0 ? u % nr : j];
      const std::string what = vf::Cat("[", f.f, "] [", g.f, "] with N and M ", w.name);
      c.Note(what);
      Context ctx;
      if (strcmp(w.name, "undeclared") == 0) { ctx.DeclareVariable(n); ctx.DeclareVariable(m); }
      else { ctx.DeclareVariable(n, w.lo, w.hi); ctx.DeclareVariable(m, w.lo, w.hi); }
      ctx.Assert(f.f);
      if (j >= 0) ctx.Assert(g.f);
      const auto r = ctx.CheckSat();
      ++c.states; ++c.traces; c.transitions += 2;
      c.Outcome(vf::Cat(static_cast<bool>(r), w.name));
      if (!r) {
        for (double a : cand) for (double b : cand) { ++c.evals; if (f.t(a, b) && g.t(a, b)) { c.Fail("unsat " + what, vf::Cat(what, ": unsatisfiable, though N = ", vf::Cat(static_cast<long long>(a)), ", M = ", static_cast<long long>(b), " satisfies everything")); return; } }
        continue;
      }
      ++c.nontrivial; ++c.evals;
      const Box::Interval a = (*r)[n], b = (*r)[m];
      const std::string got = vf::Cat("N = [", a.lb(), ", ", a.ub(), "], M = [", b.lb(), ", ", b.ub(), "]");
      if (a.is_empty() || b.is_empty() || a.lb() < w.lo || a.ub() > w.hi || b.lb() < w.lo || b.ub() > w.hi) c.Fail("range " + what, vf::Cat(what, ": the model ", got, " leaves the bounds"));
      else if (a.lb() != std::floor(a.lb()) || b.lb() != std::floor(b.lb()) || a.ub() != a.lb() || b.ub() != b.lb()) c.Fail("integral " + what, vf::Cat(what, ": the model ", got, " is no pair of integers"));
      else if (exact && (f.off(a.lb(), b.lb()) > 0.001 || g.off(a.lb(), b.lb()) > 0.001)) c.Fail("model " + what, vf::Cat(what, ": the model ", got, " violates a constraint"));
      std::ostringstream os;
      os << *r;
      if (exact && os.str().find(vf::Cat("N : [", static_cast<long long>(a.lb()), ", ", static_cast<long long>(a.ub()), "]")) == std::string::npos) c.Fail("printed " + what, vf::Cat(what, ": the model ", got, " is printed as ", os.str()));
    }
  }, 120);
  d.rule = "unsatisfiable only if no point of the grid within bounds and types satisfies every constraint; satisfiable only with a nonempty box within the bounds, integral for integer and Boolean variables, whose middle violates no constraint by more than the precision";
  d.bounds = {vf::Cat(NF, " formulas over two reals, an integer and a Boolean; ", kB.size(), " bounds; ", NC, " configurations; ", prob::NPT, " grid points"), vf::Cat("12 relations between two integers, alone and in ordered pairs, over ", 14, " ranges at and beyond those of machine integers"), "sequential search (number of jobs 1)"};
  return d.Run();
}
