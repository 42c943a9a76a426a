// BUILD: full
// C35: minimisation returns a feasible point which no feasible point beats.
#include "dreal/api/api.h"
#include "dreal/solver/context.h"
#include "problems.h"
using namespace dreal;
namespace {
using Fn = std::function<double(double, double)>;
// An expression, and the function it stands for.
struct E { Expression e; Fn f; };
// A constraint, and by how much a point violates it (0 or less: satisfied).
// eq: not satisfied by any point with room to spare.
struct A { Formula f; Fn h; bool eq; };
struct Cfg { std::string name; double delta; bool local, fpoly, wl, left, poly; };
const std::vector<Cfg> kC{{"0.1", 0.1, false, false, false, false, false}, {"0.05 local optimization", 0.05, true, false, false, false, false}, {"0.1 polytope in forall", 0.1, false, true, false, true, false}, {"0.2 worklist", 0.2, false, false, true, false, false}, {"0.05 polytope", 0.05, true, true, false, false, true}};
Config Mk(const Cfg& k) {
  Config c;
  c.mutable_precision() = k.delta;
  c.mutable_use_local_optimization() = k.local;
  c.mutable_use_polytope_in_forall() = k.fpoly;
  c.mutable_use_polytope() = k.poly;
  c.mutable_use_worklist_fixpoint() = k.wl;
  c.mutable_stack_left_box_first() = k.left;
  return c;
}
struct Bd { double xl, xu, yl, yu; };
const std::vector<Bd> kB{{-1, 2, -1, 1}, {0.5, 1.5, -2, 0}, {-2, -0.5, 0, 1}, {1, 1, -1, 2}};
const double kStep = 0.125;
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER}, b{"b", Variable::Type::BOOLEAN}, w{"w"};
  static std::vector<E> es;
  static std::vector<A> as;
  {
    const Expression X{x}, Y{y};
    auto obj = [&](const Expression& e, Fn f) { es.push_back({e, f}); };
    obj(X, [](double x, double) { return x; });
    obj(-X, [](double x, double) { return -x; });
    obj(X * X - X, [](double x, double) { return x * x - x; });
    obj(X * X * X - X, [](double x, double) { return x * x * x - x; });
    obj(sin(2 * X), [](double x, double) { return std::sin(2 * x); });
    obj(abs(X - 0.5), [](double x, double) { return std::fabs(x - 0.5); });
    obj(X + Y, [](double x, double y) { return x + y; });
    obj(X * Y, [](double x, double y) { return x * y; });
    obj((X - 0.5) * (X - 0.5) + Y * Y, [](double x, double y) { return (x - 0.5) * (x - 0.5) + y * y; });
    obj(Y - X * X, [](double x, double y) { return y - x * x; });
    obj(max(X, Y), [](double x, double y) { return std::max(x, y); });
    obj(Expression{3}, [](double, double) { return 3.0; });
    auto add = [&](const Formula& f, Fn h, bool eq) { as.push_back({f, h, eq}); };
    add(Formula::True(), [](double, double) { return -1e9; }, false);
    add(X >= 0.25, [](double x, double) { return 0.25 - x; }, false);
    add(Y <= 0.5, [](double, double y) { return y - 0.5; }, false);
    add(X + Y >= 0.5, [](double x, double y) { return 0.5 - x - y; }, false);
    add(X * X + Y * Y <= 1.5, [](double x, double y) { return x * x + y * y - 1.5; }, false);
    add(Y >= X * X - 1, [](double x, double y) { return x * x - 1 - y; }, false);
    add(X * Y <= 0 || X >= 1.25, [](double x, double y) { return std::min(x * y, 1.25 - x); }, false);
    add(!(X < 0.5 && Y < 0.5), [](double x, double y) { return std::min(0.5 - x, 0.5 - y); }, false);
    add(X + Y == 0.5, [](double x, double y) { return std::fabs(x + y - 0.5); }, true);
    add(X * X * X - X == 0, [](double x, double) { return std::fabs(x * x * x - x); }, true);
    add(X * X + Y * Y <= -0.5, [](double x, double y) { return x * x + y * y + 0.5; }, false);
    add(dreal::imply(X >= 0.5, Y >= X - 0.5), [](double x, double y) { return std::min(x - 0.5, x - 0.5 - y); }, false);
    add(X <= 0.75 && Y >= -0.5, [](double x, double y) { return std::max(x - 0.75, -0.5 - y); }, false);
    add(exp(X) <= 3 + Y, [](double x, double y) { return std::exp(x) - 3 - y; }, false);
  }
  const int NE = es.size(), NA = as.size(), NK = kC.size(), NB = kB.size();
  // V: by how much a point violates all constraints; S: how much room it leaves
  // (at most 0: enough); fs: the objectives.
  auto judge = [](vf::Ctx& c, const std::string& what, const std::vector<Fn>& fs, const Fn& V, const std::vector<std::pair<double, double>>& grid, double delta, bool eq, const optional<Box>& res, const std::function<std::pair<double, double>(const Box&)>& at) {
    ++c.traces;
    if (!res) {
      for (auto& g : grid) {
        ++c.evals;
        if (V(g.first, g.second) <= -1e-9) return c.Fail(vf::Cat("none ", what.substr(0, 200)), vf::Cat(what, ": reports that there is no solution, though (", g.first, ", ", g.second, ") is one"));
      }
    } else {
      ++c.nontrivial;
      const auto p = at(*res);
      ++c.evals;
      const double viol = V(p.first, p.second);
      if (viol > delta * 1.000001) return c.Fail(vf::Cat("infeasible ", what.substr(0, 200)), vf::Cat(what, ": reports (", p.first, ", ", p.second, "), which violates the constraints by ", viol));
      if (!eq)
        for (auto& g : grid) {
          ++c.evals;
          if (V(g.first, g.second) > -delta) continue;
          bool beats = true;
          for (auto& f : fs) beats = beats && f(g.first, g.second) < f(p.first, p.second) - 2 * delta * 1.000001;
          if (beats) return c.Fail(vf::Cat("beaten ", what.substr(0, 200)), vf::Cat(what, ": reports (", p.first, ", ", p.second, ") at cost ", fs[0](p.first, p.second), ", though (", g.first, ", ", g.second, ") is feasible and costs ", fs[0](g.first, g.second)));
        }
    }
    c.Outcome(vf::Cat(what, static_cast<bool>(res)));
  };
  auto gridOf = [](const Bd& q, double step) {
    std::vector<std::pair<double, double>> g;
    for (double u = q.xl; u <= q.xu; u += step)
      for (double v = q.yl; v <= q.yu; v += step) g.push_back({u, v});
    return g;
  };
  auto bounds = [](const Fn& h, const Bd& q) -> Fn {
    return [=](double u, double v) { return std::max(std::max(std::max(q.xl - u, u - q.xu), std::max(q.yl - v, v - q.yu)), h(u, v)); };
  };
  const auto at = [](const Box& bx) { return std::make_pair(bx.has_variable(x) ? bx[x].mid() : 0.0, bx.has_variable(y) ? bx[y].mid() : 0.0); };
  auto conj = [](const A& p, const A& q) -> Fn { const Fn a = p.h, b = q.h; return [=](double u, double v) { return std::max(a(u, v), b(u, v)); }; };
  d.Add("one objective", NE * NA, [=](int64_t u, vf::Ctx& c) {
    const E& e = es[u / NA];
    const A& p = as[u % NA];
    for (int j = u % NA; j < NA; ++j)
      for (int bi = 0; bi < NB; ++bi) {
        const A& q = as[j];
        const Bd& bd = kB[bi];
        for (int k = 0; k < NK; ++k) {
        if (k != (u + j + bi) % NK && (!d.thorough && (u + j + bi + k) % 3)) continue;
        const int way = (u + j + k) % 3;
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", bd.xl, ", ", bd.xu, "], y in [", bd.yl, ", ", bd.yu, "]: minimize ", e.e, " subject to ", p.f, ", ", q.f);
        c.Note(what);
        ++c.transitions;
        optional<Box> res;
        if (way == 2) {
          res = Minimize(e.e, bd.xl <= x && x <= bd.xu && bd.yl <= y && y <= bd.yu && p.f && q.f, Mk(kC[k]));
        } else {
          Context ctx{Mk(kC[k])};
          ctx.DeclareVariable(x, bd.xl, bd.xu);
          ctx.DeclareVariable(y, bd.yl, bd.yu);
          ctx.Assert(p.f);
          ctx.Assert(q.f);
          if (way == 0) ctx.Minimize(e.e); else ctx.Maximize(-e.e);
          res = ctx.CheckSat();
        }
        judge(c, what, {e.f}, bounds(conj(p, q), bd), gridOf(bd, kStep), kC[k].delta, p.eq || q.eq, res, at);
        }
      }
    c.State(vf::Cat(u));
  }, 120);
  d.Add("two objectives", NE * NE, [=](int64_t u, vf::Ctx& c) {
    const E &e = es[u / NE], &g = es[u % NE];
    for (int i = 0; i < NA; ++i)
      for (int bi = 0; bi < NB; ++bi) {
        const A& p = as[i];
        const Bd& bd = kB[bi];
        const int k = (u + i + bi) % NK;
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", bd.xl, ", ", bd.xu, "], y in [", bd.yl, ", ", bd.yu, "]: minimize ", e.e, " and ", g.e, " subject to ", p.f);
        c.Note(what);
        ++c.transitions;
        Context ctx{Mk(kC[k])};
        ctx.DeclareVariable(x, bd.xl, bd.xu);
        ctx.DeclareVariable(y, bd.yl, bd.yu);
        ctx.Assert(p.f);
        ctx.Minimize({e.e, g.e});
        judge(c, what, {e.f, g.f}, bounds(p.h, bd), gridOf(bd, kStep), kC[k].delta, p.eq, ctx.CheckSat(), at);
      }
    c.State(vf::Cat("two", u));
  }, 120);
  d.Add("an integer variable", NE * NA, [=](int64_t u, vf::Ctx& c) {
    const E& e = es[u / NA];
    const A& p = as[u % NA];
    for (int j = 0; j < NA; ++j)
      for (int bi = 0; bi < 3; ++bi) {
        if (!d.thorough && (u + j) % 3 != bi) continue;
        const A& q = as[j];
        const Bd bd = bi == 0 ? Bd{-2, 3, -1, 1} : bi == 1 ? Bd{0, 2, -2, 1} : Bd{-3, 0, -1, 2};
        const int k = (u + j + bi) % NK;
        const Expression E1{e.e.Substitute(x, n)};
        const Formula P{p.f.Substitute(x, n)}, Q{q.f.Substitute(x, n)};
        const std::string what = vf::Cat("precision ", kC[k].name, ", integer n in [", bd.xl, ", ", bd.xu, "], y in [", bd.yl, ", ", bd.yu, "]: minimize ", E1, " subject to ", P, ", ", Q);
        c.Note(what);
        ++c.transitions;
        Context ctx{Mk(kC[k])};
        ctx.DeclareVariable(n, bd.xl, bd.xu);
        ctx.DeclareVariable(y, bd.yl, bd.yu);
        ctx.Assert(P && Q);
        ctx.Minimize(E1);
        std::vector<std::pair<double, double>> g;
        for (auto& z : gridOf(bd, kStep)) if (z.first == std::floor(z.first)) g.push_back(z);
        const auto res = ctx.CheckSat();
        if (res && (*res)[n].lb() != (*res)[n].ub() && std::ceil((*res)[n].lb()) > (*res)[n].ub()) { c.Fail("fraction " + what.substr(0, 200), vf::Cat(what, ": reports ", prob::BoxStr(*res), ", without an integer for n")); continue; }
        // the ends of the integer's range count in full
        const Fn h = conj(p, q);
        const Fn V = [=](double i, double v) { return i < bd.xl || i > bd.xu ? 1.0 : std::max(std::max(bd.yl - v, v - bd.yu), h(i, v)); };
        judge(c, what, {e.f}, V, g, kC[k].delta, p.eq || q.eq, res, [](const Box& bx) { return std::make_pair(std::round(bx[n].mid()), bx[y].mid()); });
      }
    c.State(vf::Cat("int", u));
  }, 120);
  // the objective is a variable held up by others, among unrelated ones
  d.Add("through another variable", NE * NA, [=](int64_t u, vf::Ctx& c) {
    const E& e = es[u / NA];
    const A& p = as[u % NA];
    static const Variable r{"r"}, s{"s"};
    for (int j = 0; j < NA; ++j)
      for (int bi = 0; bi < NB; ++bi) {
        if (!d.thorough && (u + j) % NB != bi) continue;
        const A& q = as[j];
        const Bd& bd = kB[bi];
        const int k = (u + j + bi) % NK;
        const double delta = kC[k].delta;
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", bd.xl, ", ", bd.xu, "], y in [", bd.yl, ", ", bd.yu, "]: minimize w >= ", e.e, " subject to ", p.f, ", ", q.f);
        c.Note(what);
        ++c.transitions; ++c.traces;
        Context ctx{Mk(kC[k])};
        if (j % 2) ctx.DeclareVariable(r, 5, 6);
        ctx.DeclareVariable(x, bd.xl, bd.xu);
        ctx.DeclareVariable(w, -20, 20);
        ctx.DeclareVariable(y, bd.yl, bd.yu);
        if (bi % 2) { ctx.DeclareVariable(s, -3, 3); ctx.Assert(s * s >= 2); }
        ctx.Assert(q.f);
        ctx.Assert(w >= e.e);
        ctx.Assert(p.f);
        ctx.Minimize(Expression{w});
        const auto res = ctx.CheckSat();
        const Fn V = bounds(conj(p, q), bd);
        const auto grid = gridOf(bd, kStep);
        if (!res) {
          for (auto& g : grid) { ++c.evals; if (V(g.first, g.second) <= -1e-9) { c.Fail("none " + what.substr(0, 200), vf::Cat(what, ": reports that there is no solution, though (", g.first, ", ", g.second, ") is one")); break; } }
        } else {
          ++c.nontrivial;
          const auto z = at(*res);
          const double W = (*res)[w].mid();
          if (V(z.first, z.second) > delta * 1.000001 || e.f(z.first, z.second) > W + delta * 1.000001) { c.Fail("infeasible " + what.substr(0, 200), vf::Cat(what, ": reports ", prob::BoxStr(*res))); continue; }
          if (!p.eq && !q.eq)
            for (auto& g : grid) { ++c.evals; if (V(g.first, g.second) <= -delta && e.f(g.first, g.second) + 3 * delta * 1.000001 < W) { c.Fail("beaten " + what.substr(0, 200), vf::Cat(what, ": reports ", prob::BoxStr(*res), ", though (", g.first, ", ", g.second, ") costs ", e.f(g.first, g.second))); break; } }
        }
        c.Outcome(vf::Cat(what, static_cast<bool>(res)));
      }
    c.State(vf::Cat("through", u));
  }, 120);
  // goals within scopes of one context
  d.Add("histories", NE * NA, [=](int64_t u, vf::Ctx& c) {
    const E& e = es[u / NA];
    const A& p = as[u % NA];
    for (int j = 0; j < NA; ++j) {
      const A& q = as[j];
      const E& g = es[(u + j) % NE];
      const int k = (u + j) % NK;
      const Bd &bd = kB[(u + j) % NB], &nb = kB[0];
      const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", bd.xl, ", ", bd.xu, "], y in [", bd.yl, ", ", bd.yu, "]: ", p.f);
      c.Note(what);
      Context ctx{Mk(kC[k])};
      ctx.DeclareVariable(x, bd.xl, bd.xu);
      ctx.DeclareVariable(y, bd.yl, bd.yu);
      ctx.Assert(p.f);
      ctx.Push(1);
      ctx.Assert(q.f);
      ctx.Minimize(e.e);
      judge(c, vf::Cat(what, "; push, ", q.f, ", minimize ", e.e), {e.f}, bounds(conj(p, q), bd), gridOf(bd, kStep), kC[k].delta, p.eq || q.eq, ctx.CheckSat(), at);
      ctx.Pop(1);
      judge(c, vf::Cat(what, "; after a goal, check"), {}, bounds(p.h, bd), gridOf(bd, kStep), kC[k].delta, true, ctx.CheckSat(), at);
      ctx.Push(1);
      ctx.Minimize(g.e);
      judge(c, vf::Cat(what, "; after a goal, push, minimize ", g.e), {g.f}, bounds(p.h, bd), gridOf(bd, kStep), kC[k].delta, p.eq, ctx.CheckSat(), at);
      ctx.Pop(1);
      ctx.SetInterval(x, nb.xl, nb.xu);
      ctx.SetInterval(y, nb.yl, nb.yu);
      ctx.Minimize(e.e);
      judge(c, vf::Cat(what, "; x in [-1, 2], y in [-1, 1], minimize ", e.e), {e.f}, bounds(p.h, nb), gridOf(nb, kStep), kC[k].delta, p.eq, ctx.CheckSat(), at);
      c.transitions += 12;
    }
    c.State(vf::Cat("hist", u));
  }, 120);
  d.rule = "no solution reported only if no grid point satisfies the constraints; a reported point violates them by at most the precision and no grid point which satisfies them with the precision to spare costs less by more than twice the precision (the cost and the comparison are each weakened by it)";
  d.bounds = {vf::Cat(NE, " objectives, pairs of ", NA, " constraints, ", NB, " bounds, ", NK, " configurations, grid step ", kStep)};
  return d.Run();
}
