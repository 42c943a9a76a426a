// BUILD: full
// C36: quantified constraints are decided over the whole quantified range.
#include "dreal/api/api.h"
#include "dreal/solver/context.h"
#include "problems.h"
using namespace dreal;
namespace {
using Fn = std::function<double(double, double)>;
// A constraint, by how much a point violates it (at most 0: satisfied), and
// the slope of that in the quantified variable over the ranges used.
struct A { Formula f; Fn h; double L; };
struct Cfg { std::string name; double delta; bool local, fpoly, wl, left, poly; };
const std::vector<Cfg> kC{{"0.1", 0.1, false, false, false, false, false}, {"0.1 local optimization", 0.1, true, false, false, false, false}, {"0.05 polytope in forall", 0.05, false, true, false, true, false},
                          {"0.2 worklist", 0.2, false, false, true, false, false}, {"0.02 local optimization polytope worklist", 0.02, true, true, true, true, true}, {"0.1 polytope", 0.1, false, true, false, true, true}};
Config Mk(const Cfg& k) {
  Config c;
  c.mutable_precision() = k.delta;
  c.mutable_use_local_optimization() = k.local;
  c.mutable_use_polytope_in_forall() = k.fpoly;
  c.mutable_use_polytope() = k.poly;
  c.mutable_use_worklist_fixpoint() = k.wl;
  c.mutable_stack_left_box_first() = k.left;
  return c;
}
struct Range { std::string name; double lo, hi; int form; };
const std::vector<Range> kR{{"[-1, 1]", -1, 1, 0}, {"[0, 2]", 0, 2, 0}, {"[0.5, 0.5]", 0.5, 0.5, 0}, {"[2, 1]", 2, 1, 0}, {"y^2 <= 1", -1, 1, 1}, {"not (y < -0.5 or y > 1.5)", -0.5, 1.5, 2}};
struct XB { double lo, hi; };
const std::vector<XB> kX{{-2, 2}, {-1, 3}, {0.25, 0.25}, {-2, 0.5}};
const int kSteps = 512;
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const Variable x{"x"}, y{"y"}, m{"m", Variable::Type::INTEGER}, b{"b", Variable::Type::BOOLEAN}, n{"n", Variable::Type::INTEGER};
  static std::vector<A> as;
  {
    const Expression X{x}, Y{y};
    auto add = [&](const Formula& f, Fn h, double L) { as.push_back({f, h, L}); };
    add(X <= Y, [](double x, double y) { return x - y; }, 1);
    add(X + Y < 2.5, [](double x, double y) { return x + y - 2.5; }, 1);
    add(X * Y <= 1, [](double x, double y) { return x * y - 1; }, 3);
    add(X >= Y * Y - 1, [](double x, double y) { return y * y - 1 - x; }, 4);
    add(sin(Y) * X <= 0.5, [](double x, double y) { return std::sin(y) * x - 0.5; }, 3);
    add(pow(X - Y, 2) <= 4, [](double x, double y) { return (x - y) * (x - y) - 4; }, 8);
    add(X * Y + X > -1, [](double x, double y) { return -1 - x * y - x; }, 3);
    add(X * Y == 0, [](double x, double y) { return std::fabs(x * y); }, 3);
    add(X <= 1.5, [](double x, double) { return x - 1.5; }, 0);
    add(Y <= 1.25, [](double, double y) { return y - 1.25; }, 1);
    add(X * X - X <= Y, [](double x, double y) { return x * x - x - y; }, 1);
    add(X * X * X - X + Y <= 1, [](double x, double y) { return x * x * x - x + y - 1; }, 1);
    add(exp(Y) * X <= 2, [](double x, double y) { return std::exp(y) * x - 2; }, 25);
    add(abs(X) + abs(Y) >= 0.5, [](double x, double y) { return 0.5 - std::fabs(x) - std::fabs(y); }, 1);
    add(!(X + 2 <= Y), [](double x, double y) { return y - x - 2; }, 1);
    add(max(X, Y) <= 1.75, [](double x, double y) { return std::max(x, y) - 1.75; }, 1);
    add(X * (Y - 1) * (Y - 1) <= 0.25, [](double x, double y) { return x * (y - 1) * (y - 1) - 0.25; }, 15);
    add(X * X + X * Y >= 0.5, [](double x, double y) { return 0.5 - x * x - x * y; }, 3);
    add(4 * (Y - Y * Y) <= X, [](double x, double y) { return 4 * (y - y * y) - x; }, 12);
    add(!(X * Y == 0.5), [](double, double) { return -1; }, 0);
  }
  const int NA = as.size(), NK = kC.size();
  auto guard = [](const Range& r) {
    const Expression Y{y};
    if (r.form == 1) return Y * Y <= 1;
    if (r.form == 2) return !(Y < r.lo || Y > r.hi);
    return r.lo <= Y && Y <= r.hi;
  };
  // the worst over the range; margin: how much worse it may be between points
  // by: the range drawn in as its bounds are weakened with the body
  auto draw = [](const Range& r, double by) {
    Range t = r;
    if (r.form == 1) { t.hi = std::sqrt(1 - by); t.lo = -t.hi; } else { t.lo += by; t.hi -= by; }
    return t;
  };
  auto worst = [](const Fn& h, double xv, const Range& r) {
    double w = -1e300;
    if (r.lo > r.hi) return w;
    for (int i = 0; i <= kSteps; ++i) w = std::max(w, h(xv, r.lo + (r.hi - r.lo) * i / kSteps));
    return w;
  };
  // W(v, by): the worst for x = v over the ranges, drawn in by `by`
  auto over = [=](const Fn& h, const Range& r) -> Fn { return [=](double v, double by) { return worst(h, v, by > 0 ? draw(r, by) : r); }; };
  auto both = [](const Fn& a, const Fn& b) -> Fn { return [=](double v, double by) { return std::max(a(v, by), b(v, by)); }; };
  // L: the slope times the length of the range; free: a further constraint on x
  auto judge = [=](vf::Ctx& c, const std::string& what, const Fn& W, double L, const XB& q, const Fn& free, double delta, const optional<Box>& res) {
    ++c.traces;
    const double margin = L / kSteps + 1e-9;
    if (!res) {
      for (double v = q.lo; v <= q.hi; v += 0.125) {
        ++c.evals;
        if (free(v, 0) <= -1e-9 && W(v, 0) < -margin) return c.Fail(vf::Cat("unsat ", what.substr(0, 200)), vf::Cat(what, ": unsatisfiable, though for x = ", v, " the body holds on the whole range"));
      }
    } else {
      ++c.nontrivial; ++c.evals;
      const Box& bx = *res;
      if (bx.empty() || !bx.has_variable(x) || bx[x].lb() < q.lo || bx[x].ub() > q.hi) return c.Fail(vf::Cat("box ", what.substr(0, 200)), vf::Cat(what, ": reports the box ", prob::BoxStr(bx)));
      double best = 1e300, bw = 0;
      for (double v : {bx[x].mid(), bx[x].lb(), bx[x].ub()}) {
        const double w = std::max(W(v, delta), free(v, 0));
        if (w < best) { best = w; bw = v; }
      }
      if (best > delta * 1.000001) return c.Fail(vf::Cat("model ", what.substr(0, 200)), vf::Cat(what, ": reports the box ", prob::BoxStr(bx), ", but for x = ", bw, " the body is violated by ", best));
    }
    c.Outcome(vf::Cat(what, static_cast<bool>(res)));
  };
  struct Body { Formula f; Fn h; double L; std::string s; };
  static std::vector<Body> bodies;
  for (int i = 0; i < NA; ++i) bodies.push_back({as[i].f, as[i].h, as[i].L, ""});
  const int nd = d.thorough ? NA : NA;
  for (int i = 0; i < nd; ++i)
    for (int j = 0; j < nd; ++j) {
      if (i == j) continue;
      const A &p = as[i], &q = as[j];
      const double L = std::max(p.L, q.L);
      const Fn hp = p.h, hq = q.h;
      if (i < j) {
        bodies.push_back({p.f || q.f, [=](double a, double b) { return std::min(hp(a, b), hq(a, b)); }, L, ""});
        bodies.push_back({p.f && q.f, [=](double a, double b) { return std::max(hp(a, b), hq(a, b)); }, L, ""});
      }
      // p => q; a disequality always holds when weakened
      bodies.push_back({dreal::imply(p.f, q.f), i == 7 ? Fn([](double, double) { return -1; }) : i == NA - 1 ? Fn([=](double a, double b) { return std::min(std::fabs(a * b - 0.5), hq(a, b)); }) : Fn([=](double a, double b) { return std::min(-hp(a, b), hq(a, b)); }), L, ""});
    }
  const int NB = bodies.size();
  const Fn none = [](double, double) { return -1e300; };
  auto solve = [=](vf::Ctx& c, const Formula& f, const XB& q, const Cfg& k) {
    ++c.transitions;
    Context ctx{Mk(k)};
    ctx.DeclareVariable(x, q.lo, q.hi);
    ctx.Assert(f);
    return ctx.CheckSat();
  };
  d.Add("one quantified constraint", NB, [=](int64_t u, vf::Ctx& c) {
    const Body& bd = bodies[u];
    for (auto& r : kR)
      for (auto& q : kX)
        for (int k = 0; k < NK; ++k) {
          if (!d.thorough && u >= NA && (k + u + static_cast<int>(q.hi)) % NK) continue;
          const Formula f = forall({y}, dreal::imply(guard(r), bd.f));
          const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", q.lo, ", ", q.hi, "]: forall y in ", r.name, ". ", bd.f);
          c.Note(what);
          judge(c, what, over(bd.h, r), bd.L * 2, q, none, kC[k].delta, solve(c, f, q, kC[k]));
        }
    c.State(vf::Cat(u));
  });
  static const std::vector<std::pair<Formula, Fn>> fr{
      {x * x >= 0.25, [](double v, double) { return 0.25 - v * v; }}, {sin(x) >= 0.5, [](double v, double) { return 0.5 - std::sin(v); }}, {x * x * x - x == 0, [](double v, double) { return std::fabs(v * v * v - v); }}, {x >= -0.25, [](double v, double) { return -0.25 - v; }}};
  d.Add("with a constraint on the free variable", NB, [=](int64_t u, vf::Ctx& c) {
    const Body& bd = bodies[u];
    for (size_t g = 0; g < fr.size(); ++g)
      for (size_t ri = 0; ri < kR.size(); ++ri) {
        const Range& r = kR[ri];
        const XB& q = kX[(g + ri) % 2];
        const int k = (u + g + ri) % NK;
        const Formula f = forall({y}, dreal::imply(guard(r), bd.f)) && fr[g].first;
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", q.lo, ", ", q.hi, "]: ", fr[g].first, " and forall y in ", r.name, ". ", bd.f);
        c.Note(what);
        // an equality with isolated solutions is seen at the grid points only
        judge(c, what, over(bd.h, r), bd.L * 2, q, g == 2 ? Fn([](double v, double) { return v == 0 || v == 1 || v == -1 ? -1.0 : std::fabs(v * v * v - v); }) : fr[g].second, kC[k].delta, solve(c, f, q, kC[k]));
      }
  });
  // other variables in the box, not in the quantified constraint
  d.Add("among other variables", NB, [=](int64_t u, vf::Ctx& c) {
    const Body& bd = bodies[u];
    static const Variable w1{"w1"}, w2{"w2"}, z{"z"};
    for (int place = 0; place < 3; ++place)
      for (size_t ri = 0; ri < kR.size(); ++ri) {
        const Range& r = kR[ri];
        const XB& q = kX[(u + ri) % 2];
        const int k = (u + place + ri) % NK;
        ++c.transitions;
        Context ctx{Mk(kC[k])};
        if (place != 0) ctx.DeclareVariable(w1, 10, 12);
        if (place == 2) ctx.DeclareVariable(z, -30, -20);
        ctx.DeclareVariable(x, q.lo, q.hi);
        if (place != 1) ctx.DeclareVariable(w2, 20, 21);
        if (place != 0) ctx.Assert(w1 * w1 >= 121 + x);
        if (place != 1) ctx.Assert(sin(w2) <= x + 3);
        if (place == 2) ctx.Assert(z * z >= 450);
        ctx.Assert(forall({y}, dreal::imply(guard(r), bd.f)));
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", q.lo, ", ", q.hi, "], with others ", place, ": forall y in ", r.name, ". ", bd.f);
        c.Note(what);
        judge(c, what, over(bd.h, r), bd.L * 2, q, none, kC[k].delta, ctx.CheckSat());
      }
    c.State(vf::Cat("others", u));
  });
  // two quantified constraints over their own ranges, asserted one by one
  d.Add("two quantified constraints", NA * NA, [=](int64_t u, vf::Ctx& c) {
    const A &p = as[u / NA], &s = as[u % NA];
    static const Variable y2{"y2"};
    for (size_t ri = 0; ri < kR.size(); ++ri)
      for (size_t rj = 0; rj < kR.size(); ++rj) {
        if (!d.thorough && (ri + rj + u) % 3) continue;
        const Range &r = kR[ri], &t = kR[rj];
        const int k = (u + ri + rj) % NK;
        const XB& q = kX[(u + ri) % 2];
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", q.lo, ", ", q.hi, "]: forall y in ", r.name, ". ", p.f, ", forall y in ", t.name, ". ", s.f);
        c.Note(what);
        ++c.transitions;
        Context ctx{Mk(kC[k])};
        ctx.DeclareVariable(x, q.lo, q.hi);
        ctx.Assert(forall({y}, dreal::imply(guard(r), p.f)));
        ctx.Assert(forall({y2}, dreal::imply(guard(t), s.f).Substitute(y, y2)));
        const Fn hp = p.h, hs = s.h;
        judge(c, what, both(over(hp, r), over(hs, t)), 2 * std::max(p.L, s.L), q, none, kC[k].delta, ctx.CheckSat());
      }
    c.State(vf::Cat("two", u));
  });
  // under connectives; what would need a quantifier negated may be refused
  d.Add("under connectives", NA * NA, [=](int64_t u, vf::Ctx& c) {
    const A &p = as[u / NA], &s = as[u % NA];
    const Fn hp = p.h, hs = s.h;
    for (size_t ri = 0; ri < kR.size(); ++ri)
      for (int shape = 0; shape < 5; ++shape) {
        const Range &r = kR[ri], &t = kR[(ri + 1) % kR.size()];
        const int k = (u + ri + shape) % NK;
        const XB& q = kX[(u + ri) % 2];
        const Formula F = forall({y}, dreal::imply(guard(r), p.f)), G = forall({y}, dreal::imply(guard(t), s.f)), B{b};
        const Fn a = over(hp, r), e = over(hs, t);
        const auto& g = fr[(u + ri) % 2];
        const Fn gf = g.second;
        auto lo = [](const Fn& m, const Fn& w) -> Fn { return [=](double v, double by) { return std::min(m(v, by), w(v, by)); }; };
        Formula f = F;
        Fn W = a;
        switch (shape) {
          case 0: f = F || G; W = lo(a, e); break;
          case 1: f = F || g.first; W = lo(a, gf); break;
          case 2: f = dreal::imply(B, F) && (B || G); W = lo(a, e); break;
          case 3: f = dreal::imply(B, F) && B && g.first; W = both(a, gf); break;
          default: f = F && (G || (g.first && !B)); W = both(a, lo(e, gf)); break;
        }
        const std::string what = vf::Cat("precision ", kC[k].name, ", x in [", q.lo, ", ", q.hi, "]: ", f);
        c.Note(what);
        ++c.transitions;
        optional<Box> res;
        try {
          Context ctx{Mk(kC[k])};
          ctx.DeclareVariable(x, q.lo, q.hi);
          ctx.DeclareVariable(b);
          ctx.Assert(f);
          res = ctx.CheckSat();
        } catch (const std::runtime_error&) {
          ++c.extra["refused"];
          continue;
        }
        judge(c, what, W, 2 * std::max(p.L, s.L), q, none, kC[k].delta, res);
      }
    c.State(vf::Cat("connectives", u));
  });
  // an integer quantified variable
  d.Add("over integers", NA * NK, [=](int64_t u, vf::Ctx& c) {
    const A& p = as[u / NK];
    const Cfg& k = kC[u % NK];
    for (auto& q : kX)
      for (int lo = -1; lo <= 1; ++lo)
        for (int hi = lo - 1; hi <= 2; ++hi)
          for (int frac = 0; frac < 2; ++frac) {
            const Formula body = p.f.Substitute(y, m);
            const double l = lo - (frac ? 0.5 : 0), h = hi + (frac ? 0.5 : 0);
            const Formula f = forall({m}, dreal::imply(l <= m && m <= h, body));
            const std::string what = vf::Cat("precision ", k.name, ", x in [", q.lo, ", ", q.hi, "]: forall integers m in [", l, ", ", h, "]. ", body);
            c.Note(what);
            const Fn g = p.h;
            const Fn W = [=](double v, double by) {
              double w = -1e300;
              for (int i = lo; i <= hi; ++i)
                if (i - l >= by && h - i >= by) w = std::max(w, g(v, i));
              return w;
            };
            judge(c, what, W, 0, q, none, k.delta, solve(c, f, q, k));
          }
  });
  // conditionals in the body
  d.Add("conditionals", 2, [=](int64_t u, vf::Ctx& c) {
    const Expression X{x}, Y{y};
    const Formula body = u == 0 ? if_then_else(Y > 0, X, -X) <= 1 : if_then_else(X > Y, X * X, Y) <= 2;
    const Fn h = u == 0 ? Fn([](double v, double w) { return (w > 0 ? v : -v) - 1; }) : Fn([](double v, double w) { return (v > w ? v * v : w) - 2; });
    const std::string what = vf::Cat("x in [1.75, 2]: forall y in [-1, 1]. ", body);
    c.Note(what);
    ++c.transitions; ++c.traces;
    const auto res = solve(c, forall({y}, dreal::imply(-1 <= y && y <= 1, body)), {1.75, 2}, kC[0]);
    if (res) {
      const double v = (*res)[x].mid(), w = worst(h, v, draw({"", -1, 1, 0}, 0.1));
      if (w > 0.1 + 1e-6) c.Fail(vf::Cat("conditional ", u), vf::Cat(what, ": reports x = ", v, ", for which the body is violated by ", w));
    }
    c.Outcome(vf::Cat(what, static_cast<bool>(res)));
  });
  // one context: bounds changed between checks, scopes opened and closed
  d.Add("sequences of checks", NA * NA, [=](int64_t u, vf::Ctx& c) {
    const A &p = as[u / NA], &s = as[u % NA];
    const Cfg& k = kC[u % NK];
    const Range &r = kR[0], &t = kR[1];
    Context ctx{Mk(k)};
    ctx.DeclareVariable(x, -2, 2);
    ctx.Assert(forall({y}, dreal::imply(guard(r), p.f)));
    const std::string what = vf::Cat("precision ", k.name, ": forall y in ", r.name, ". ", p.f);
    c.Note(what);
    const Fn hp = p.h, hs = s.h;
    judge(c, what + ", first check", over(p.h, r), 2 * p.L, {-2, 2}, none, k.delta, ctx.CheckSat());
    ctx.SetInterval(x, 1, 2);
    judge(c, what + ", x in [1, 2]", over(p.h, r), 2 * p.L, {1, 2}, none, k.delta, ctx.CheckSat());
    ctx.SetInterval(x, -2, 2);
    judge(c, what + ", x in [-2, 2] again", over(p.h, r), 2 * p.L, {-2, 2}, none, k.delta, ctx.CheckSat());
    ctx.Push(1);
    ctx.Assert(forall({y}, dreal::imply(guard(t), s.f)));
    judge(c, vf::Cat(what, ", pushed forall y in ", t.name, ". ", s.f), both(over(hp, r), over(hs, t)), 2 * std::max(p.L, s.L), {-2, 2}, none, k.delta, ctx.CheckSat());
    ctx.Pop(1);
    judge(c, what + ", popped", over(p.h, r), 2 * p.L, {-2, 2}, none, k.delta, ctx.CheckSat());
    ctx.mutable_config().mutable_precision() = k.delta / 8;
    judge(c, what + ", at an eighth of the precision", over(hp, r), 2 * p.L, {-2, 2}, none, k.delta / 8, ctx.CheckSat());
    ctx.mutable_config().mutable_precision() = k.delta;
    judge(c, what + ", back", over(hp, r), 2 * p.L, {-2, 2}, none, k.delta, ctx.CheckSat());
    c.transitions += 14;
  });
  d.rule = "unsatisfiable only if no grid value of the free variable makes the body hold over the whole range (by more than its slope between grid points); satisfiable only with a value for which no point of the range, taken in by the precision as its bounds are weakened too, violates the body by more than the precision";
  d.bounds = {vf::Cat(NB, " bodies over one free and one quantified variable, ", kR.size(), " ranges, ", kX.size(), " bounds, ", NK, " configurations; ", kSteps + 1, " points per range")};
  return d.Run();
}
