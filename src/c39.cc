// BUILD: full
// C39: the local optimiser is given the problem the solver has, and a
// counterexample is refined only along the quantified variables. The C
// functions of NLopt are replaced by a recorder: whatever the real optimiser
// and refiner hand over is evaluated at every point of a grid and compared with
// a reference written by hand; the recorder passes on to the real library
// where a problem is to be solved.
#include <dlfcn.h>
#include <unistd.h>
#include <nlopt.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <sstream>
#include "dreal/contractor/counterexample_refiner.h"
#include "dreal/optimization/nlopt_optimizer.h"
#include "vf.h"
using namespace dreal;  // NOLINT
using std::string;
using std::vector;

struct nlopt_opt_s {
  uint64_t magic{0x5ca1ab1e5ca1ab1eULL};  // the library's own functions call those below with its own objects
  struct F { nlopt_func f; void* d; double tol; bool eq; };
  nlopt_algorithm alg; unsigned n; vector<double> lb, ub; double ftol_rel{0}, ftol_abs{0}, maxtime{0}; int maxeval{0};
  bool has_obj{false}; double sign{1}; F obj{nullptr, nullptr, 0, false}; vector<F> cons; nlopt_munge destroy{nullptr}; int forced{0}; void* real{nullptr};
};
namespace {
std::function<nlopt_result(nlopt_opt, double*, double*)> on_optimize;
template <typename T> T Real(const char* name, T) {
  static void* const lib = dlopen("libnlopt.so.0", RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
  void* const f = lib ? dlsym(lib, name) : nullptr;
  if (!f) { fprintf(stderr, "the optimisation library is not there: %s\n", dlerror()); _exit(3); }
  return reinterpret_cast<T>(f); }
#define REAL(f) static const auto real = Real(#f, &f)
nlopt_opt R(const nlopt_opt_s* o) { return static_cast<nlopt_opt>(o->real); }
bool Mine(const nlopt_opt_s* o) { return o->magic == 0x5ca1ab1e5ca1ab1eULL; }
}  // namespace
extern "C" {
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) {
  REAL(nlopt_create); auto* o = new nlopt_opt_s; o->alg = a; o->n = n; o->lb.assign(n, -HUGE_VAL); o->ub.assign(n, HUGE_VAL); o->real = real(a, n); return o; }
void nlopt_destroy(nlopt_opt o) {
  if (!o) return;
  REAL(nlopt_destroy);
  if (!Mine(o)) { real(o); return; }
  real(R(o));
  if (o->destroy) { if (o->has_obj) o->destroy(o->obj.d); for (auto& c : o->cons) o->destroy(c.d); }
  delete o; }
nlopt_opt nlopt_copy(const nlopt_opt o) { REAL(nlopt_copy); if (Mine(o)) abort(); return real(o); }
unsigned nlopt_get_dimension(const nlopt_opt o) { REAL(nlopt_get_dimension); if (!Mine(o)) return real(o);  return o->n; }
nlopt_algorithm nlopt_get_algorithm(const nlopt_opt o) { REAL(nlopt_get_algorithm); if (!Mine(o)) return real(o);  return o->alg; }
const char* nlopt_get_errmsg(nlopt_opt o) { REAL(nlopt_get_errmsg); return Mine(o) ? nullptr : real(o); }
void nlopt_set_munge(nlopt_opt o, nlopt_munge d, nlopt_munge c) { REAL(nlopt_set_munge); if (!Mine(o)) { real(o, d, c); return; } o->destroy = d; }
static nlopt_result Obj(nlopt_opt o, nlopt_func f, void* d, double s) { if (o->has_obj && o->destroy) o->destroy(o->obj.d); o->has_obj = true; o->sign = s; o->obj = {f, d, 0, false}; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* d) { REAL(nlopt_set_min_objective); if (!Mine(o)) return real(o, f, d);  real(R(o), f, d); return Obj(o, f, d, 1); }
nlopt_result nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void* d) { REAL(nlopt_set_max_objective); if (!Mine(o)) return real(o, f, d);  real(R(o), f, d); return Obj(o, f, d, -1); }
nlopt_result nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void* d, double t) { REAL(nlopt_add_inequality_constraint); if (!Mine(o)) return real(o, f, d, t);  o->cons.push_back({f, d, t, false}); return real(R(o), f, d, t); }
nlopt_result nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void* d, double t) { REAL(nlopt_add_equality_constraint); if (!Mine(o)) return real(o, f, d, t);  o->cons.push_back({f, d, t, true}); return real(R(o), f, d, t); }
nlopt_result nlopt_remove_inequality_constraints(nlopt_opt o) { REAL(nlopt_remove_inequality_constraints); if (!Mine(o)) return real(o);  vector<nlopt_opt_s::F> k; for (auto& c : o->cons) if (c.eq) k.push_back(c); o->cons = k; return real(R(o)); }
nlopt_result nlopt_remove_equality_constraints(nlopt_opt o) { REAL(nlopt_remove_equality_constraints); if (!Mine(o)) return real(o);  vector<nlopt_opt_s::F> k; for (auto& c : o->cons) if (!c.eq) k.push_back(c); o->cons = k; return real(R(o)); }
nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double* v) { REAL(nlopt_set_lower_bounds); if (!Mine(o)) return real(o, v);  o->lb.assign(v, v + o->n); return real(R(o), v); }
nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double* v) { REAL(nlopt_set_upper_bounds); if (!Mine(o)) return real(o, v);  o->ub.assign(v, v + o->n); return real(R(o), v); }
nlopt_result nlopt_set_lower_bounds1(nlopt_opt o, double v) { REAL(nlopt_set_lower_bounds1); if (!Mine(o)) return real(o, v);  o->lb.assign(o->n, v); return real(R(o), v); }
nlopt_result nlopt_set_upper_bounds1(nlopt_opt o, double v) { REAL(nlopt_set_upper_bounds1); if (!Mine(o)) return real(o, v);  o->ub.assign(o->n, v); return real(R(o), v); }
nlopt_result nlopt_set_ftol_rel(nlopt_opt o, double v) { REAL(nlopt_set_ftol_rel); if (!Mine(o)) return real(o, v);  o->ftol_rel = v; return real(R(o), v); }
nlopt_result nlopt_set_ftol_abs(nlopt_opt o, double v) { REAL(nlopt_set_ftol_abs); if (!Mine(o)) return real(o, v);  o->ftol_abs = v; return real(R(o), v); }
nlopt_result nlopt_set_maxeval(nlopt_opt o, int v) { REAL(nlopt_set_maxeval); if (!Mine(o)) return real(o, v);  o->maxeval = v; return real(R(o), v); }
nlopt_result nlopt_set_maxtime(nlopt_opt o, double v) { REAL(nlopt_set_maxtime); if (!Mine(o)) return real(o, v);  o->maxtime = v; return real(R(o), v); }
nlopt_result nlopt_set_xtol_rel(nlopt_opt o, double v) { REAL(nlopt_set_xtol_rel); if (!Mine(o)) return real(o, v);  return real(R(o), v); }
nlopt_result nlopt_set_stopval(nlopt_opt o, double v) { REAL(nlopt_set_stopval); if (!Mine(o)) return real(o, v);  return real(R(o), v); }
nlopt_result nlopt_force_stop(nlopt_opt o) { REAL(nlopt_force_stop); if (!Mine(o)) return real(o);  o->forced = 1; return real(R(o)); }
nlopt_result nlopt_set_force_stop(nlopt_opt o, int v) { REAL(nlopt_set_force_stop); if (!Mine(o)) return real(o, v);  o->forced = v; return real(R(o), v); }
int nlopt_get_force_stop(const nlopt_opt o) { REAL(nlopt_get_force_stop); if (!Mine(o)) return real(o);  return o->forced; }
nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* f) {
  REAL(nlopt_optimize);
  if (!Mine(o)) return real(o, x, f);
  o->forced = 0;
  return on_optimize ? on_optimize(o, x, f) : real(R(o), x, f); }
}

namespace {
const Variable x{"x"}, y{"y"}, p{"p"};
using Fn = std::function<double(double, double, double)>;
struct Term { string n; Expression e; Fn v; bool smooth{true}; };
const vector<Term>& Terms() {
  static const vector<Term> t{
      {"1", 1, [](double, double, double) { return 1.0; }},
      {"0", 0, [](double, double, double) { return 0.0; }},
      {"x", x, [](double a, double, double) { return a; }},
      {"y", y, [](double, double b, double) { return b; }},
      {"p", p, [](double, double, double c) { return c; }},
      {"x+y", x + y, [](double a, double b, double) { return a + b; }},
      {"x*y", x * y, [](double a, double b, double) { return a * b; }},
      {"x^2+y^2", x * x + y * y, [](double a, double b, double) { return a * a + b * b; }},
      {"sin(x)+y", sin(x) + y, [](double a, double b, double) { return std::sin(a) + b; }},
      {"x*p", x * p, [](double a, double, double c) { return a * c; }},
      {"exp(y)-p", exp(y) - p, [](double, double b, double c) { return std::exp(b) - c; }},
      {"2x-3y+1", 2 * x - 3 * y + 1, [](double a, double b, double) { return 2 * a - 3 * b + 1; }},
      {"x^3*y", pow(x, 3) * y, [](double a, double b, double) { return a * a * a * b; }},
      {"log(y+4)", log(y + 4), [](double, double b, double) { return std::log(b + 4); }},
      {"x/(y+5)", x / (y + 5), [](double a, double b, double) { return a / (b + 5); }},
      {"sqrt(x+3)*p", sqrt(x + 3) * p, [](double a, double, double c) { return std::sqrt(a + 3) * c; }},
      {"cos(x*y)", cos(x * y), [](double a, double b, double) { return std::cos(a * b); }},
      {"tanh(x)-y", tanh(x) - y, [](double a, double b, double) { return std::tanh(a) - b; }},
      {"max(x,y)", max(x, y), [](double a, double b, double) { return std::max(a, b); }, false},
      {"abs(y)", abs(y), [](double, double b, double) { return std::fabs(b); }, false}};
  return t;
}
const double kG[] = {-2, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2};
const double kP[] = {-1, 2};
enum Rel { LE, LT, GE, GT, EQ, NE, kRels };
const char* kRel[] = {"<=", "<", ">=", ">", "==", "!="};
Formula Make(int r, const Expression& a, const Expression& b) {
  switch (r) { case LE: return a <= b; case LT: return a < b; case GE: return a >= b; case GT: return a > b; case EQ: return a == b; default: return a != b; } }
int Opposite(int r) { const int o[] = {GT, GE, LT, LE, NE, EQ}; return o[r]; }
struct Spec { string n; int rel; Fn a, b; };  // what is asked of a point
// The closed constraint: > 0 violated, < 0 holds with room, 0 on the border.
double Margin(const Spec& s, double a, double b, double c) {
  const double m = s.a(a, b, c) - s.b(a, b, c);
  return s.rel == LE || s.rel == LT ? m : s.rel == GE || s.rel == GT ? -m : std::fabs(m); }
string Num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

// Evaluates everything that was handed over at every point of the grid.
// Returns the first difference.
struct Want { vector<Spec> cons; Fn obj; bool smooth{true}, bounded{false}; };
string Judge(nlopt_opt o, const Want& w, double c, vf::Ctx& ctx) {
  const bool grad = w.smooth;
  auto call = [&](const nlopt_opt_s::F& f, const double* v, double* g) { return f.f(2, v, g, f.d); };
  auto slope = [&](const nlopt_opt_s::F& f, const double* v, const string& what) -> string {
    double g[2] = {777, 777}; call(f, v, g);
    if (o->forced) return "";
    for (int k = 0; k < 2; ++k) {
      double l[2] = {v[0], v[1]}, r[2] = {v[0], v[1]}; l[k] -= 1e-5; r[k] += 1e-5;
      const double d = (call(f, r, nullptr) - call(f, l, nullptr)) / 2e-5;
      ++ctx.evals;
      if (!(std::fabs(d - g[k]) <= 1e-4 * (1 + std::fabs(d)))) return what + " at (" + Num(v[0]) + ", " + Num(v[1]) + "): gradient " + Num(g[k]) + " in dimension " + std::to_string(k) + ", but it rises by " + Num(d);
    }
    return "";
  };
  for (double a : kG) for (double b : kG) {
    const double v[2] = {a, b};
    ++ctx.transitions;
    if (w.obj) {
      const double got = o->sign * call(o->obj, v, nullptr), want = w.obj(a, b, c);
      if (o->forced) return "";  // the exception is reported by the caller
      if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) return "objective at (" + Num(a) + ", " + Num(b) + "), p = " + Num(c) + ": " + Num(got) + " instead of " + Num(want);
      if (grad) { const string s = slope(o->obj, v, "objective"); if (!s.empty()) return s; }
    }
    // 1 violated, 0 on the border, -1 holds
    int want = -1, got = -1;
    for (auto& s : w.cons) { const double m = Margin(s, a, b, c); want = std::max(want, s.rel == EQ ? (m > 1e-9 ? 1 : 0) : m > 1e-9 ? 1 : m < -1e-9 ? -1 : 0); }
    for (int k = 0; k < 2; ++k) { const double d = std::max(o->lb[k] - v[k], v[k] - o->ub[k]); got = std::max(got, d > 0 ? 1 : d < 0 ? -1 : 0); }
    for (auto& f : o->cons) {
      const double m = call(f, v, nullptr);
      if (o->forced) return "";
      got = std::max(got, std::isnan(m) ? 1 : f.eq ? (std::fabs(m) > 1e-9 ? 1 : 0) : m > 1e-9 ? 1 : m < -1e-9 ? -1 : 0);
      if (grad) { const string s = slope(f, v, "constraint"); if (!s.empty()) return s; }
    }
    ++ctx.evals;
    if ((want == 1) != (got == 1)) return "(" + Num(a) + ", " + Num(b) + "), p = " + Num(c) + (want == 1 ? " violates the constraints, but is feasible for the optimiser" : " satisfies the constraints, but is not feasible for the optimiser");
  }
  return "";
}
Box XY(double l = -3, double u = 3) { Box b; b.Add(x, l, u); b.Add(y, l, u); return b; }
Config Conf() { Config c; c.mutable_precision() = 1e-4; c.mutable_nlopt_maxtime() = 100; return c; }
Environment Env(double c) { Environment e; e.insert(p, c); return e; }
}  // namespace

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const auto& T = Terms();
  const int nt = T.size();
  d.rule = "a point violates what the optimiser is given iff it violates the (closed) constraints or bounds; the objective and its slopes are those of the term at the given values; a refined counterexample differs only in the quantified variables";
  d.bounds = {"20 terms x 20 terms x 6 relations x 6 ways of adding a constraint, at 81 points for 2 values of the parameter", "histories of objectives, constraints and solving to depth " + string(d.thorough ? "6" : "5"), "42 bounds x 108 settings x 2 orders; 7 convex problems from 81 starts", "refiner: conjunctions of up to " + string(d.thorough ? "4" : "3") + " of 12 atoms x 6 orders of the box x 10 results of the library x 2 counterexamples"};
  // 1. every relation between two terms, added in every way
  d.Add("constraints", static_cast<int64_t>(nt) * nt, [&, nt](int64_t u, vf::Ctx& c) {
    const auto &A = T[u / nt], &B = T[u % nt];
    for (int r = 0; r < kRels; ++r) for (int way = 0; way < 6; ++way) {
      const Formula base = Make(r, A.e, B.e);
      if (!is_relational(base)) continue;
      const Formula f = way == 1 ? !base : base;
      const int rel = way == 1 ? Opposite(r) : r;
      const string id = string(way == 1 ? "!(" : "") + A.n + " " + kRel[r] + " " + B.n + (way == 1 ? ")" : "") + " way " + std::to_string(way);
      c.Note(id);
      Want w; w.smooth = A.smooth && B.smooth;
      w.cons.push_back({id, rel, A.v, B.v});
      w.obj = [](double a, double b, double) { return a + b; };
      const bool ok = rel != NE;
      bool thrown = false; string bad;
      const Config conf = Conf();
      NloptOptimizer opt(w.smooth ? nlopt::algorithm::LD_SLSQP : nlopt::algorithm::LN_COBYLA, XY(), conf);
      ++c.traces;
      try {
        opt.SetMinObjective(x + y);
        const Spec extra{"x <= 1", LE, [](double a, double, double) { return a; }, [](double, double, double) { return 1.0; }};
        const Spec extra2{"x + 2y > -3", GT, [](double a, double b, double) { return a + 2 * b; }, [](double, double, double) { return -3.0; }};
        switch (way) {
          case 0: case 1: opt.AddConstraint(f); break;
          case 2: opt.AddRelationalConstraint(f); break;
          case 3: opt.AddConstraint(f && x <= 1); w.cons.push_back(extra); break;
          case 4: opt.AddConstraints({x <= 1, f}); w.cons.push_back(extra); break;
          default: opt.AddConstraint(x <= 1 && (f && x + 2 * y > -3)); w.cons.push_back(extra); w.cons.push_back(extra2); break;
        }
      } catch (std::exception&) { thrown = true; }
      c.State(id); c.Outcome(string(thrown ? "t" : "a") + kRel[rel]);
      if (thrown == ok) { c.Fail(id, id + (ok ? ": is refused" : ": is accepted")); continue; }
      if (thrown) continue;
      for (double pv : kP) {
        on_optimize = [&](nlopt_opt o, double*, double*) {
          bad = Judge(o, w, pv, c);
          for (auto& f : o->cons) if (!(f.tol >= 0 && f.tol <= conf.precision())) bad = "tolerance " + Num(f.tol) + " exceeds the precision";
          return o->forced ? NLOPT_FORCED_STOP : NLOPT_SUCCESS; };
        vector<double> sol{0, 0}; double v = 0;
        try { opt.Optimize(&sol, &v, Env(pv)); } catch (std::exception& e) { bad = string("exception: ") + e.what(); }
        on_optimize = nullptr;
        if (!bad.empty()) { c.Fail(id, id + ": " + bad); break; }
      }
      ++c.nontrivial;
    }
  });
  // 2. what is not a conjunction of relations is refused, and changes nothing
  const Variable bv{"b", Variable::Type::BOOLEAN};
  const vector<Formula> refused{x <= 1 || y >= 1, !(x <= 1 && y >= 1), x != y, !(x == y), Formula(bv), !Formula(bv), forall({y}, x <= y), !forall({y}, x <= y)};
  d.Add("refused", refused.size(), [&](int64_t u, vf::Ctx& c) {
    const Config conf = Conf();
    std::ostringstream os; os << refused[u];
    c.Note(os.str()); c.State(os.str());
    bool thrown = false; string bad;
    NloptOptimizer opt(nlopt::algorithm::LD_SLSQP, XY(), conf);
    opt.SetMinObjective(x * y);
    try { opt.AddConstraint(refused[u]); } catch (std::exception&) { thrown = true; }
    ++c.traces;
    if (!thrown) { c.Fail(os.str(), os.str() + ": is accepted"); return; }
    Want w; w.obj = [](double a, double b, double) { return a * b; };
    on_optimize = [&](nlopt_opt o, double*, double*) { bad = Judge(o, w, 0, c); return NLOPT_SUCCESS; };
    vector<double> sol{0, 0}; double v = 0;
    opt.Optimize(&sol, &v);
    on_optimize = nullptr;
    if (!bad.empty()) c.Fail(os.str() + " after", os.str() + " was refused: " + bad);
  });
  // 3. bounds and limits
  const double kB[] = {-HUGE_VAL, -3, 0, 1e-6, 2.5, 1e300, HUGE_VAL};
  const double kTol[] = {1e-9, 1e-6, 0.25};
  d.Add("settings", 7 * 7, [&](int64_t u, vf::Ctx& c) {
    const double lo = kB[u / 7], hi = kB[u % 7];
    if (!(lo <= hi) || (std::isinf(lo) && lo == hi)) return;
    for (double fr : kTol) for (double fa : kTol) for (int me : {1, 7, 1000}) for (double mt : {0.01, 2.5}) for (int alg = 0; alg < 2; ++alg) for (int order = 0; order < 2; ++order) {
      Config conf; conf.mutable_precision() = 0.01; conf.mutable_nlopt_ftol_rel() = fr; conf.mutable_nlopt_ftol_abs() = fa; conf.mutable_nlopt_maxeval() = me; conf.mutable_nlopt_maxtime() = mt;
      Box b;
      if (order == 0) { b.Add(x, lo, hi); b.Add(y, -1, 7); } else { b.Add(y, -1, 7); b.Add(x, lo, hi); }
      const int ix = order;
      const auto a = alg == 0 ? nlopt::algorithm::LD_SLSQP : nlopt::algorithm::LN_COBYLA;
      NloptOptimizer opt(a, b, conf);
      opt.SetMinObjective(x + 10 * y);
      string bad;
      on_optimize = [&](nlopt_opt o, double* s, double* f) {
        if (o->alg != static_cast<nlopt_algorithm>(a)) bad = "another algorithm";
        if (o->n != 2) bad = "another dimension";
        if (o->lb[ix] != lo || o->ub[ix] != hi || o->lb[1 - ix] != -1 || o->ub[1 - ix] != 7) bad = "other bounds";
        if (o->ftol_rel != fr) bad = "relative tolerance " + Num(o->ftol_rel);
        if (o->ftol_abs != fa) bad = "absolute tolerance " + Num(o->ftol_abs);
        if (o->maxeval != me) bad = "evaluations " + Num(o->maxeval);
        if (o->maxtime != mt) bad = "time " + Num(o->maxtime);
        if (s[0] != 0.5 || s[1] != 0.75) bad = "another starting point";
        double v[2] = {3, 5};
        if (o->obj.f(2, v, nullptr, o->obj.d) != (ix == 0 ? 53 : 35)) bad = "the dimensions are mixed up";
        s[0] = 11; s[1] = 12; *f = 13;
        return NLOPT_FTOL_REACHED; };
      vector<double> sol{0.5, 0.75}; double v = 0;
      const auto r = opt.Optimize(&sol, &v);
      on_optimize = nullptr;
      if (r != nlopt::result::FTOL_REACHED || sol != vector<double>({11, 12}) || v != 13) bad = "the solution of the library is not the one returned";
      const string id = "[" + Num(lo) + ", " + Num(hi) + "] " + Num(fr) + " " + Num(fa) + " " + std::to_string(me) + " " + Num(mt) + " " + std::to_string(alg) + std::to_string(order);
      ++c.traces; ++c.transitions; ++c.evals; c.State(id);
      if (!bad.empty()) c.Fail(id, id + ": " + bad);
    }
    ++c.nontrivial;
  });
  // 4. histories
  const int depth = d.thorough ? 6 : 5, kOps = 8;
  int64_t heads = kOps * kOps;
  d.Add("histories", heads, [&, depth, kOps](int64_t u, vf::Ctx& c) {
    const char* name[] = {"min x*p+y^2", "min sin(x)-y", "add x+y<=p", "add !(y>=x*p)", "add x^2+y^2==p*p", "add x-y>=-p && x<=1", "solve p=-1", "solve p=2"};
    int64_t total = 1;
    for (int i = 2; i < depth; ++i) total *= kOps;
    auto V = [](double k) { return [k](double, double, double) { return k; }; };
    (void)V;
    const Fn o1 = [](double a, double b, double q) { return a * q + b * b; }, o2 = [](double a, double b, double) { return std::sin(a) - b; };
    for (int64_t t = 0; t < total; ++t) {
      vector<int> ops{static_cast<int>(u / kOps), static_cast<int>(u % kOps)};
      int64_t k = t;
      for (int i = 2; i < depth; ++i) { ops.push_back(k % kOps); k /= kOps; }
      if (ops.back() < 6) continue;  // ends with a solve; its prefixes do too
      if (std::count(ops.begin(), ops.end(), 4) > 2) continue;  // the library takes at most one equality per dimension
      string id; for (int o : ops) id += string(id.empty() ? "" : "; ") + name[o];
      c.Note(id);
      const Config conf = Conf();
      NloptOptimizer opt(nlopt::algorithm::LD_SLSQP, XY(), conf);
      Want w; string bad;
      ++c.traces;
      for (int o : ops) {
        switch (o) {
          case 0: opt.SetMinObjective(x * p + y * y); w.obj = o1; break;
          case 1: opt.SetMinObjective(sin(x) - y); w.obj = o2; break;
          case 2: opt.AddConstraint(x + y <= p); w.cons.push_back({"", LE, [](double a, double b, double) { return a + b; }, [](double, double, double q) { return q; }}); break;
          case 3: opt.AddConstraint(!(y >= x * p)); w.cons.push_back({"", LT, [](double, double b, double) { return b; }, [](double a, double, double q) { return a * q; }}); break;
          case 4: opt.AddConstraint(x * x + y * y == p * p); w.cons.push_back({"", EQ, [](double a, double b, double) { return a * a + b * b; }, [](double, double, double q) { return q * q; }}); break;
          case 5: opt.AddConstraint(x - y >= -p && x <= 1); w.cons.push_back({"", GE, [](double a, double b, double) { return a - b; }, [](double, double, double q) { return -q; }});
            w.cons.push_back({"", LE, [](double a, double, double) { return a; }, [](double, double, double) { return 1.0; }}); break;
          default: {
            const double pv = kP[o - 6];
            on_optimize = [&](nlopt_opt q, double*, double*) {
              if (q->has_obj != static_cast<bool>(w.obj)) bad = "the objective is missing"; else bad = Judge(q, w, pv, c);
              return q->forced ? NLOPT_FORCED_STOP : NLOPT_SUCCESS; };
            vector<double> sol{0, 0}; double v = 0;
            try { opt.Optimize(&sol, &v, Env(pv)); } catch (std::exception& e) { bad = string("exception: ") + e.what(); }
            on_optimize = nullptr;
            ++c.nontrivial;
          }
        }
        if (!bad.empty()) break;
      }
      c.State(id);
      if (!bad.empty()) c.Fail(id, id + ": " + bad);
    }
  }, 300);
  // 5. convex problems are solved by the real library from every start
  struct Prob { string n; Expression obj; Formula con; double best, sx, sy; };
  const vector<Prob> P{{"x+y in the disc", x + y, x * x + y * y <= 2, -2, -1, -1},
                       {"distance to (2,1) below the line", pow(x - 2, 2) + pow(y - 1, 2), x + y <= 1, 2, 1, 0},
                       {"distance to (2,1) below the line, negated", pow(x - 2, 2) + pow(y - 1, 2), !(x + y > 1), 2, 1, 0},
                       {"distance to the origin on a line", x * x + y * y, x + 2 * y == 2.5, 1.25, 0.5, 1},
                       {"a corner", -x - 2 * y, x <= 1 && y <= 0.5 && x + y >= -5, -2, 1, 0.5},
                       {"exp", exp(x) + y * y, x >= -1 && !(y <= 0.5), std::exp(-1.0) + 0.25, -1, 0.5},
                       {"only the bounds", x - y, x >= -4, -6, -3, 3}};
  d.Add("solved", P.size(), [&](int64_t u, vf::Ctx& c) {
    const auto& q = P[u];
    for (double a : kG) for (double b : kG) {
      Config conf = Conf(); conf.mutable_nlopt_maxeval() = 2000; conf.mutable_nlopt_ftol_rel() = 1e-9; conf.mutable_nlopt_ftol_abs() = 1e-9;
      NloptOptimizer opt(nlopt::algorithm::LD_SLSQP, XY(), conf);
      opt.SetMinObjective(q.obj); opt.AddConstraint(q.con);
      vector<double> sol{a, b}; double v = 0;
      const string id = q.n + " from (" + Num(a) + ", " + Num(b) + ")";
      c.Note(id); c.State(id); ++c.traces; ++c.transitions; ++c.evals;
      try { opt.Optimize(&sol, &v); } catch (std::exception& e) { c.Fail(id, id + ": exception " + e.what()); continue; }
      if (!(std::fabs(v - q.best) <= 0.01)) c.Fail(id, id + ": value " + Num(v) + " at (" + Num(sol[0]) + ", " + Num(sol[1]) + ") instead of " + Num(q.best));
      c.Outcome(Num(std::round(v * 100)));
    }
    ++c.nontrivial;
  });
  // 6. refining a counterexample
  const Variable e{"e"}, y1{"y1"}, y2{"y2"};
  struct Atom { string n; Formula f; int rel; Fn m; bool mixed, bound; };  // m(e, y1, y2) = lhs - rhs
  const vector<Atom> A{
      {"y1 >= -1", y1 >= -1, GE, [](double, double a, double) { return a + 1; }, false, true},
      {"y1 <= 1", y1 <= 1, LE, [](double, double a, double) { return a - 1; }, false, true},
      {"y2 < 0.5", y2 < 0.5, LT, [](double, double, double b) { return b - 0.5; }, false, true},
      {"y2 > -1.5", y2 > -1.5, GT, [](double, double, double b) { return b + 1.5; }, false, true},
      {"e*y1 >= 0.5", e * y1 >= 0.5, GE, [](double k, double a, double) { return k * a - 0.5; }, true, false},
      {"e+y2 < 1", e + y2 < 1, LT, [](double k, double, double b) { return k + b - 1; }, true, false},
      {"sin(e)*y1 > y2", sin(e) * y1 > y2, GT, [](double k, double a, double b) { return std::sin(k) * a - b; }, true, false},
      {"e^2 <= y1+y2", e * e <= y1 + y2, LE, [](double k, double a, double b) { return k * k - a - b; }, true, false},
      {"y1*y2 == 0.25", y1 * y2 == 0.25, EQ, [](double, double a, double b) { return a * b - 0.25; }, false, false},
      {"e*y2 == y1", e * y2 == y1, EQ, [](double k, double a, double b) { return k * b - a; }, true, false},
      {"y1-y2 <= 1", y1 - y2 <= 1, LE, [](double, double a, double b) { return a - b - 1; }, false, false},
      {"abs(y1)+e > 0.5", abs(y1) + e > 0.5, GT, [](double k, double a, double) { return std::fabs(a) + k - 0.5; }, true, false}};
  const int na = A.size();
  vector<vector<int>> Q;
  for (int m = 1; m < (1 << na); ++m) {
    vector<int> s;
    for (int k = 0; k < na; ++k) if (m >> k & 1) s.push_back(k);
    if (static_cast<int>(s.size()) <= (d.thorough ? 4 : 3)) Q.push_back(s);
  }
  const nlopt_result kRes[] = {NLOPT_SUCCESS, NLOPT_STOPVAL_REACHED, NLOPT_FTOL_REACHED, NLOPT_XTOL_REACHED, NLOPT_MAXEVAL_REACHED, NLOPT_MAXTIME_REACHED, NLOPT_FAILURE, NLOPT_INVALID_ARGS, NLOPT_OUT_OF_MEMORY, NLOPT_FORCED_STOP};
  d.Add("refiner", Q.size(), [&](int64_t u, vf::Ctx& c) {
    string base; vector<Formula> fs; bool smooth = true, all_bounds = true, objective = false;
    for (int k : Q[u]) { base += (base.empty() ? "" : " and ") + A[k].n; fs.push_back(A[k].f); smooth &= k != 11; all_bounds &= A[k].bound; objective |= A[k].mixed && A[k].rel != EQ; }
    Formula query = Formula::True();
    for (auto& f : fs) query = query && f;
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int o = 0; o < 6; ++o) for (nlopt_result res : kRes) {
      const string id = base + ", box in order " + std::to_string(o) + ", result " + std::to_string(res);
      c.Note(id); c.State(id); ++c.traces;
      const Variable* vs[] = {&e, &y1, &y2};
      const Box::Interval iv[] = {{0.25, 0.75}, {-0.5, 0.25}, {-1, 0.5}};
      Box box; for (int k : perm[o]) { box.Add(*vs[k]); box[*vs[k]] = iv[k]; }
      Config conf; conf.mutable_precision() = 0.01;
      CounterexampleRefiner refiner(query, Variables{y1, y2}, conf);
      for (int round = 0; round < 2; ++round) {
        string bad; bool called = false;
        if (round == 1) box[e] = Box::Interval(-1, -0.5);
        const double ev = box[e].mid();
        on_optimize = [&](nlopt_opt q, double* s, double* f) {
          called = true;
          if (q->n != 2) { bad = "dimension " + std::to_string(q->n); return NLOPT_FAILURE; }
          const double s1 = s[0], s2 = s[1];  // in the order of y1, y2
          if (s1 != iv[1].mid() || s2 != iv[2].mid()) bad = "starts at (" + Num(s1) + ", " + Num(s2) + ") instead of the middle of the counterexample";
          if (q->has_obj != objective) bad = objective ? "no objective" : "an objective";
          if (o == 0 && res == NLOPT_SUCCESS) for (double a : kG) for (double b : kG) {
            const double v[2] = {a, b};
            int want = -1, got = -1; double ob = 0;
            for (int k : Q[u]) { double m = A[k].m(ev, a, b); const int r = A[k].rel; if (r == GE || r == GT) m = -m; if (A[k].mixed && r != EQ) ob += m; want = std::max(want, r == EQ ? (std::fabs(m) > 1e-9 ? 1 : 0) : m > 1e-9 ? 1 : m < -1e-9 ? -1 : 0); }
            for (int k = 0; k < 2; ++k) { const double dd = std::max(q->lb[k] - v[k], v[k] - q->ub[k]); got = std::max(got, dd > 1e-9 ? 1 : dd < -1e-9 ? -1 : 0); }
            for (auto& g : q->cons) { const double m = g.f(2, v, nullptr, g.d); if (q->forced) return NLOPT_FORCED_STOP; got = std::max(got, g.eq ? (std::fabs(m) > 1e-9 ? 1 : 0) : m > 1e-9 ? 1 : m < -1e-9 ? -1 : 0); }
            ++c.evals; ++c.transitions;
            const string at = " at y1 = " + Num(a) + ", y2 = " + Num(b) + ", e = " + Num(ev);
            if ((want == 1) != (got == 1)) bad = string("what the optimiser is given differs from the query") + at;
            if (objective) { const double g = q->sign * q->obj.f(2, v, nullptr, q->obj.d); if (q->forced) return NLOPT_FORCED_STOP; if (!(std::fabs(g - ob) <= 1e-9 * (1 + std::fabs(ob)))) bad = "objective " + Num(g) + " instead of " + Num(ob) + at; }
          }
          s[0] = 0.125; s[1] = -0.375; *f = 1;
          return res; };
        const Box before = box; Box after;
        try { after = refiner.Refine(box); } catch (std::exception& x2) { bad = string("exception ") + x2.what(); }
        on_optimize = nullptr;
        if (bad.empty()) {
          if (called == all_bounds) bad = called ? "the optimiser is asked though nothing is left" : "the optimiser is not asked";
          Box want = before;
          if (called && res > 0) { want[y1] = 0.125; want[y2] = -0.375; }
          std::ostringstream g, h; g << after; h << want;
          if (after != want) bad = "returns " + g.str() + " instead of " + h.str();
        }
        ++c.evals; c.Outcome(std::to_string(called) + std::to_string(res));
        if (!bad.empty()) { for (char& ch : bad) if (ch == '\n') ch = ' '; c.Fail(id, id + ": " + bad); break; }
      }
      ++c.nontrivial;
    }
  });
  return d.Run();
}
