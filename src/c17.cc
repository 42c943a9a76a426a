// C17: threads may share symbolic terms freely. The library's own code is run
// by two or three threads under every schedule within a preemption bound (see
// xsched.h); the threads hold separate handles to the same nodes. Every
// thread's result is compared with what the same operations give alone.
// BUILD: flavor=t src=xsched.cc
#include <memory>
#include <thread>

#include "dreal/symbolic/symbolic.h"
#include "vf.h"
#include "xsched.h"
using namespace dreal;  // NOLINT
using dreal::drake::symbolic::ExpressionSubstitution;
using dreal::drake::symbolic::FormulaSubstitution;

// What one thread owns: handles to shared nodes, and room for its results.
struct Own {
  std::unique_ptr<Expression> e, f;
  std::unique_ptr<Formula> p, q;
  std::unique_ptr<Variable> x, y, b;
  std::vector<Expression> re;
  std::vector<Formula> rf;
  std::vector<Variable> rv;
  std::vector<double> rd;
  std::vector<std::string> rs;
  bool threw{false};
};

struct Op {
  const char* name;
  char kind;  // e, f, v: needs expressions, formulas, variables
  void (*run)(Own&);
};
#define OP(k, n, ...) {n, k, [](Own& o) { __VA_ARGS__; }}
static const Op kOps[] = {
    // handles
    OP('e', "copy e", o.re.push_back(*o.e)),
    OP('e', "copy e, drop it", { Expression t{*o.e}; }),
    OP('e', "drop e", { Expression t{std::move(*o.e)}; o.e.reset(); }),
    OP('e', "f = e", *o.f = *o.e),
    OP('e', "move e", { o.re.push_back(std::move(*o.e)); o.e.reset(); }),
    OP('e', "swap e f", std::swap(*o.e, *o.f)),
    // compound assignment: reuses the node when the handle is the only one
    OP('e', "e += 1", *o.e += 1.0),
    OP('e', "e *= 3", *o.e *= 3.0),
    OP('e', "e += f", *o.e += *o.f),
    OP('e', "e -= f", *o.e -= *o.f),
    OP('e', "e *= f", *o.e *= *o.f),
    OP('e', "e /= 2", *o.e /= 2.0),
    OP('e', "++e", ++*o.e),
    OP('e', "-move(e)", { o.re.push_back(-std::move(*o.e)); o.e.reset(); }),
    OP('e', "move(e) + f", { o.re.push_back(std::move(*o.e) + *o.f); o.e.reset(); }),
    OP('e', "move(e) * f", { o.re.push_back(std::move(*o.e) * *o.f); o.e.reset(); }),
    // building
    OP('e', "e + f", o.re.push_back(*o.e + *o.f)),
    OP('e', "e * f", o.re.push_back(*o.e * *o.f)),
    OP('e', "-e", o.re.push_back(-*o.e)),
    OP('e', "pow(e,2)", o.re.push_back(pow(*o.e, 2.0))),
    OP('e', "sin(e)", o.re.push_back(sin(*o.e))),
    OP('e', "e / f", o.re.push_back(*o.e / *o.f)),
    OP('e', "ite", o.re.push_back(if_then_else(*o.e > *o.f, *o.e, *o.f))),
    OP('e', "e > f", o.rf.push_back(*o.e > *o.f)),
    OP('e', "e == f", o.rf.push_back(*o.e == *o.f)),
    // looking
    OP('e', "eval", { Environment v{{*o.x, 0.5}, {*o.y, 0.25}}; o.rd.push_back(o.e->Evaluate(v)); }),
    OP('e', "compare", { o.rd.push_back(o.e->EqualTo(*o.f)); o.rd.push_back(o.e->Less(*o.f)); o.rd.push_back(o.f->Less(*o.e)); }),
    OP('e', "print", o.rs.push_back(o.e->to_string())),
    OP('e', "variables", { Variables v{o.e->GetVariables()}; o.rd.push_back(v.size()); o.rd.push_back(v.include(*o.x)); }),
    // transforming
    OP('e', "substitute", { ExpressionSubstitution s; s.emplace(*o.x, *o.f); o.re.push_back(o.e->Substitute(s)); }),
    OP('e', "expand", o.re.push_back(o.e->Expand())),
    OP('e', "differentiate", o.re.push_back(o.e->Differentiate(*o.x))),
    // formulas
    OP('f', "copy p", o.rf.push_back(*o.p)),
    OP('f', "copy p, drop it", { Formula t{*o.p}; }),
    OP('f', "drop p", { Formula t{std::move(*o.p)}; o.p.reset(); }),
    OP('f', "q = p", *o.q = *o.p),
    OP('f', "move p", { o.rf.push_back(std::move(*o.p)); o.p.reset(); }),
    OP('f', "p && q", o.rf.push_back(*o.p && *o.q)),
    OP('f', "p || q", o.rf.push_back(*o.p || *o.q)),
    OP('f', "move(p) && q", { o.rf.push_back(std::move(*o.p) && *o.q); o.p.reset(); }),
    OP('f', "move(p) || q", { o.rf.push_back(std::move(*o.p) || *o.q); o.p.reset(); }),
    OP('f', "p = p && q", *o.p = *o.p && *o.q),
    OP('f', "!p", o.rf.push_back(!*o.p)),
    OP('f', "forall p", o.rf.push_back(dreal::forall({*o.x}, *o.p))),
    OP('f', "imply", o.rf.push_back(dreal::imply(*o.p, *o.q))),
    OP('f', "eval p", { Environment v{{*o.x, 0.5}, {*o.y, 0.25}, {*o.b, 1.0}}; try { o.rd.push_back(o.p->Evaluate(v)); } catch (const std::runtime_error&) { o.threw = true; } }),
    OP('f', "compare p", { o.rd.push_back(o.p->EqualTo(*o.q)); o.rd.push_back(o.p->Less(*o.q)); o.rd.push_back(o.q->Less(*o.p)); }),
    OP('f', "print p", o.rs.push_back(o.p->to_string())),
    OP('f', "free variables", { Variables v{o.p->GetFreeVariables()}; o.rd.push_back(v.size()); o.rd.push_back(v.include(*o.x)); }),
    OP('f', "substitute p", { ExpressionSubstitution s; s.emplace(*o.x, Expression{*o.y} + 1.0); FormulaSubstitution t; o.rf.push_back(o.p->Substitute(s, t)); }),
    // variables
    OP('v', "new variable", o.rv.push_back(Variable{"t"})),
    OP('v', "two new variables", { o.rv.push_back(Variable{"t"}); o.rv.push_back(Variable{"u", Variable::Type::BOOLEAN}); }),
    OP('v', "copy x", { Variable t{*o.x}; Variable u; u = t; }),
    OP('v', "drop x", o.x.reset()),
    OP('v', "expression of x", o.re.push_back(Expression{*o.x})),
    OP('v', "name of x", o.rs.push_back(o.x->get_name())),
    OP('v', "formula of b", o.rf.push_back(Formula{*o.b})),
    OP('v', "set of variables", { Variables v{*o.x, *o.y}; v.erase(*o.x); o.rd.push_back(v.size()); }),
    OP('v', "x + y", o.re.push_back(*o.x + *o.y)),
    // constants: statically allocated nodes, created on first use
    OP('c', "zero", o.re.push_back(Expression::Zero())),
    OP('c', "one", o.re.push_back(Expression::One())),
    OP('c', "default", o.re.push_back(Expression{})),
    OP('c', "constants", { o.re.push_back(Expression{0.0}); o.re.push_back(Expression{1.0}); o.re.push_back(Expression{2.5}); }),
    OP('c', "pi e", { o.re.push_back(Expression::Pi()); o.re.push_back(Expression::E()); }),
    OP('c', "nan", o.rd.push_back(is_nan(Expression::NaN()))),
    OP('c', "true false", { o.rf.push_back(Formula::True()); o.rf.push_back(Formula::False()); }),
    OP('c', "1 > 0", o.rf.push_back(Expression{1.0} > Expression{0.0})),
    OP('c', "0 + 1", o.re.push_back(Expression{0.0} + Expression{1.0})),
    OP('c', "term of new variable", { Variable v{"t"}; o.re.push_back(0.0 + v * 1.0 + pow(v, 2.0) - v); o.rv.push_back(v); }),
    OP('c', "default variable", { Variable v; o.rd.push_back(v.get_id()); }),
};
constexpr int kNOps = sizeof(kOps) / sizeof(kOps[0]);

// The shared terms. They are built by the main thread, handed out, and its own
// handles are dropped before the threads run: the threads are the only owners.
static const char* kBase[] = {"sum", "product", "power", "quotient", "conditional", "function", "variable", "static constant", "constant",
                              "conjunction", "disjunction", "comparison", "negation", "quantified", "Boolean variable", "static truth"};
constexpr int kEB = 9, kFB = 7;
static void Build(int base, const Variable& x, const Variable& y, const Variable& b, Own* o) {
  const Expression c = sin(x);
  if (base < 0) return;
  if (base < kEB) {
    Expression e, f;
    switch (base) {
      case 0: e = c + y + 1.0; f = c * 2.0; break;
      case 1: e = c * y * 2.0; f = c + 1.0; break;
      case 2: e = pow(c, y); f = c; break;
      case 3: e = c / (y + 2.0); f = y + 2.0; break;
      case 4: e = if_then_else(x > y, c, y); f = c + x; break;
      case 5: e = max(c, y); f = y * c; break;
      case 6: e = x; f = x + y; break;
      case 7: e = Expression::One(); f = x; break;
      case 8: e = 3.5; f = e; break;
    }
    o->e.reset(new Expression(std::move(e)));
    o->f.reset(new Expression(std::move(f)));
  } else {
    Formula p, q;
    const Formula a = c > y, d = x + y <= 3.0;
    switch (base - kEB) {
      case 0: p = a && d; q = Formula{b}; break;
      case 1: p = a || d; q = a; break;
      case 2: p = a; q = Formula{b}; break;
      case 3: p = !(a && Formula{b}); q = d; break;
      case 4: p = dreal::forall({y}, a || d); q = a; break;
      case 5: p = Formula{b}; q = !p; break;
      case 6: p = Formula::True(); q = a; break;
    }
    o->p.reset(new Formula(std::move(p)));
    o->q.reset(new Formula(std::move(q)));
  }
}

struct Scenario {
  int base;
  std::vector<std::vector<int>> th;  // operations of each thread
  int only{-1};                      // run this thread alone
  bool share_vars{true};
};

static std::string Show(const Own& o, bool ids) {
  std::ostringstream s;
  s.precision(17);
  if (o.e) s << "e=" << *o.e << ';';
  if (o.f) s << "f=" << *o.f << ';';
  if (o.p) s << "p=" << *o.p << ';';
  if (o.q) s << "q=" << *o.q << ';';
  if (o.x) s << "x=" << o.x->get_name() << ';';
  for (auto& t : o.re) s << t << ';';
  for (auto& t : o.rf) s << t << ';';
  for (auto& t : o.rv) s << t.get_name() << ':' << static_cast<int>(t.get_type()) << ';';
  for (double d : o.rd) s << d << ';';
  for (auto& t : o.rs) s << t << ';';
  if (o.threw) s << "threw;";
  return s.str();
}

static void Body(void* arg) {
  const Scenario& sc = *static_cast<Scenario*>(arg);
  {  // warm up the formatting caches of the C++ library (nothing of dreal)
    std::ostringstream s;
    s << 1.5 << ' ' << true << ' ' << 7;
  }
  sched::Begin();
  {
    const int n = static_cast<int>(sc.th.size());
    std::vector<Own> own(n);
    size_t before = 0;
    if (sc.base != -1) {
      Variable x{"x"}, y{"y"}, b{"b", Variable::Type::BOOLEAN};
      before = b.get_id();
      Own first;
      Build(sc.base, x, y, b, &first);
      for (Own& o : own) {
        if (first.e) o.e.reset(new Expression(*first.e));
        if (first.f) o.f.reset(new Expression(*first.f));
        if (first.p) o.p.reset(new Formula(*first.p));
        if (first.q) o.q.reset(new Formula(*first.q));
        o.x.reset(new Variable(x));
        o.y.reset(new Variable(y));
        o.b.reset(new Variable(b));
      }
    }
    {
      std::vector<std::thread> t;
      t.reserve(n);
      for (int i = 0; i < n; ++i) {
        if (sc.only >= 0 && i != sc.only) continue;
        Own* o = &own[i];
        const std::vector<int>* ops = &sc.th[i];
        t.emplace_back([o, ops] {
          for (const int k : *ops) {
            try {
              kOps[k].run(*o);
            } catch (const std::exception&) {
              o->threw = true;
            }
          }
        });
      }
      sched::WaitAll();
      for (std::thread& w : t) w.join();
    }
    {
      sched::Untracked u;
      std::set<size_t> ids;
      size_t made = 0;
      for (const Own& o : own)
        for (const Variable& v : o.rv) {
          ids.insert(v.get_id());
          ++made;
          if (v.get_id() <= before) sched::Failure("variable identifier", "a new variable has the identifier of an older one");
        }
      if (ids.size() != made) sched::Failure("variable identifier", "two variables created concurrently have the same identifier");
      for (int i = 0; i < n; ++i) {
        const std::string s = (sc.only >= 0 && i != sc.only) ? "" : Show(own[i], false);
        sched::Out(s.data(), s.size());
        sched::Out("\1", 1);
      }
    }
  }
  sched::End();
}

static std::vector<std::string> Split(const char* p, size_t n) {
  std::vector<std::string> r;
  std::string c;
  for (size_t i = 0; i < n; ++i) {
    if (p[i] == 1) { r.push_back(c); c.clear(); }
    else c += p[i];
  }
  return r;
}
static std::string Name(const Scenario& sc) {
  std::string s = sc.base < 0 ? "[nothing shared]" : std::string("[") + kBase[sc.base] + "]";
  for (auto& t : sc.th) {
    s += " {";
    for (size_t i = 0; i < t.size(); ++i) s += (i ? "; " : "") + std::string(kOps[t[i]].name);
    s += "}";
  }
  return s;
}

struct Seen {
  std::vector<std::string> want, got;
  vf::Ctx* c;
  std::string name;
  int fails{0};
  bool on_alone{false};
};
static bool On(void* a, const sched::Run& r) {
  Seen& s = *static_cast<Seen*>(a);
  if (s.c->slot) s.c->slot->tick = s.c->slot->tick + 1;
  if (r.fail) {
    s.c->Fail(r.fail, std::string(r.msg) + " in " + s.name + " schedule " + r.schedule);
    return ++s.fails < 2;
  }
  s.got = Split(r.out, r.out_len);
  if (s.on_alone) return true;
  ++s.c->traces;
  s.c->evals += s.got.size();
  if (s.got != s.want) {
    std::string m;
    for (size_t i = 0; i < s.want.size(); ++i)
      if (i >= s.got.size() || s.got[i] != s.want[i])
        m += " thread " + std::to_string(i) + ": alone " + s.want[i] + " with others " + (i < s.got.size() ? s.got[i] : "-");
    s.c->Fail("result differs: " + s.name, "schedule " + std::string(r.schedule) + m);
    return ++s.fails < 2;
  }
  return true;
}

static std::map<std::pair<int, std::vector<int>>, std::string> g_alone;
static void RunScenario(Scenario sc, int bound, vf::Ctx& c) {
  const std::string name = Name(sc);
  c.Note(name);
  Seen s;
  s.c = &c;
  s.name = name;
  for (size_t i = 0; i < sc.th.size(); ++i) {
    const auto key = std::make_pair(sc.base, sc.th[i]);
    auto it = g_alone.find(key);
    if (it == g_alone.end()) {
      Scenario one = sc;
      one.th = {sc.th[i]};
      one.only = 0;
      sched::Config cfg;
      cfg.preemptions = 0;
      Seen t;
      t.c = &c;
      t.name = name + " (alone)";
      t.on_alone = true;
      sched::Explore(cfg, Body, &one, On, &t);
      if (t.fails || t.got.empty()) return;
      it = g_alone.emplace(key, t.got[0]).first;
    }
    s.want.push_back(it->second);
  }
  sched::Config cfg;
  cfg.preemptions = bound;
  const sched::Stats st = sched::Explore(cfg, Body, &sc, On, &s);
  c.transitions += st.steps;
  c.states += st.choices;
  c.extra["schedules"] += st.schedules;
  c.extra["memory accesses checked"] += st.accesses;
  c.extra["scenarios"] += 1;
  c.extra["shared synchronisation locations"] += st.shared;
  if (st.shared) ++c.nontrivial;
  c.Outcome(name);
  if (!st.complete && !s.fails) c.Fail("incomplete", "exploration stopped early in " + name);
  if (st.schedules > 40) c.Sample(name + ": " + std::to_string(st.schedules) + " schedules, " + std::to_string(st.shared) + " shared locations");
}

static bool Fits(const Op& o, int base) {
  if (base < 0) return o.kind == 'c' || !strcmp(o.name, "new variable") || !strcmp(o.name, "two new variables");
  if (o.kind == 'c') return false;
  if (o.kind == 'v') return base == 6 || base == kEB + 5;
  return base < kEB ? o.kind == 'e' : o.kind == 'f';
}
static int Find(const std::string& n) {
  for (int i = 0; i < kNOps; ++i)
    if (n == kOps[i].name) return i;
  abort();
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  const bool th = d.thorough;
  d.rule = "one transition = one scheduling decision point passed by the real library code; every schedule of a scenario within the preemption bound is run";
  // pairs of single operations
  {
    auto v = std::make_shared<std::vector<Scenario>>();
    for (int base = -1; base < kEB + kFB; ++base) {
      for (int i = 0; i < kNOps; ++i)
        for (int j = i; j < kNOps; ++j)
          if (Fits(kOps[i], base) && Fits(kOps[j], base)) v->push_back({base, {{i}, {j}}});
    }
    // in the quick tier the second preemption is spent where handles are made,
    // dropped and reused; elsewhere one
    auto core = [](const Scenario& s) {
      if (s.base < 0) return true;
      for (auto& t : s.th) {
        const std::string n = kOps[t[0]].name;
        if (n != "copy e, drop it" && n != "drop e" && n != "f = e" && n != "e += 1" && n != "e *= 3" && n != "-move(e)" &&
            n != "copy p, drop it" && n != "drop p" && n != "q = p" && n != "move(p) && q" && n != "move(p) || q" && n != "p = p && q" &&
            kOps[t[0]].kind != 'v') return false;
      }
      return true;
    };
    d.Add("pairs", v->size(), [v, th, core](int64_t u, vf::Ctx& c) { RunScenario((*v)[u], core((*v)[u]) ? (th ? 3 : 2) : (th ? 2 : 1), c); }, 300);
    d.bounds.push_back(std::string("pairs: 2 threads, one operation each, every pair of operations over each of 16 shared terms and over nothing shared; at most ") + (th ? "3" : "2") + " preemptions for pairs of operations that make, drop or reuse handles, " + (th ? "2" : "1") + " for others");
  }
  // two operations per thread
  {
    auto v = std::make_shared<std::vector<Scenario>>();
    std::vector<std::string> en = {"copy e, drop it", "drop e", "e += 1", "e *= 3", "eval"};
    std::vector<std::string> fn = {"copy p, drop it", "drop p", "move(p) && q", "move(p) || q", "compare p"};
    if (th) {
      for (const char* n : {"f = e", "e += f", "-move(e)", "substitute", "copy e"}) en.push_back(n);
      for (const char* n : {"q = p", "p = p && q", "!p", "substitute p"}) fn.push_back(n);
    }
    auto add = [&](const std::vector<std::string>& names, std::vector<int> bases) {
      std::vector<std::vector<int>> bodies;
      auto gone = [](const std::string& s) {
        return s == "drop e" || s == "drop p" || s.find("move(") != std::string::npos;
      };
      for (auto& a : names)
        for (auto& b : names)
          if (!gone(a)) bodies.push_back({Find(a), Find(b)});
      for (int base : bases)
        for (size_t i = 0; i < bodies.size(); ++i)
          for (size_t j = i; j < bodies.size(); ++j) v->push_back({base, {bodies[i], bodies[j]}});
    };
    add(en, th ? std::vector<int>{0, 1, 4, 6} : std::vector<int>{0, 1});
    add(fn, th ? std::vector<int>{kEB, kEB + 1, kEB + 4} : std::vector<int>{kEB});
    const int bound = 2;
    d.Add("two-operations", v->size(), [v, bound](int64_t u, vf::Ctx& c) { RunScenario((*v)[u], bound, c); }, 300);
    d.bounds.push_back("two-operations: 2 threads, two operations each on handles; at most " + std::to_string(bound) + " preemptions");
  }
  // three threads
  {
    auto v = std::make_shared<std::vector<Scenario>>();
    std::vector<std::string> en = {"copy e, drop it", "drop e", "e += 1", "e *= 3"};
    std::vector<std::string> fn = {"copy p, drop it", "drop p", "move(p) && q", "move(p) || q"};
    std::vector<std::string> vn = {"new variable", "drop x", "copy x", "expression of x"};
    if (th) {
      for (const char* n : {"f = e", "e += f", "-move(e)", "eval", "compare", "copy e"}) en.push_back(n);
      for (const char* n : {"q = p", "p = p && q", "!p", "compare p"}) fn.push_back(n);
    }
    auto add = [&](const std::vector<std::string>& names, std::vector<int> bases) {
      for (int base : bases)
        for (size_t i = 0; i < names.size(); ++i)
          for (size_t j = i; j < names.size(); ++j)
            for (size_t k = j; k < names.size(); ++k)
              v->push_back({base, {{Find(names[i])}, {Find(names[j])}, {Find(names[k])}}});
    };
    add(en, {0, 1});
    add(fn, {kEB, kEB + 1});
    add(vn, {6});
    const int bound = 2;
    d.Add("triples", v->size(), [v, bound](int64_t u, vf::Ctx& c) { RunScenario((*v)[u], bound, c); }, 300);
    d.bounds.push_back("triples: 3 threads, one operation each; at most " + std::to_string(bound) + " preemptions");
  }
  return d.Run();
}
