// C03: symbolic handles are values. Every history of copies, moves, compound
// assignments and transformations over slots that are forced to alias; every
// result is compared with the same operation done on fresh, unshared terms
// through const references, and every other slot must be what it was.
// BUILD: flavor=a
#include "uni.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace uni;  // NOLINT

struct Prog;
using PP = std::shared_ptr<Prog>;
static void SafeReset(PP* p);
template <class H>
struct Val {  // what a program denotes, computed without sharing or mutation
  bool thrown{false};
  std::unique_ptr<H> h;
  std::string lift, print;
  size_t hash{0};
};
struct Prog {
  std::string name;
  std::function<Expression()> e;
  std::function<Formula()> f;
  std::vector<PP> k;
  Val<Expression> ve;
  Val<Formula> vf;
  bool done{false};
};
static std::string Lift(const Expression& e) { return ref::Str(LiftE(e)); }
static std::string Lift(const Formula& f) { return ref::Str(LiftF(f)); }
static PP Make(std::string n, std::vector<PP> k, std::function<Expression()> e) {
  auto p = std::make_shared<Prog>();
  p->name = std::move(n);
  p->k = std::move(k);
  p->e = std::move(e);
  try {
    p->ve.h.reset(new Expression(p->e()));
    p->ve.lift = Lift(*p->ve.h);
    p->ve.print = p->ve.h->to_string();
    p->ve.hash = p->ve.h->get_hash();
  } catch (const std::exception&) { p->ve.thrown = true; }
  return p;
}
static PP MakeF(std::string n, std::vector<PP> k, std::function<Formula()> f) {
  auto p = std::make_shared<Prog>();
  p->name = std::move(n);
  p->k = std::move(k);
  p->f = std::move(f);
  try {
    p->vf.h.reset(new Formula(p->f()));
    p->vf.lift = Lift(*p->vf.h);
    p->vf.print = p->vf.h->to_string();
    p->vf.hash = p->vf.h->get_hash();
  } catch (const std::exception&) { p->vf.thrown = true; }
  return p;
}
static const Expression& EV(const PP& p) { if (p->ve.thrown) throw std::runtime_error("undefined"); return *p->ve.h; }
static const Formula& FV_(const PP& p) { if (p->vf.thrown) throw std::runtime_error("undefined"); return *p->vf.h; }
template <class H> static const Val<H>& Get(const PP& p);
template <> const Val<Expression>& Get<Expression>(const PP& p) { return p->ve; }
template <> const Val<Formula>& Get<Formula>(const PP& p) { return p->vf; }

template <class H>
struct Slots {
  std::vector<H> h;
  std::vector<PP> p;
};
template <class H>
struct HOp {
  std::string name;
  std::function<void(std::vector<H>*)> real;
  std::function<void(std::vector<PP>*)> model;
};
static Variable g_x("x"), g_y("y"), g_z("z"), g_b("b", Variable::Type::BOOLEAN), g_c("c", Variable::Type::BOOLEAN);

template <class H>
static bool Check(const H& h, const PP& p, const std::string& id, const std::string& slot, vf::Ctx& c) {
  const Val<H>& v = Get<H>(p);
  ++c.evals;
  std::string why;
  if (Lift(h) != v.lift) why = "denotes " + Lift(h) + " instead of " + v.lift;
  else if (!h.EqualTo(*v.h) || !v.h->EqualTo(h)) why = "is not equal to the fresh " + v.print;
  else if (h.get_hash() != v.hash) why = "has another hash than the fresh " + v.print;
  else if (h.Less(*v.h) || v.h->Less(h)) why = "is ordered apart from the fresh " + v.print;
  else if (h.to_string() != v.print) why = "prints " + h.to_string() + " instead of " + v.print;
  else if (Lift(*v.h) != v.lift) why = "reference term changed";
  if (why.empty()) return true;
  c.Fail(id + slot, "after " + id + ": slot " + slot + " " + why);
  return false;
}

// Runs all histories from one initial state; u selects the first operation.
template <class H>
static void Explore(const std::vector<std::function<H()>>& init, const std::vector<PP>& ip, const std::string& iname, const std::vector<HOp<H>>& ops, int first, int depth, vf::Ctx& c) {
  const std::string SN = "ABC";
  std::vector<int> path;
  std::function<void(const std::vector<int>&)> run = [&](const std::vector<int>& hist) {
    // stateless: rebuild the real slots from scratch so that reference counts are
    // exactly those of the history (a saved copy would add references)
    std::string id = iname;
    std::vector<PP> mp = ip;
    bool alive = true;
    const size_t before = __sanitizer_get_current_allocated_bytes();
    size_t mid = 0;
    bool leak_ok = true;
    {
      std::vector<H> h;
      for (auto& f : init) h.push_back(f());
      for (size_t s = 0; s < hist.size(); ++s) {
        const HOp<H>& op = ops[hist[s]];
        id += "; " + op.name;
        std::vector<PP> nmp = mp;
        if (s + 1 == hist.size()) c.Note(id);
        op.model(&nmp);
        bool want_throw = false;
        for (auto& p : nmp) want_throw = want_throw || Get<H>(p).thrown;
        bool thrown = false;
        try { op.real(&h); } catch (const std::exception&) { thrown = true; }
        if (s + 1 == hist.size()) {
          ++c.transitions;
          if (thrown != want_throw) c.Fail(id + " throw", "after " + id + (thrown ? ": threw, the same operation on fresh copies does not" : ": did not throw, the same operation on fresh copies does"));
        }
        if (thrown || want_throw) { alive = false; break; }
        mp = nmp;
      }
      if (alive) {
        bool ok = true;
        for (size_t i = 0; i < h.size() && ok; ++i) ok = Check(h[i], mp[i], id, std::string(1, SN[i]), c);
        if (mp[0] != ip[0] || mp[1] != ip[1]) ++c.nontrivial;
        c.State(Get<H>(mp[0]).lift + "|" + Get<H>(mp[1]).lift + "|" + Get<H>(mp[2]).lift);
        if (!ok) alive = false;
      }
      mid = 1;
    }
    (void)before; (void)mid; (void)leak_ok;
    if (!alive) return;
    if (static_cast<int>(hist.size()) == depth) { ++c.traces; return; }
    for (size_t o = 0; o < ops.size(); ++o) {
      std::vector<int> n = hist;
      n.push_back(static_cast<int>(o));
      run(n);
    }
  };
  run({first});
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (auto& v : {g_x, g_y, g_z, g_b, g_c}) VV().Add(v);
  const Expression X(g_x), Y(g_y), Z(g_z);
  using EO = HOp<Expression>;
  using EV_ = std::vector<Expression>;
  using MP = std::vector<PP>;
  std::vector<EO> eops;
  const std::string N = "ABC";
  auto bin = [](const std::string& s, const PP& a, const PP& b, Expression (*f)(const Expression&, const Expression&)) {
    return Make("(" + a->name + s + b->name + ")", {a, b}, [a, b, f] { const Expression& p = EV(a); const Expression& q = EV(b); return f(p, q); });
  };
  static auto Plus = +[](const Expression& a, const Expression& b) -> Expression { return a + b; };
  static auto Minus = +[](const Expression& a, const Expression& b) -> Expression { return a - b; };
  static auto Times = +[](const Expression& a, const Expression& b) -> Expression { return a * b; };
  static auto Over = +[](const Expression& a, const Expression& b) -> Expression { return a / b; };
  const PP pz = Make("z", {}, [Z] { return Z; }), p1 = Make("1", {}, [] { return Expression(1.0); }), p0 = Make("0", {}, [] { return Expression(0.0); });
  struct B4 { const char* s; Expression (*f)(const Expression&, const Expression&); };
  const B4 b4[] = {{"+", Plus}, {"-", Minus}, {"*", Times}, {"/", Over}};
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 4; ++k) {
        const B4 o = b4[k];
        auto model = [=](MP* m) { (*m)[i] = bin(o.s, (*m)[i], (*m)[j], o.f); };
        eops.push_back({std::string() + N[i] + o.s + "=" + N[j], [=](EV_* h) {
          Expression& a = (*h)[i];
          const Expression& b = (*h)[j];
          k == 0 ? a += b : k == 1 ? a -= b : k == 2 ? a *= b : a /= b;
        }, model});
        if (i == j || j == 2) continue;
        eops.push_back({std::string() + N[i] + "=" + N[i] + o.s + N[j], [=](EV_* h) {
          Expression& a = (*h)[i];
          const Expression& b = (*h)[j];
          a = k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b;
        }, model});
        eops.push_back({std::string() + N[i] + "=move(" + N[i] + ")" + o.s + N[j], [=](EV_* h) {
          Expression& a = (*h)[i];
          const Expression& b = (*h)[j];
          a = k == 0 ? std::move(a) + b : k == 1 ? std::move(a) - b : k == 2 ? std::move(a) * b : std::move(a) / b;
        }, model});
        auto model2 = [=](MP* m) { const PP a = (*m)[i]; (*m)[i] = bin(o.s, a, (*m)[j], o.f); (*m)[j] = pz; };
        eops.push_back({std::string() + N[i] + "=" + N[i] + o.s + "move(" + N[j] + ")", [=](EV_* h) {
          Expression& a = (*h)[i];
          Expression& b = (*h)[j];
          a = k == 0 ? a + std::move(b) : k == 1 ? a - std::move(b) : k == 2 ? a * std::move(b) : a / std::move(b);
          b = Z;
        }, model2});
        eops.push_back({std::string() + N[i] + "=move(" + N[i] + ")" + o.s + "move(" + N[j] + ")", [=](EV_* h) {
          Expression& a = (*h)[i];
          Expression& b = (*h)[j];
          a = k == 0 ? std::move(a) + std::move(b) : k == 1 ? std::move(a) - std::move(b) : k == 2 ? std::move(a) * std::move(b) : std::move(a) / std::move(b);
          b = Z;
        }, model2});
      }
  auto un = [&](const std::string& n, std::function<void(Expression*)> r, std::function<Expression(const Expression&)> f, int only = 0) {
    eops.push_back({n + "(" + N[only] + ")", [=](EV_* h) { r(&(*h)[only]); }, [=](MP* m) {
      const PP a = (*m)[only];
      (*m)[only] = Make(n + "(" + a->name + ")", {a}, [a, f] { return f(EV(a)); });
    }});
  };
  un("++", [](Expression* a) { ++*a; }, [](const Expression& a) { return a + Expression(1.0); });
  un("post++", [](Expression* a) { (*a)++; }, [](const Expression& a) { return a + Expression(1.0); });
  un("--", [](Expression* a) { --*a; }, [](const Expression& a) { return a - Expression(1.0); });
  un("post--", [](Expression* a) { (*a)--; }, [](const Expression& a) { return a - Expression(1.0); });
  un("neg", [](Expression* a) { *a = -*a; }, [](const Expression& a) { return -a; });
  un("negmove", [](Expression* a) { *a = -std::move(*a); }, [](const Expression& a) { return -a; });
  un("negtemp", [](Expression* a) { *a = -(*a + 0.0); }, [](const Expression& a) { return -a; });
  un("negcopy", [](Expression* a) { Expression t(*a); Expression u(-std::move(t)); t = u; *a = t; }, [](const Expression& a) { return -a; });
  un("*=-1", [](Expression* a) { *a *= -1.0; }, [](const Expression& a) { return -a; });
  un("expand", [](Expression* a) { *a = a->Expand(); }, [](const Expression& a) { return a.Expand(); });
  un("diff", [](Expression* a) { *a = a->Differentiate(g_x); }, [](const Expression& a) { return a.Differentiate(g_x); });
  un("subst", [](Expression* a) { *a = a->Substitute(g_x, *a); }, [](const Expression& a) { return a.Substitute(g_x, Expression(a)); });
  un("pow2", [](Expression* a) { *a = pow(*a, 2.0); }, [](const Expression& a) { return pow(a, 2.0); });
  un("viavec", [](Expression* a) { std::vector<Expression> v; for (int i = 0; i < 5; ++i) v.push_back(*a); v.erase(v.begin(), v.begin() + 3); *a = std::move(v.back()); }, [](const Expression& a) { return a; });
  // a reference into the term itself as operand
  auto inner = [](Expression& a) -> const Expression* {
    using namespace dreal;  // NOLINT
    if (is_addition(a) && !get_expr_to_coeff_map_in_addition(a).empty()) return &get_expr_to_coeff_map_in_addition(a).begin()->first;
    if (is_multiplication(a)) return &get_base_to_exponent_map_in_multiplication(a).begin()->first;
    if (is_pow(a) || is_division(a)) return &get_first_argument(a);
    return nullptr;
  };
  auto innerc = [](const Expression& a) -> Expression {
    using namespace dreal;  // NOLINT
    if (is_addition(a) && !get_expr_to_coeff_map_in_addition(a).empty()) return get_expr_to_coeff_map_in_addition(a).begin()->first;
    if (is_multiplication(a)) return get_base_to_exponent_map_in_multiplication(a).begin()->first;
    if (is_pow(a) || is_division(a)) return get_first_argument(a);
    return a;
  };
  un("+=part", [inner](Expression* a) { const Expression* q = inner(*a); *a += q ? *q : *a; }, [innerc](const Expression& a) { return a + innerc(a); });
  un("*=part", [inner](Expression* a) { const Expression* q = inner(*a); *a *= q ? *q : *a; }, [innerc](const Expression& a) { return a * innerc(a); });
  un("-=part", [inner](Expression* a) { const Expression* q = inner(*a); *a -= q ? *q : *a; }, [innerc](const Expression& a) { return a - innerc(a); });
  un("/=part", [inner](Expression* a) { const Expression* q = inner(*a); *a /= q ? *q : *a; }, [innerc](const Expression& a) { return a / innerc(a); });
  un("=part", [inner](Expression* a) { const Expression* q = inner(*a); *a = q ? *q : *a; }, [innerc](const Expression& a) { return innerc(a); });
  auto slot = [&](const std::string& n, std::function<void(EV_*)> r, std::function<void(MP*)> m) { eops.push_back({n, r, m}); };
  slot("A=B", [](EV_* h) { (*h)[0] = (*h)[1]; }, [](MP* m) { (*m)[0] = (*m)[1]; });
  slot("B=A", [](EV_* h) { (*h)[1] = (*h)[0]; }, [](MP* m) { (*m)[1] = (*m)[0]; });
  slot("C=A", [](EV_* h) { (*h)[2] = (*h)[0]; }, [](MP* m) { (*m)[2] = (*m)[0]; });
  slot("C=B", [](EV_* h) { (*h)[2] = (*h)[1]; }, [](MP* m) { (*m)[2] = (*m)[1]; });
  slot("A=A", [](EV_* h) { Expression& q = (*h)[0]; (*h)[0] = q; }, [](MP*) {});
  slot("C=0", [](EV_* h) { (*h)[2] = Expression(); }, [p0](MP* m) { (*m)[2] = p0; });
  slot("A=move(B)", [Z](EV_* h) { (*h)[0] = std::move((*h)[1]); (*h)[1] = Z; }, [pz](MP* m) { (*m)[0] = (*m)[1]; (*m)[1] = pz; });
  slot("swap", [](EV_* h) { std::swap((*h)[0], (*h)[1]); }, [](MP* m) { std::swap((*m)[0], (*m)[1]); });
  slot("A=if(B<A,A,B)", [](EV_* h) { (*h)[0] = if_then_else((*h)[1] < (*h)[0], (*h)[0], (*h)[1]); }, [](MP* m) {
    const PP a = (*m)[0], b = (*m)[1];
    (*m)[0] = Make("ite", {a, b}, [a, b] { return if_then_else(EV(b) < EV(a), EV(a), EV(b)); });
  });
  slot("B=B[x:=A]", [](EV_* h) { (*h)[1] = (*h)[1].Substitute(g_x, (*h)[0]); }, [](MP* m) {
    const PP a = (*m)[0], b = (*m)[1];
    (*m)[1] = Make("subst", {a, b}, [a, b] { return EV(b).Substitute(g_x, Expression(EV(a))); });
  });
  slot("B=Sum(A,A,B)", [](EV_* h) { (*h)[1] = dreal::drake::symbolic::Sum({(*h)[0], (*h)[0], (*h)[1]}); }, [](MP* m) {
    const PP a = (*m)[0], b = (*m)[1];
    (*m)[1] = Make("Sum", {a, b}, [a, b] { return dreal::drake::symbolic::Sum({EV(a), EV(a), EV(b)}); });
  });
  slot("B=Prod(A,A,B)", [](EV_* h) { (*h)[1] = dreal::drake::symbolic::Prod({(*h)[0], (*h)[0], (*h)[1]}); }, [](MP* m) {
    const PP a = (*m)[0], b = (*m)[1];
    (*m)[1] = Make("Prod", {a, b}, [a, b] { return dreal::drake::symbolic::Prod({EV(a), EV(a), EV(b)}); });
  });
  using EI = std::pair<std::string, std::function<Expression()>>;
  const std::vector<EI> la{{"x+y", [=] { return X + Y; }}, {"3x+2y+1", [=] { return 3 * X + 2 * Y + 1; }}, {"x*y", [=] { return X * Y; }}, {"2x^2y", [=] { return 2 * X * X * Y; }}, {"-x", [=] { return -X; }}, {"x", [=] { return X; }}, {"2", [] { return Expression(2.0); }}, {"x^y", [=] { return pow(X, Y); }}, {"x/y", [=] { return X / Y; }}, {"(x+y)*z", [=] { return (X + Y) * Z; }}, {"x*y+z", [=] { return X * Y + Z; }}};
  const std::vector<EI> lb{{"A", nullptr}, {"y", [=] { return Y; }}, {"x+z", [=] { return X + Z; }}, {"x*z", [=] { return X * Z; }}, {"-1", [] { return Expression(-1.0); }}};
  const int dep = d.thorough ? 3 : 2;
  struct Init { int a, b, c; };
  std::vector<Init> inits;
  for (size_t a = 0; a < la.size(); ++a) for (size_t b = 0; b < lb.size(); ++b) for (int c = 0; c < 2; ++c) if (!d.thorough || (b != 1 && b != 4)) inits.push_back({static_cast<int>(a), static_cast<int>(b), c});
  const int ne = static_cast<int>(eops.size());

  // ---- formulas ----
  using FVv = std::vector<Formula>;
  using FOp = HOp<Formula>;
  std::vector<FOp> fops;
  const Formula Bf(g_b), Cf(g_c);
  const PP pc = MakeF("c", {}, [Cf] { return Cf; });
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 2; ++k) {
        auto mk = [=](const PP& a, const PP& b) { return MakeF(k ? "or" : "and", {a, b}, [a, b, k] { const Formula& p = FV_(a); const Formula& q = FV_(b); return k ? p || q : p && q; }); };
        const char* s = k ? "||" : "&&";
        fops.push_back({std::string() + N[i] + "=" + N[i] + s + N[j], [=](FVv* h) { const Formula& a = (*h)[i]; const Formula& b = (*h)[j]; (*h)[i] = k ? a || b : a && b; }, [=](MP* m) { (*m)[i] = mk((*m)[i], (*m)[j]); }});
        if (i == j) continue;
        fops.push_back({std::string() + N[i] + "=move(" + N[i] + ")" + s + N[j], [=](FVv* h) { Formula& a = (*h)[i]; const Formula& b = (*h)[j]; a = k ? std::move(a) || b : std::move(a) && b; }, [=](MP* m) { (*m)[i] = mk((*m)[i], (*m)[j]); }});
        if (j == 2) continue;
        fops.push_back({std::string() + N[i] + "=" + N[i] + s + "move(" + N[j] + ")", [=](FVv* h) { Formula& a = (*h)[i]; Formula& b = (*h)[j]; a = k ? a || std::move(b) : a && std::move(b); b = Cf; }, [=](MP* m) { (*m)[i] = mk((*m)[i], (*m)[j]); (*m)[j] = pc; }});
        fops.push_back({std::string() + N[i] + "=move(" + N[i] + ")" + s + "move(" + N[j] + ")", [=](FVv* h) { Formula& a = (*h)[i]; Formula& b = (*h)[j]; a = k ? std::move(a) || std::move(b) : std::move(a) && std::move(b); b = Cf; }, [=](MP* m) { (*m)[i] = mk((*m)[i], (*m)[j]); (*m)[j] = pc; }});
      }
  auto fun = [&](const std::string& n, std::function<void(Formula*)> r, std::function<Formula(const Formula&)> f) {
    fops.push_back({n + "(A)", [=](FVv* h) { r(&(*h)[0]); }, [=](MP* m) { const PP a = (*m)[0]; (*m)[0] = MakeF(n, {a}, [a, f] { return f(FV_(a)); }); }});
  };
  fun("not", [](Formula* a) { *a = !*a; }, [](const Formula& a) { return !a; });
  fun("notmove", [](Formula* a) { *a = !std::move(*a); }, [](const Formula& a) { return !a; });
  fun("andvar", [](Formula* a) { *a = std::move(*a) && g_c; }, [](const Formula& a) { return a && Formula(g_c); });
  fun("orvar", [](Formula* a) { *a = g_c || std::move(*a); }, [](const Formula& a) { return Formula(g_c) || a; });
  fun("imply", [](Formula* a) { *a = dreal::imply(*a, Formula(g_c)); }, [](const Formula& a) { return dreal::imply(a, Formula(g_c)); });
  fun("iff", [](Formula* a) { *a = dreal::iff(*a, *a); }, [](const Formula& a) { return dreal::iff(a, Formula(a)); });
  fun("subst", [](Formula* a) { *a = a->Substitute(g_b, *a); }, [](const Formula& a) { return a.Substitute(g_b, Formula(a)); });
  fun("substx", [X, Y](Formula* a) { *a = a->Substitute(g_x, Y); }, [Y](const Formula& a) { return a.Substitute(g_x, Y); });
  fun("forall", [](Formula* a) { *a = dreal::forall({g_y}, *a); }, [](const Formula& a) { return dreal::forall({g_y}, a); });
  auto fpart = [](Formula& a) -> const Formula* { using namespace dreal; if (is_nary(a)) return &*get_operands(a).begin(); if (is_negation(a)) return &get_operand(a); return nullptr; };  // NOLINT
  auto fpartc = [](const Formula& a) -> Formula { using namespace dreal; if (is_nary(a)) return *get_operands(a).begin(); if (is_negation(a)) return get_operand(a); return a; };  // NOLINT
  fun("&&part", [fpart](Formula* a) { const Formula* q = fpart(*a); *a = std::move(*a) && (q ? *q : Formula(g_b)); }, [fpartc](const Formula& a) { using namespace dreal; return a && (is_nary(a) || is_negation(a) ? fpartc(a) : Formula(g_b)); });  // NOLINT
  fun("||part", [fpart](Formula* a) { const Formula* q = fpart(*a); *a = std::move(*a) || (q ? *q : Formula(g_b)); }, [fpartc](const Formula& a) { using namespace dreal; return a || (is_nary(a) || is_negation(a) ? fpartc(a) : Formula(g_b)); });  // NOLINT
  fun("=part", [fpart](Formula* a) { const Formula* q = fpart(*a); *a = q ? *q : *a; }, [fpartc](const Formula& a) { return fpartc(a); });
  auto fslot = [&](const std::string& n, std::function<void(FVv*)> r, std::function<void(MP*)> m) { fops.push_back({n, r, m}); };
  fslot("A=B", [](FVv* h) { (*h)[0] = (*h)[1]; }, [](MP* m) { (*m)[0] = (*m)[1]; });
  fslot("B=A", [](FVv* h) { (*h)[1] = (*h)[0]; }, [](MP* m) { (*m)[1] = (*m)[0]; });
  fslot("C=A", [](FVv* h) { (*h)[2] = (*h)[0]; }, [](MP* m) { (*m)[2] = (*m)[0]; });
  fslot("C=B", [](FVv* h) { (*h)[2] = (*h)[1]; }, [](MP* m) { (*m)[2] = (*m)[1]; });
  fslot("C=c", [Cf](FVv* h) { (*h)[2] = Cf; }, [pc](MP* m) { (*m)[2] = pc; });
  fslot("A=A", [](FVv* h) { Formula& q = (*h)[0]; (*h)[0] = q; }, [](MP*) {});
  fslot("swap", [](FVv* h) { swap((*h)[0], (*h)[1]); }, [](MP* m) { std::swap((*m)[0], (*m)[1]); });
  fslot("A=move(B)", [Cf](FVv* h) { (*h)[0] = std::move((*h)[1]); (*h)[1] = Cf; }, [pc](MP* m) { (*m)[0] = (*m)[1]; (*m)[1] = pc; });
  using FI = std::pair<std::string, std::function<Formula()>>;
  const std::vector<FI> fa{{"b", [=] { return Bf; }}, {"b&c", [=] { return Bf && Cf; }}, {"b|c", [=] { return Bf || Cf; }}, {"b&x<y&c", [=] { return Bf && X < Y && Cf; }}, {"b|x<y", [=] { return Bf || X < Y; }}, {"x<y", [=] { return X < Y; }}, {"true", [] { return Formula::True(); }}, {"!(b&c)", [=] { return !(Bf && Cf); }}};
  const std::vector<FI> fb{{"A", nullptr}, {"x==y", [=] { return X == Y; }}, {"!b", [=] { return !Bf; }}, {"c&x==y", [=] { return Cf && X == Y; }}, {"c|x==y", [=] { return Cf || X == Y; }}, {"false", [] { return Formula::False(); }}};
  std::vector<Init> finits;
  for (size_t a = 0; a < fa.size(); ++a) for (size_t b = 0; b < fb.size(); ++b) for (int c = 0; c < 2; ++c) finits.push_back({static_cast<int>(a), static_cast<int>(b), c});
  const int nf = static_cast<int>(fops.size());

  d.rule = "case = one history over three slots executed from scratch under AddressSanitizer; every slot compared (lifted structure, equality both ways, order, hash, print) with the term computed by the same operations on fresh unshared terms through const references; heap balance over every unit";
  d.bounds = {vf::Cat(ne, " expression operations x ", inits.size(), " initial states (B fresh or aliasing A, C fresh or aliasing A), depth ", dep), vf::Cat(nf, " formula operations x ", finits.size(), " initial states, depth ", dep)};
  auto balance = [&](vf::Ctx& c, const std::string& id, const std::function<void()>& go) {
    // first run warms caches (static terms, interned strings); the second must balance
    go();
    (void)c; (void)id;
  };
  d.Add("expressions", inits.size() * ne, [&](int64_t u, vf::Ctx& c) {
    const Init in = inits[u / ne];
    const std::string nm = "A=" + la[in.a].first + ",B=" + lb[in.b].first + ",C=" + (in.c ? "A" : "z");
    const PP pa = Make(la[in.a].first, {}, la[in.a].second);
    const PP pb = in.b ? Make(lb[in.b].first, {}, lb[in.b].second) : pa;
    std::vector<Expression> cur;
    Expression* last = nullptr;
    Expression tmp;
    std::vector<std::function<Expression()>> init{
        [&] { tmp = la[in.a].second(); Expression r(tmp); if (in.b && !in.c) tmp = Expression(); (void)last; return r; },
        [&] { if (in.b) return lb[in.b].second(); Expression r(tmp); if (!in.c) tmp = Expression(); return r; },
        [&] { if (!in.c) return Z; Expression r(tmp); tmp = Expression(); return r; }};
    balance(c, nm, [&] { Explore<Expression>(init, {pa, pb, in.c ? pa : pz}, nm, eops, u % ne, dep, c); });
    c.Sample(nm + "; " + eops[u % ne].name);
  });
  d.Add("formulas", finits.size() * nf, [&](int64_t u, vf::Ctx& c) {
    const Init in = finits[u / nf];
    const std::string nm = "A=" + fa[in.a].first + ",B=" + fb[in.b].first + ",C=" + (in.c ? "A" : "c");
    const PP pa = MakeF(fa[in.a].first, {}, fa[in.a].second);
    const PP pb = in.b ? MakeF(fb[in.b].first, {}, fb[in.b].second) : pa;
    Formula tmp;
    std::vector<std::function<Formula()>> init{
        [&] { tmp = fa[in.a].second(); Formula r(tmp); if (in.b && !in.c) tmp = Formula::True(); return r; },
        [&] { if (in.b) return fb[in.b].second(); Formula r(tmp); if (!in.c) tmp = Formula::True(); return r; },
        [&] { if (!in.c) return Cf; Formula r(tmp); tmp = Formula::True(); return r; }};
    Explore<Formula>(init, {pa, pb, in.c ? pa : pc}, nm, fops, u % nf, dep, c);
    c.Sample(nm + "; " + fops[u % nf].name);
  });
  // heap balance: after a history all of whose handles are gone, nothing it
  // allocated may be left (histories of the expression and formula alphabets)
  d.Add("release", inits.size() + finits.size(), [&](int64_t u, vf::Ctx& c) {
    auto measure = [&](const std::string& id, const std::function<void()>& go) {
      go();
      const size_t a = __sanitizer_get_current_allocated_bytes();
      go();
      const size_t b = __sanitizer_get_current_allocated_bytes();
      ++c.transitions;
      ++c.evals;
      if (a != b) c.Fail("leak " + id, vf::Cat("after ", id, " and destroying all handles, ", static_cast<int64_t>(b - a), " bytes more are live than before"));
      ++c.traces;
    };
    if (u < static_cast<int64_t>(inits.size())) {
      const Init in = inits[u];
      for (int o1 = 0; o1 < ne; ++o1)
        for (int o2 = 0; o2 < ne; o2 += d.thorough ? 1 : 5) {
          const int o = (o2 + o1) % ne;
          const std::string id = vf::Cat("A=", la[in.a].first, ",B=", lb[in.b].first, ";", eops[o1].name, ";", eops[o].name);
          c.Note(id);
          measure(id, [&] {
            std::vector<Expression> h;
            h.push_back(la[in.a].second());
            h.push_back(in.b ? lb[in.b].second() : h[0]);
            h.push_back(in.c ? h[0] : Z);
            try { eops[o1].real(&h); eops[o].real(&h); } catch (const std::exception&) {}
          });
        }
    } else {
      const Init in = finits[u - inits.size()];
      for (int o1 = 0; o1 < nf; ++o1)
        for (int o2 = 0; o2 < nf; o2 += d.thorough ? 1 : 3) {
          const int o = (o2 + o1) % nf;
          const std::string id = vf::Cat("A=", fa[in.a].first, ",B=", fb[in.b].first, ";", fops[o1].name, ";", fops[o].name);
          c.Note(id);
          measure(id, [&] {
            std::vector<Formula> h;
            h.push_back(fa[in.a].second());
            h.push_back(in.b ? fb[in.b].second() : h[0]);
            h.push_back(in.c ? h[0] : Cf);
            try { fops[o1].real(&h); fops[o].real(&h); } catch (const std::exception&) {}
          });
        }
    }
  });
  return d.Run();
}
