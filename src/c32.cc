// BUILD: full
// C32: SMT-LIB scripts mean what the standard says. Scripts are built together
// with their meaning, run by the real driver, and what it prints is compared.
#include <unistd.h>
#include <cstring>
#include <array>
#include <fstream>
#include <iomanip>
#include <iostream>
#include "dreal/smt2/driver.h"
#include "vf.h"
using namespace dreal;
namespace {
const double kDelta = 0.05;
using Map = std::map<std::string, double>;
struct Env { Map v; const Map* g; };
using Fn = std::function<double(const Env&)>;
struct T { std::string s; Fn f; };
// v: by how much the formula is violated, w: its negation (at most 0: not).
// t, u: the formula, its negation, surely holds as it stands.
using Pr = std::function<bool(const Env&)>;
struct F { std::string s; Fn v, w; Pr t, u; double tol = 1; };
const double kE = 1e-9;
T Sym(const std::string& n) { return {n, [n](const Env& e) { return e.v.at(n); }}; }
T Num(const std::string& s, double d) { return {s, [d](const Env&) { return d; }}; }
T Op(const std::string& o, const std::vector<T>& a, std::function<double(const std::vector<double>&)> f) {
  std::string s = "(" + o;
  for (auto& t : a) s += " " + t.s;
  return {s + ")", [a, f](const Env& e) { std::vector<double> v; for (auto& t : a) v.push_back(t.f(e)); return f(v); }};
}
using DV = std::vector<double>;
T Add(std::vector<T> a) { return Op("+", a, [](const DV& v) { double r = v[0]; for (size_t i = 1; i < v.size(); ++i) r += v[i]; return r; }); }
T Sub(std::vector<T> a) { return Op("-", a, [](const DV& v) { if (v.size() == 1) return -v[0]; double r = v[0]; for (size_t i = 1; i < v.size(); ++i) r -= v[i]; return r; }); }
T Mul(std::vector<T> a) { return Op("*", a, [](const DV& v) { double r = v[0]; for (size_t i = 1; i < v.size(); ++i) r *= v[i]; return r; }); }
T Div(std::vector<T> a) { return Op("/", a, [](const DV& v) { double r = v[0]; for (size_t i = 1; i < v.size(); ++i) r /= v[i]; return r; }); }
T U1(const std::string& o, T a, double (*f)(double)) { return Op(o, {a}, [f](const DV& v) { return f(v[0]); }); }
F Cmp(const std::string& o, const T& a, const T& b) {
  const Fn d = [a, b](const Env& e) { return a.f(e) - b.f(e); }, m = [d](const Env& e) { return -d(e); };
  const Pr lt = [d](const Env& e) { return d(e) < -kE; }, gt = [d](const Env& e) { return d(e) > kE; };
  const std::string s = "(" + o + " " + a.s + " " + b.s + ")";
  if (o == "<" || o == "<=") return {s, d, m, lt, gt};
  if (o == ">" || o == ">=") return {s, m, d, gt, lt};
  // an equality; as the values are computed twice, equal to the last bit only
  return {s, [d](const Env& e) { return std::fabs(d(e)); }, [](const Env&) { return -1.0; }, [d](const Env& e) { return d(e) == 0; }, [d](const Env& e) { return std::fabs(d(e)) > kE; }};
}
F BVar(const std::string& n) {
  return {n, [n](const Env& e) { return e.v.at(n) ? -1e9 : 1e9; }, [n](const Env& e) { return e.v.at(n) ? 1e9 : -1e9; }, [n](const Env& e) { return e.v.at(n) != 0; }, [n](const Env& e) { return e.v.at(n) == 0; }};
}
F Const(bool k) {
  return {k ? "true" : "false", [k](const Env&) { return k ? -1e9 : 1e9; }, [k](const Env&) { return k ? 1e9 : -1e9; }, [k](const Env&) { return k; }, [k](const Env&) { return !k; }};
}
F Not(const F& a) { return {"(not " + a.s + ")", a.w, a.v, a.u, a.t, a.tol}; }
F Fold(const std::string& o, const std::vector<F>& a, bool conj) {
  std::string s = "(" + o;
  double tol = 1;
  for (auto& f : a) { s += " " + f.s; tol = std::max(tol, f.tol); }
  auto val = [a](bool neg, bool mx) -> Fn { return [=](const Env& e) { double r = mx ? -1e300 : 1e300; for (auto& f : a) { const double q = neg ? f.w(e) : f.v(e); r = mx ? std::max(r, q) : std::min(r, q); } return r; }; };
  auto all = [a](bool neg, bool every) -> Pr { return [=](const Env& e) { for (auto& f : a) if ((neg ? f.u(e) : f.t(e)) != every) return !every; return every; }; };
  if (conj) return {s + ")", val(false, true), val(true, false), all(false, true), all(true, false), tol};
  return {s + ")", val(false, false), val(true, true), all(false, false), all(true, true), tol};
}
F And(const std::vector<F>& a) { return Fold("and", a, true); }
F Or(const std::vector<F>& a) { return Fold("or", a, false); }
F Named(F f, const std::string& s) { f.s = s; return f; }
F Imp(const F& a, const F& b) { return Named(Or({Not(a), b}), "(=> " + a.s + " " + b.s + ")"); }
F Iff(const F& a, const F& b) { return Named(Or({And({a, b}), And({Not(a), Not(b)})}), "(= " + a.s + " " + b.s + ")"); }
F Xor(const std::vector<F>& a) {
  F r = a[0];
  std::string s = "(xor " + a[0].s;
  for (size_t i = 1; i < a.size(); ++i) { r = Or({And({r, Not(a[i])}), And({Not(r), a[i]})}); s += " " + a[i].s; }
  return Named(r, s + ")");
}
F IteF(const F& c, const F& a, const F& b) { return Named(And({Imp(c, a), Or({c, b})}), "(ite " + c.s + " " + a.s + " " + b.s + ")"); }
// The condition read exactly: used with conditions over Booleans and integers
// or whose branches agree where it is decided.
T IteT(const F& c, const T& a, const T& b) { return {"(ite " + c.s + " " + a.s + " " + b.s + ")", [=](const Env& e) { return c.v(e) <= 0 ? a.f(e) : b.f(e); }}; }
struct Bind { std::string n; T t; bool isf; F f; };
Bind BT(const std::string& n, const T& t) { return {n, t, false, Const(true)}; }
Bind BF(const std::string& n, const F& f) { return {n, {"", nullptr}, true, f}; }
Env Ext(const Env& e, const std::vector<Bind>& bs) {
  Env r = e;
  for (auto& b : bs) r.v[b.n] = b.isf ? (b.f.v(e) <= 0) : b.t.f(e);
  return r;
}
std::string LetS(const std::vector<Bind>& bs, const std::string& body) {
  std::string s = "(let (";
  for (auto& b : bs) s += "(" + b.n + " " + (b.isf ? b.f.s : b.t.s) + ")";
  return s + ") " + body + ")";
}
T LetT(const std::vector<Bind>& bs, const T& b) { return {LetS(bs, b.s), [=](const Env& e) { return b.f(Ext(e, bs)); }}; }
F LetF(const std::vector<Bind>& bs, const F& b, double tol) {
  return {LetS(bs, b.s), [=](const Env& e) { return b.v(Ext(e, bs)); }, [=](const Env& e) { return b.w(Ext(e, bs)); }, [=](const Env& e) { return b.t(Ext(e, bs)); }, [=](const Env& e) { return b.u(Ext(e, bs)); }, tol};
}
struct Par { std::string n, sort; };
T AppT(const std::string& f, const std::vector<Par>& ps, const T& body, const std::vector<T>& as) {
  std::string s = "(" + f;
  for (auto& a : as) s += " " + a.s;
  return {s + ")", [=](const Env& e) { Env r{*e.g, e.g}; for (size_t i = 0; i < ps.size(); ++i) r.v[ps[i].n] = as[i].f(e); return body.f(r); }};
}
F AppF(const std::string& f, const std::vector<Par>& ps, const F& body, const std::vector<T>& as) {
  std::string s = "(" + f;
  for (auto& a : as) s += " " + a.s;
  auto x = [=](const Env& e) { Env r{*e.g, e.g}; for (size_t i = 0; i < ps.size(); ++i) r.v[ps[i].n] = as[i].f(e); return r; };
  return {s + ")", [=](const Env& e) { return body.v(x(e)); }, [=](const Env& e) { return body.w(x(e)); }, [=](const Env& e) { return body.t(x(e)); }, [=](const Env& e) { return body.u(x(e)); }, body.tol};
}
std::string DefS(const std::string& f, const std::vector<Par>& ps, const std::string& sort, const std::string& body) {
  std::string s = "(define-fun " + f + " (";
  for (auto& p : ps) s += "(" + p.n + " " + p.sort + ")";
  return s + ") " + sort + " " + body + ")\n";
}
// forall over [lo, hi], its ends weakened with the body
F All(const std::string& n, const std::string& lo, double l, const std::string& hi, double h, const F& b, const std::string& extra = "") {
  auto over = [=](double by, std::function<bool(const Env&)> stop) { return [=](const Env& e) { Env r = e; for (int i = 0; i <= 64; ++i) { r.v[n] = l + by + (h - l - 2 * by) * i / 64; if (stop(r)) return true; } return false; }; };
  return {"(forall ((" + n + " Real [" + lo + ", " + hi + "])" + extra + ") " + b.s + ")",
          [=](const Env& e) { double m = -1e300; Env r = e; for (int i = 0; i <= 64; ++i) { r.v[n] = l + kDelta + (h - l - 2 * kDelta) * i / 64; m = std::max(m, b.v(r)); } return m; },
          [](const Env&) { return -1.0; },
          [=](const Env& e) { Env r = e; for (int i = 0; i <= 64; ++i) { r.v[n] = l + (h - l) * i / 64; if (b.v(r) > -0.1) return false; } return true; },
          over(0, b.u), b.tol};
}
// Runs a script: what it printed, and whether it was accepted.
struct Out { std::string s; bool ok; };
Out Run(const std::string& script) {
  static FILE* tmp = std::tmpfile();
  std::cout.flush(); fflush(stdout);
  const int save = dup(1);
  if (ftruncate(fileno(tmp), 0)) {}
  lseek(fileno(tmp), 0, SEEK_SET);
  dup2(fileno(tmp), 1);
  std::ostringstream err;
  std::streambuf* const cb = std::cerr.rdbuf(err.rdbuf());
  bool ok = false;
  try {
    Smt2Driver driver;
    ok = driver.parse_string(script);
  } catch (const std::exception&) {
    ok = false;
  }
  std::cerr.rdbuf(cb);
  std::cout.flush(); fflush(stdout);
  dup2(save, 1); close(save);
  const off_t n = lseek(fileno(tmp), 0, SEEK_END);
  std::string s(n, '\0');
  if (n && pread(fileno(tmp), &s[0], n, 0) != n) s.clear();
  return {s, ok};
}
// S-expressions of the output.
struct SX { std::string a; std::vector<SX> k; };
SX Read(const std::string& s, size_t& p) {
  while (p < s.size() && (isspace(s[p]) || s[p] == ',')) ++p;
  SX r;
  if (p >= s.size()) return r;
  if (s[p] == '(' || s[p] == '[') {
    const char close = s[p] == '(' ? ')' : ']';
    r.a = std::string(1, s[p]);
    ++p;
    while (true) {
      while (p < s.size() && (isspace(s[p]) || s[p] == ',')) ++p;
      if (p >= s.size()) return r;
      if (s[p] == close) { ++p; return r; }
      const size_t before = p;
      r.k.push_back(Read(s, p));
      if (p == before) ++p;
    }
  }
  while (p < s.size() && !isspace(s[p]) && !strchr("()[],", s[p])) r.a += s[p++];
  return r;
}
std::vector<SX> ReadAll(const std::string& s) {
  std::vector<SX> r;
  size_t p = 0;
  while (true) {
    while (p < s.size() && isspace(s[p])) ++p;
    if (p >= s.size()) return r;
    const size_t before = p;
    r.push_back(Read(s, p));
    if (p == before) ++p;
  }
}
bool Val(const SX& x, double* lo, double* hi) {
  if (x.k.empty()) {
    if (x.a == "true" || x.a == "false") { *lo = *hi = x.a == "true"; return true; }
    if (x.a == "+oo" || x.a == "-oo" || x.a == "oo") { *lo = *hi = x.a[0] == '-' ? -HUGE_VAL : HUGE_VAL; return true; }
    char* end;
    *lo = *hi = strtod(x.a.c_str(), &end);
    return !x.a.empty() && !*end;
  }
  double a, b, c, d;
  if (x.a == "[") return x.k.size() == 2 && Val(x.k[0], lo, &b) && Val(x.k[1], &c, hi);
  if (x.k[0].a == "-" && x.k.size() == 2) { if (!Val(x.k[1], &a, &b)) return false; *lo = -b; *hi = -a; return true; }
  if (x.k[0].a == "/" && x.k.size() == 3) { if (!Val(x.k[1], &a, &b) || !Val(x.k[2], &c, &d)) return false; *lo = *hi = a / c; return true; }
  if (x.k[0].a == "interval" && x.k.size() == 3 && x.k[1].k.size() == 2 && x.k[2].k.size() == 2) return Val(x.k[1].k[1], lo, &b) && Val(x.k[2].k[1], &c, hi);
  return false;
}
struct Dom { std::string n, sort; double lo, hi; std::string ls, hs; };
std::string Decl(const Dom& d, int form = 0) {
  const std::string b = d.sort == "Bool" ? "" : " [" + d.ls + ", " + d.hs + "]";
  return form ? "(declare-const " + d.n + " " + d.sort + b + ")\n" : "(declare-fun " + d.n + " () " + d.sort + b + ")\n";
}
std::vector<Map> Grid(const std::vector<Dom>& ds) {
  std::vector<Map> g{{}};
  for (auto& d : ds) {
    const double step = d.sort == "Real" ? 0.25 : 1;
    std::vector<Map> h;
    for (auto& m : g)
      for (double v = d.sort == "Real" ? d.lo : std::ceil(d.lo); v <= d.hi; v += step) { Map e = m; e[d.n] = v; h.push_back(e); }
    g.swap(h);
  }
  return g;
}
const std::string kHead = "(set-logic QF_NRA)\n(set-option :precision 0.05)\n(set-option :smtlib2-compliant true)\n(set-option :produce-models true)\n";
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  static const Dom X{"x", "Real", -2, 2, "-2", "2"}, Y{"y", "Real", -1.5, 1.5, "-1.5", "1.5"}, I{"i", "Int", -2, 3, "-2", "3"}, B{"b", "Bool", 0, 1, "", ""}, P{"p", "Bool", 0, 1, "", ""};
  const T x = Sym("x"), y = Sym("y"), i = Sym("i"), one = Num("1", 1), two = Num("2", 2), zero = Num("0", 0), half = Num("0.5", 0.5);
  const F b = BVar("b"), p = BVar("p");
  static std::string defs;
  static std::vector<F> fs;
  {
    const std::vector<Par> a1{{"a", "Real"}}, ax{{"x", "Real"}}, xy{{"x", "Real"}, {"y", "Real"}}, yx{{"y", "Real"}, {"x", "Real"}}, ab{{"a", "Real"}, {"c", "Real"}};
    const T a = Sym("a"), c2 = Sym("c");
    const T sq = Mul({a, a}), glob = Add({a, x}), sh = Sub({Sym("x"), Mul({two, Sym("y")})}), comp = AppT("sq", a1, sq, {AppT("glob", a1, glob, {Sub({a, c2})})});
    const T lett = LetT({BT("t", Mul({a, two}))}, Add({Sym("t"), one}));
    const F pred = Cmp("<", a, Mul({c2, c2})), lpred = LetF({BT("t", Sub({a, c2}))}, Cmp(">=", Sym("t"), zero), 3);
    defs = DefS("sq", a1, "Real", sq.s) + DefS("glob", a1, "Real", glob.s) + DefS("sh", xy, "Real", sh.s) + DefS("comp", ab, "Real", comp.s) + DefS("pred", ab, "Bool", pred.s);
    const auto SQ = [=](T t) { return AppT("sq", a1, sq, {t}); };
    auto add = [&](const F& f) { fs.push_back(f); };
    add(Cmp("<=", Mul({x, x}), y));
    add(Cmp("=", Add({x, y}), half));
    add(Cmp(">", Add({x, y, i}), two));
    add(Cmp("<", Sub({x, y, one}), Num("-2", -2)));
    add(Cmp(">=", Sub({x}), Num("1.25", 1.25)));
    add(Cmp("=", Mul({x, y, two}), one));
    add(Cmp(">=", Div({x, two, two}), Num(".25", 0.25)));
    add(Cmp("<=", Div({one, Add({x, Num("3", 3)})}), Num("25e-2", 0.25)));
    add(Cmp("=", Op("^", {x, two}, [](const DV& v) { return v[0] * v[0]; }), Num("1.0", 1)));
    add(Cmp("=", Op("pow", {y, Num("3", 3)}, [](const DV& v) { return v[0] * v[0] * v[0]; }), Sub({one})));
    add(Cmp("<=", Op("min", {x, y}, [](const DV& v) { return std::min(v[0], v[1]); }), Num("-1.0", -1)));
    add(Cmp(">=", Op("max", {x, Sub({y})}, [](const DV& v) { return std::max(v[0], v[1]); }), Num("1e0", 1)));
    add(Cmp("<", U1("abs", Sub({x, y}), [](double v) { return std::fabs(v); }), half));
    add(Cmp(">", U1("sin", x, std::sin), half));
    add(Cmp("<", U1("cos", Mul({two, y}), std::cos), zero));
    add(Cmp("<=", U1("exp", x, std::exp), half));
    add(Cmp(">=", U1("tanh", x, std::tanh), U1("atan", y, std::atan)));
    add(Cmp(">", U1("arctan", x, std::atan), U1("sinh", y, std::sinh)));
    add(Cmp("<=", U1("sqrt", Add({y, two}), std::sqrt), one));
    add(Cmp(">=", U1("log", Add({x, Num("3", 3)}), std::log), one));
    add(Cmp("<", Op("atan2", {y, Num("+1", 1)}, [](const DV& v) { return std::atan2(v[0], v[1]); }), Sub({half})));
    add(Cmp("<", U1("cosh", x, std::cosh), Num("1.5", 1.5)));
    add(Cmp(">=", U1("acos", Div({x, two}), std::acos), two));
    add(Cmp("<=", U1("arcsin", Div({y, two}), std::asin), Num("-0.25", -0.25)));
    add(Cmp("<=", U1("tan", Div({x, two}), std::tan), Num("-1", -1)));
    add(Cmp("=", i, two));
    add(Cmp(">", Mul({i, x}), two));
    add(b);
    add(Const(false));
    add(Not(And({b, p})));
    add(Or({b, Cmp("<", x, Sub({one}))}));
    add(Xor({b, Cmp(">", x, zero)}));
    add(Xor({b, p, Cmp("<", x, half)}));
    add(Imp(b, Cmp(">=", x, one)));
    add(Imp(Cmp(">", x, zero), And({p, Cmp("<", y, zero)})));
    add(Iff(b, Cmp(">", y, half)));
    add(Iff(Cmp("<", x, zero), Cmp("<", y, zero)));
    add(IteF(b, Cmp("<", x, zero), Cmp(">", x, one)));
    add(And({Or({b, p, Cmp("=", i, one)}), Not(b), Or({Not(p), Cmp(">=", x, one)})}));
    add(Cmp("<=", IteT(b, x, Sub({x})), Sub({one})));
    add(Cmp(">=", Add({IteT(p, one, zero), IteT(b, one, zero), x}), Num("2.5", 2.5)));
    add(LetF({BT("t", Mul({x, x}))}, Cmp(">=", Sym("t"), two), 3));
    add(LetF({BT("x", y), BT("y", x)}, Cmp("<", Sym("x"), Sub({Sym("y"), one})), 4));
    add(LetF({BT("t", Add({x, one}))}, LetF({BT("t", Mul({two, Sym("t")})), BT("s", Sym("t"))}, Cmp("<", Add({Sym("t"), Sym("s")}), Num("-1", -1)), 6), 9));
    add(LetF({BF("q", Cmp("<", x, zero)), BF("b", p)}, And({BVar("b"), BVar("q")}), 1));
    add(LetF({BF("q", b)}, IteF(BVar("q"), Cmp("<", y, zero), Cmp(">", y, one)), 1));
    add(Cmp(">", LetT({BT("t", Sub({x, y}))}, Mul({Sym("t"), half})), one));
    add(Cmp("<=", SQ(x), half));
    add(Cmp("<=", SQ(Sub({x, one})), SQ(y)));
    add(Cmp(">", AppT("glob", a1, glob, {y}), two));
    add(LetF({BT("x", one)}, Cmp("<", AppT("glob", a1, glob, {Sym("x")}), zero), 3));
    add(Cmp(">", AppT("sh", xy, sh, {x, y}), Num("3", 3)));
    add(Cmp(">", AppT("sh", xy, sh, {y, x}), Num("3", 3)));
    add(Cmp("<", AppT("sh", xy, sh, {Add({x, y}), Sub({x, y})}), Num("-3", -3)));
    add(Cmp("<", AppT("comp", ab, comp, {x, y}), Num("0.25", 0.25)));
    add(AppF("pred", ab, pred, {x, y}));
    add(Not(AppF("pred", ab, pred, {Num("0.5", 0.5), x})));
    add(All("z", "0", 0, "1", 1, Cmp("<=", Mul({x, Sym("z")}), y)));
    add(All("x", "-1", -1, "1", 1, Cmp("<=", Add({y, Sym("x")}), half)));
    add(All("z", "0", 0, "1", 1, Cmp("<=", x, y), "(u Real [2, 3])"));
    add(All("z", "-1", -1, "1", 1, Cmp(">=", Add({x, Sym("z")}), zero), "(u Real [2, 3])"));
    add(All("z", "-1", -1, "1", 1, Or({Cmp(">=", Add({x, Sym("z")}), zero), Cmp("<", Sym("z"), y)})));
    // bindings under a binder
    fs.push_back(All("z", "-1", -1, "1", 1, LetF({BT("t", Add({x, Sym("z")}))}, Cmp(">=", Sym("t"), zero), 3)));
    defs += DefS("lt", a1, "Real", lett.s) + DefS("lp", ab, "Bool", lpred.s);
    F lf = Cmp("<", Add({AppT("lt", a1, lett, {x}), AppT("lt", a1, lett, {y})}), Num("-2", -2));
    lf.tol = 3;
    add(lf);
    add(And({AppF("lp", ab, lpred, {x, one}), AppF("lp", ab, lpred, {y, half})}));
  }
  const int NF = fs.size();
  // Compares an answer with the constraints in force. at: the first output
  // expression to look at; the model follows.
  auto judge = [](vf::Ctx& c, const std::string& what, const std::vector<Dom>& ds, const std::vector<F>& in, const std::vector<SX>& out, size_t* at, bool model) {
    ++c.traces;
    if (*at >= out.size()) { c.Fail("silent " + what.substr(0, 200), what + ": no answer"); return false; }
    const std::string ans = out[*at].a;
    ++*at;
    if (ans == "unsat") {
      for (auto& m : Grid(ds)) {
        const Env e{m, &m};
        ++c.evals;
        bool all = true;
        for (auto& f : in) if (!f.t(e)) { all = false; break; }
        if (all) {
          std::string s;
          for (auto& q : m) s += vf::Cat(" ", q.first, " = ", q.second);
          c.Fail("unsat " + what.substr(0, 300), what + ": unsat, though all hold for" + s);
          return false;
        }
      }
    } else if (ans == "delta-sat") {
      if (!model) return true;
      if (*at >= out.size() || out[*at].k.empty() || out[*at].k[0].a != "model") { c.Fail("model " + what.substr(0, 200), what + ": no model"); return false; }
      const SX& m = out[(*at)++];
      Map lo, hi;
      for (size_t j = 1; j < m.k.size(); ++j) {
        const auto& k = m.k[j].k;
        double l, h;
        if (k.size() != 5 || !Val(k[4], &l, &h)) { c.Fail("print " + what.substr(0, 200), what + ": model entry not understood: " + (k.size() > 1 ? k[1].a : "")); return false; }
        if (lo.count(k[1].a)) { c.Fail("twice " + what.substr(0, 200), what + ": the model has " + k[1].a + " twice"); return false; }
        lo[k[1].a] = l; hi[k[1].a] = h;
        for (auto& q : ds) if (q.n == k[1].a && q.sort != k[3].a) { c.Fail("sort " + what.substr(0, 200), what + ": the model gives " + q.n + " sort " + k[3].a); return false; }
      }
      std::vector<Map> pts{{}};
      for (auto& q : ds) {
        if (!lo.count(q.n)) { c.Fail("missing " + what.substr(0, 200), what + ": the model lacks " + q.n); return false; }
        if (lo[q.n] < q.lo - kE || hi[q.n] > q.hi + kE) { c.Fail("range " + what.substr(0, 200), vf::Cat(what, ": the model has ", q.n, " in [", lo[q.n], ", ", hi[q.n], "]")); return false; }
        const double l = lo[q.n], h = hi[q.n];
        std::vector<double> vs;
        if (q.sort == "Real") { vs = {(l + h) / 2}; if (h > l) { vs.push_back(l); vs.push_back(h); } }
        else for (double v = std::ceil(l); v <= h; ++v) vs.push_back(v);
        std::vector<Map> np;
        for (auto& e : pts) for (double v : vs) { Map g = e; g[q.n] = v; np.push_back(g); }
        pts.swap(np);
      }
      if (lo.size() != ds.size()) { c.Fail("extra " + what.substr(0, 200), what + ": the model has other variables"); return false; }
      double best = 1e300, tol = 1;
      for (auto& f : in) tol = std::max(tol, f.tol);
      for (auto& g : pts) {
        const Env e{g, &g};
        ++c.evals;
        double w = -1e300;
        for (auto& f : in) w = std::max(w, f.v(e));
        best = std::min(best, w);
      }
      if (best > kDelta * tol * 1.000001) { c.Fail("wrong " + what.substr(0, 300), vf::Cat(what, ": delta-sat with a model which violates them by ", best)); return false; }
      ++c.nontrivial;
    } else {
      c.Fail("answer " + what.substr(0, 200), what + ": answers " + ans);
      return false;
    }
    return true;
  };
  static const std::vector<Dom> ds{X, Y, I, B, P};
  std::string dt;
  for (size_t j = 0; j < ds.size(); ++j) dt += Decl(ds[j], j % 2);
  static const std::string pre = kHead + dt + defs;
  d.Add("constructs", NF, [=](int64_t u, vf::Ctx& c) {
    for (int k = 0; k <= 2 * NF; ++k) {
      F f = fs[u];
      std::vector<F> in{f};
      // alone, negated, and with each other formula
      if (k == 1) in = {Not(f)};
      if (k >= 2 && k < NF + 2) in = {f, fs[k - 2]};
      if (k >= NF + 2) in = {Or({Not(f), fs[k - NF - 2 < u ? k - NF - 2 : NF - 1]}), fs[u]};
      if (k == 2 * NF) in = {Const(true)};
      std::string s = pre, what;
      for (auto& g : in) { s += "(assert " + g.s + ")\n"; what += g.s + " "; }
      s += "(check-sat)\n(get-model)\n(exit)\n";
      c.Note(what);
      ++c.transitions;
      const Out o = Run(s);
      // a negated quantifier may be refused
      if (!o.ok && s.find("forall") != std::string::npos && o.s.empty()) { ++c.extra["refused"]; continue; }
      if (!o.ok) { c.Fail("rejected " + what.substr(0, 200), what + ": rejected"); continue; }
      size_t at = 0;
      judge(c, what, ds, in, ReadAll(o.s), &at, ReadAll(o.s)[0].a == "delta-sat");
      c.Outcome(o.s);
    }
    c.State(vf::Cat(u));
  }, 120);
  // Histories of declarations, definitions, scopes and queries.
  struct Cmd { std::string s; int kind; int arg; };
  enum { kAssert, kDeclY, kFun, kBool, kPush, kPop, kPrec, kUseY, kUseF, kUseK, kCheck, kDeclB };
  static const std::vector<Cmd> cmds{{"", kAssert, 0}, {"", kAssert, 1}, {"", kDeclY, 0}, {"", kDeclY, 1}, {"", kFun, 0}, {"", kFun, 1}, {"", kBool, 0}, {"", kPush, 1}, {"", kPop, 1}, {"", kUseY, 0}, {"", kUseF, 0}, {"", kUseK, 0}, {"", kUseK, 1}, {"", kPush, 2}, {"", kPop, 2}};
  static const std::vector<F> base{LetF({BT("t", Mul({x, two}))}, Cmp("<=", Sym("t"), one), 3), Cmp(">=", x, Num("-0.5", -0.5))};
  const int len = d.thorough ? 6 : 5;
  const int NC = cmds.size();
  d.Add("histories", NC * NC, [=](int64_t u, vf::Ctx& c) {
    std::vector<int> seq{static_cast<int>(u / NC), static_cast<int>(u % NC)};
    std::function<void()> rec = [&]() {
      if (static_cast<int>(seq.size()) < len) {
        for (int k = 0; k < NC; ++k) { seq.push_back(k); rec(); seq.pop_back(); }
        return;
      }
      struct Frame { std::vector<Dom> ds; std::vector<F> in; std::map<std::string, std::pair<std::vector<Par>, T>> fn; };
      std::vector<Frame> st(1);
      st[0].ds.push_back(X);
      const std::string head = kHead + Decl(X);
      std::string s = head;
      struct Want { bool check; std::vector<Dom> ds; std::vector<F> in; };
      std::vector<Want> want;
      bool bad = false, skip = false;
      int ny = 0;
      auto has = [&](const std::string& n) { for (auto& f : st) for (auto& q : f.ds) if (q.n == n) return true; return false; };
      auto check = [&]() {
        s += "(check-sat)\n(get-model)\n";
        if (bad) return;
        Want w{true, {}, {}};
        for (auto& f : st) { w.ds.insert(w.ds.end(), f.ds.begin(), f.ds.end()); w.in.insert(w.in.end(), f.in.begin(), f.in.end()); }
        want.push_back(w);
      };
      for (int k : seq) {
        const Cmd& m = cmds[k];
        Frame& top = st.back();
        switch (m.kind) {
          case kAssert: s += "(assert " + base[m.arg].s + ")\n"; if (!bad) top.in.push_back(base[m.arg]); break;
          case kDeclY: {
            if (has("y") || bad) { skip = true; break; }
            const Dom dy = m.arg ? Dom{"y", "Int", -3, -1, "-3", "-1"} : Dom{"y", "Real", 0.25, 1, "0.25", "1"};
            s += Decl(dy, ny++ % 2); top.ds.push_back(dy); break;
          }
          case kFun: {
            const T body = m.arg ? Sub({Sym("a"), x}) : LetT({BT("t", Add({Sym("a"), x}))}, Mul({two, Sym("t")}));
            if (top.fn.count("f") || bad) { skip = true; break; }
            for (auto& f : st) if (f.fn.count("f")) skip = true;
            s += DefS("f", {{"a", "Real"}}, "Real", body.s);
            top.fn["f"] = {{{"a", "Real"}}, body};
            break;
          }
          case kBool: {
            if (has("k") || bad) { skip = true; break; }
            const F body = Cmp("<=", x, zero);
            s += "(define-fun k () Bool " + body.s + ")\n";
            top.ds.push_back({"k", "Bool", 0, 1, "", ""});
            top.in.push_back(Iff(BVar("k"), body));
            break;
          }
          case kPush: s += vf::Cat("(push ", m.arg, ")\n"); if (!bad) for (int j = 0; j < m.arg; ++j) st.push_back({}); break;
          case kPop: {
            // the problem is looked at before it changes
            check();
            s += vf::Cat("(pop ", m.arg, ")\n");
            if (static_cast<int>(st.size()) <= m.arg) { bad = true; break; }
            if (!bad) for (int j = 0; j < m.arg; ++j) st.pop_back();
            break;
          }
          case kUseY: {
            const F f = Cmp("<=", Add({x, Sym("y")}), half);
            s += "(assert " + f.s + ")\n";
            if (!has("y")) bad = true; else if (!bad) top.in.push_back(f);
            break;
          }
          case kUseF: {
            std::pair<std::vector<Par>, T>* def = nullptr;
            for (auto& f : st) if (f.fn.count("f")) def = &f.fn["f"];
            const T arg = Sub({x, one});
            if (!def) { s += "(assert (>= (f " + arg.s + ") -1.25))\n"; bad = true; break; }
            F f = Cmp(">=", AppT("f", def->first, def->second, {arg}), Num("-1.25", -1.25));
            f.tol = 3;
            s += "(assert " + f.s + ")\n";
            if (!bad) top.in.push_back(f);
            break;
          }
          case kUseK: {
            const F f = m.arg ? Not(BVar("k")) : BVar("k");
            s += "(assert " + f.s + ")\n";
            if (!has("k")) bad = true; else if (!bad) top.in.push_back(f);
            break;
          }
          default: break;
        }
        if (skip) return;
      }
      check();
      s += "(exit)\n";
      std::string what = s.substr(head.size());
      for (char& ch : what) if (ch == '\n') ch = ' ';
      c.Note(what);
      c.transitions += seq.size();
      const Out o = Run(s);
      const auto out = ReadAll(o.s);
      if (o.ok == bad) { c.Fail((bad ? "accepted " : "rejected ") + what.substr(0, 300), what + (bad ? ": not rejected" : ": rejected")); return; }
      size_t at = 0;
      for (auto& w : want) {
        const bool sat = at < out.size() && out[at].a == "delta-sat";
        if (!judge(c, what, w.ds, w.in, out, &at, sat)) return;
        // after unsat there is no model
        if (!sat && (at >= out.size() || out[at].k.empty() || out[at++].k[0].a != "error")) { c.Fail("no error " + what.substr(0, 300), what + ": a model after unsat"); return; }
      }
      if (at != out.size()) c.Fail("more " + what.substr(0, 300), what + ": answers after an error");
      c.Outcome(o.s);
    };
    rec();
    c.State(vf::Cat("h", u));
  }, 120);

  // Erroneous commands: rejected, and nothing is answered from there on.
  static const std::vector<std::string> wrong{
    "(assert 3)", "(assert x)", "(assert (+ x))", "(assert (> x b))", "(assert (> b x))", "(assert (>= 1 b))", "(assert (+ x b))", "(assert (and x b))", "(assert (or b 1))", "(assert (xor b x))", "(assert (not x))", "(assert (= x b))", "(assert (= b 1))", "(assert (=> b x))", "(assert (=> x b))", "(assert (ite x b b))", "(assert (ite b x b))", "(assert (> (ite x 1 2) 0))", "(assert (> y 0))", "(assert y)", "(assert (y 1))",
    "(assert (> (f x) 0))", "(assert (> (f x 1 2) 0))", "(assert (> (f) 0))", "(assert (> (f b 1) 0))", "(assert (> (f 1 b) 0))", "(assert (g x))", "(assert (g b b))", "(assert (h x))", "(assert (> (h x) 0))", "(assert (f x 1))", "(assert (> f 0))", "(assert (> (x 1) 0))",
    "(assert (> (sin x x) 0))", "(assert (> (sin) 0))", "(assert (> (sin b) 0))", "(assert (> (exp b) 0))", "(assert (> (pow x) 0))", "(assert (> (pow x 1 2) 0))", "(assert (> (pow b 1) 0))", "(assert (> (max x) 0))", "(assert (> (min x b) 0))", "(assert (> (atan2 x) 0))", "(assert (> (+) 0))", "(assert (> (*) 0))", "(assert (> (* x) 0))", "(assert (> (/ x) 0))", "(assert (> (- b) 0))", "(assert (> (- x b) 0))", "(assert (> (* x b) 0))", "(assert (> (/ x b) 0))",
    "(assert (> x))", "(assert (> x 0 1))", "(assert (=> b))", "(assert (not b b))", "(assert (not))", "(assert (and))", "(assert (or))", "(assert (ite b b))", "(assert (ite b b b b))",
    "(assert (let ((t x)) (> u 0)))", "(assert (and (let ((t x)) (> t 0)) (> t 0)))", "(assert (and (forall ((z Real [0, 1])) (>= (+ z 1) x)) (> z 0)))", "(assert (> a 0))", "(assert (let ((t x)(s t)) (> s 0)))", "(assert (let ((t t)) (> t 0)))", "(assert (let ((t b)) (> t 0)))", "(assert (let ((t x)) t))", "(assert (let ((t x)) (and t b)))", "(assert (forall ((z Rea)) (> z 0)))", "(assert (forall ((z Real)) z))", "(assert (forall ((z Bool)) (> z 0)))", "(assert (exists ((z Real)) (> z 0)))",
    "(assert (> x 0)", "(assert (> x 0)))", "assert", "()", ")", "(", "(foo)", "foo", "(assert (> x 99999999999999999999))", "(assert (> x -99999999999999999999))", "(assert (> x 9007199254740993))", "(assert (> x 1e999))", "(assert (> x 1.2.3))", "(assert (> x 0x))", "(assert (> x #b1))", "(assert (> x 1e))", "(assert (> 1x 0))", "(assert (> |x 0))", "(assert (> x \"1\"))", "(assert (> x :k))",
    "(declare-fun q () Foo)", "(declare-fun q (Real) Real)", "(declare-fun q () Real [x, 2])", "(declare-fun q () Real [1])", "(declare-fun q () Real [b, 2])", "(declare-fun q () Real [1 2])", "(declare-fun 3 () Real)", "(declare-fun q Real)", "(declare-const q () Real)", "(declare-const q Rea)", "(declare-fun |q () Real)", "(declare-fun () Real)",
    "(define-fun q () Int b)", "(define-fun q () Bool 3)", "(define-fun q () Real (> x 0))", "(define-fun q ((a Real)) Real (+ a w))", "(define-fun q ((a Real)) Real)", "(define-fun q ((a)) Real 1)", "(define-fun q ((a Foo)) Real 1)",
    "(pop 1)", "(pop 5)", "(push 1)(pop 2)", "(push)", "(push x)", "(push 1.5)", "(push -1)", "(pop -1)", "(pop)",
    "(set-option :precision -0.1)", "(set-option :precision 0.0)", "(set-option :produce-models 3)", "(set-option :produce-models maybe)", "(set-option)", "(set-logic FOO)", "(set-logic)", "(set-info :status \"abc)",
    "(minimize b)", "(minimize (> x 0))", "(minimize)", "(maximize y)", "(maximize b)", "(get-value (y))", "(get-value ((> x 0)))", "(get-value ())", "(get-value x)", "(check-sat 1)", "(get-model x)", "(exit 1)", "(get-option)"};
  d.Add("erroneous scripts", wrong.size(), [=](int64_t u, vf::Ctx& c) {
    static const std::string head = kHead + "(declare-fun x () Real [-2, 2])\n(declare-fun b () Bool)\n";
    static const std::string df = "(define-fun f ((a Real)(c Real)) Real (- a c))\n(define-fun g ((a Bool)) Bool (not a))\n(define-fun h ((a Real)) Bool (* a a))\n";
    static const std::vector<std::string> before{"", "(push 1)(assert b)(pop 1)", "(assert (let ((t x)(u x)) (>= (+ t u) 0)))", "(assert (forall ((z Real [0, 1])(a Real [0, 1])) (>= (+ z a) x)))", "(push 1)(declare-fun y () Real)(declare-fun w () Real)(pop 1)"};
    for (auto& pre : before) {
      ++c.transitions; ++c.traces;
      c.Note(pre + wrong[u]);
      for (bool first : {true, false}) {
        std::string s = head + df + pre + (first ? "" : "\n(check-sat)\n") + wrong[u] + "\n(check-sat)\n(get-model)\n(exit)\n";
        const Out o = Run(s);
        int n = 0;
        for (size_t q = o.s.find("sat"); q != std::string::npos; q = o.s.find("sat", q + 1)) ++n;
        if (o.ok) c.Fail("accepted " + pre + wrong[u], pre + " " + wrong[u] + ": accepted");
        else if (n != !first) c.Fail("answered " + pre + wrong[u], vf::Cat(pre, " ", wrong[u], ": ", n, " answers, expected ", !first));
        c.Outcome(vf::Cat(wrong[u], first, o.s));
      }
      ++c.nontrivial;
    }
    c.State(vf::Cat("e", u));
  }, 60);

  // Numerals, in constraints and in ranges, and names and layout.
  struct N { std::string s; double v; };
  static const std::vector<N> nums{{"0", 0}, {"7", 7}, {"-7", -7}, {"+3", 3}, {"(- 3)", -3}, {"0.5", .5}, {".5", .5}, {"5.", 5}, {"-0.25", -.25}, {"+1.5", 1.5}, {"0.1", .1}, {"-0.7", -.7}, {"1e2", 100}, {"1E2", 100}, {"25e-1", 2.5}, {"-1.25e+1", -12.5}, {"1e0", 1}, {"007.5", 7.5}, {"12345.678", 12345.678}, {"0x1p3", 8}, {"0x1.8p1", 3}, {"-0x10", -16}, {"0X.8", .5}, {"(/ 1 3)", 1.0 / 3}, {"(/ 22 7)", 22.0 / 7}, {"(* 2 3 0.5)", 3}, {"(- 10 1 2)", 7}, {"(+ 1 2 3.5)", 6.5}, {"(^ 2 5)", 32}, {"(- (^ 2 0.5))", -std::sqrt(2.)}, {"100000", 100000}, {"(- 0.001)", -.001}, {"1.00", 1}, {"00", 0}};
  d.Add("numerals", nums.size(), [=](int64_t u, vf::Ctx& c) {
    const N& n = nums[u];
    const std::vector<std::string> ops{"=", "<=", ">=", "<", ">"};
    static const std::vector<std::array<std::string, 2>> names{{{"x", "x"}}, {{"x2", "x2"}}, {{"|a b|", "|a b|"}}, {{"sinx", "sinx"}}, {{"e1", "e1"}}, {{"x-1", "x-1"}}, {{"_v", "_v"}}, {{"let1", "let1"}}, {{"min.x", "min.x"}}};
    for (size_t o = 0; o < ops.size(); ++o)
      for (int side = 0; side < 2; ++side)
        for (int form = 0; form < 3; ++form) {
          const std::string nm = names[(o + u + form) % names.size()][0];
          const double lo = n.v - 1, hi = n.v + 1;
          const Dom D{nm, "Real", form == 2 ? n.v : lo, form == 1 ? n.v : hi, form == 2 ? n.s : vf::Cat(std::setprecision(17), lo), form == 1 ? n.s : vf::Cat(std::setprecision(17), hi)};
          const T v = Sym(nm);
          const F f = side ? Cmp(ops[o], Num(n.s, n.v), v) : Cmp(ops[o], v, Num(n.s, n.v));
          // what must not hold: half away on the other side
          const double far = (ops[o][0] == '<') != (side == 1) ? 0.5 : -0.5;
          const F g = Cmp(far > 0 ? ">=" : "<=", v, Num("0", n.v + far));
          std::string gs = vf::Cat("(", far > 0 ? ">=" : "<=", " ", nm, " (+ ", n.s, far > 0 ? " 0.5" : " -0.5", "))");
          for (int both = 0; both < 2; ++both) {
            std::string s = vf::Cat(kHead, o % 2 ? "; a comment (assert false)\n" : "(set-info :source |a (assert false) b|)\n", Decl(D, side), "(assert\n\t", f.s, ")");
            std::vector<F> in{f};
            if (both) { s += "(assert" + std::string(1, o % 2 ? '\n' : ' ') + gs + ")"; in.push_back(g); }
            s += "(check-sat)(get-model)";
            if (o == 1) s += "(exit)";
            if (o == 2) s += "\n; end";
            if (o == 3) s += " ;";
            c.Note(s.substr(kHead.size()));
            ++c.transitions;
            const Out out = Run(s);
            std::string what = s.substr(kHead.size());
            for (char& ch : what) if (ch == '\n') ch = ' ';
            if (!out.ok) { c.Fail("rejected " + what, what + ": rejected"); continue; }
            auto sx = ReadAll(out.s);
            // a quoted name is printed in two pieces: joined
            std::string t = out.s;
            for (size_t q = t.find("|a b|"); q != std::string::npos; q = t.find("|a b|")) t.replace(q, 5, "|a_b|");
            sx = ReadAll(t);
            Dom D2 = D;
            std::vector<F> in2 = in;
            if (nm == "|a b|") {
              D2.n = "|a_b|";
              const T v2 = Sym("|a_b|");
              in2[0] = side ? Cmp(ops[o], Num(n.s, n.v), v2) : Cmp(ops[o], v2, Num(n.s, n.v));
              if (both) in2[1] = Cmp(far > 0 ? ">=" : "<=", v2, Num("0", n.v + far));
            }
            const bool sat = !sx.empty() && sx[0].a == "delta-sat";
            const bool possible = !both && true;
            if (both && sat) c.Fail("sat " + what, what + ": delta-sat");
            // the number itself, and one away where there is room
            if (possible && !sat) {
              const bool room = ops[o] == "=" || ops[o] == "<=" || ops[o] == ">=" || (form == 0) || ((form == 1) == (far > 0)); 
              if (room) c.Fail("unsat " + what, what + ": unsat");
            }
            size_t at = 0;
            if (sat) judge(c, what, {D2}, in2, sx, &at, true);
            c.Outcome(out.s);
          }
        }
    c.State("n" + n.s);
  }, 60);

  // get-value, against the model.
  static const std::vector<std::string> ask{"x", "y", "i", "b", "p", "(+ x y)", "(- x y)", "(- x)", "(* x y)", "(* x x)", "(/ x 4)", "(^ x 3)", "(sin x)", "(exp y)", "(abs x)", "(min x y)", "(max x i)", "(+ (* 2 x) (* 3 y) i 1)", "(* i 2)", "3", "0.1", "(let ((t x)) x)", "(sq x)", "(tanh (- y x))", "(atan2 y 2)", "(sqrt (+ x 2))", "(- (* x y) (cos x))"};
  d.Add("values", NF, [=](int64_t u, vf::Ctx& c) {
    for (int two_ = 0; two_ < 2; ++two_) {
      std::string s = pre, what;
      std::vector<F> in{fs[u]};
      if (two_) in.push_back(fs[(u + 7) % NF]);
      for (auto& f : in) { s += "(assert " + f.s + ")\n"; what += f.s + " "; }
      std::string q;
      for (auto& a : ask) q += " " + a;
      s += "(check-sat)\n(get-model)\n(get-value (" + q + "))\n(get-value (x))\n(exit)\n";
      c.Note(what);
      ++c.transitions;
      const Out o = Run(s);
      if (!o.ok) { c.Fail("rejected " + what, what + ": rejected"); continue; }
      const auto sx = ReadAll(o.s);
      size_t at = 0;
      const bool sat = !sx.empty() && sx[0].a == "delta-sat";
      judge(c, what, ds, in, sx, &at, sat);
      c.Outcome(o.s);
      if (!sat) {
        if (sx.size() != 4 || sx[2].k.empty() || sx[2].k[0].a != "error") c.Fail("value " + what, what + ": a value without a model");
        continue;
      }
      Map lo, hi;
      for (size_t j = 1; j < sx[1].k.size(); ++j) { double l, h; if (Val(sx[1].k[j].k[4], &l, &h)) { lo[sx[1].k[j].k[1].a] = l; hi[sx[1].k[j].k[1].a] = h; } }
      if (sx.size() != 4 || sx[2].k.size() != ask.size()) { c.Fail("values " + what, what + ": values are missing"); continue; }
      std::function<double(const SX&, const Map&)> ev = [&](const SX& t, const Map& m) -> double {
        if (t.k.empty()) { if (m.count(t.a)) return m.at(t.a); return t.a == "true" ? 1 : t.a == "false" ? 0 : strtod(t.a.c_str(), nullptr); }
        const std::string& op = t.k[0].a;
        if (op == "let") { Map n = m; for (auto& bd : t.k[1].k) n[bd.k[0].a] = ev(bd.k[1], m); return ev(t.k[2], n); }
        DV v;
        for (size_t j = 1; j < t.k.size(); ++j) v.push_back(ev(t.k[j], m));
        double r = v[0];
        if (op == "+") { for (size_t j = 1; j < v.size(); ++j) r += v[j]; return r; }
        if (op == "*") { for (size_t j = 1; j < v.size(); ++j) r *= v[j]; return r; }
        if (op == "-") { if (v.size() == 1) return -r; for (size_t j = 1; j < v.size(); ++j) r -= v[j]; return r; }
        if (op == "/") return v[0] / v[1];
        if (op == "^" || op == "pow") return std::pow(v[0], v[1]);
        if (op == "sin") return std::sin(r);
        if (op == "cos") return std::cos(r);
        if (op == "exp") return std::exp(r);
        if (op == "abs") return std::fabs(r);
        if (op == "tanh") return std::tanh(r);
        if (op == "sqrt") return std::sqrt(r);
        if (op == "min") return std::min(v[0], v[1]);
        if (op == "max") return std::max(v[0], v[1]);
        if (op == "atan2") return std::atan2(v[0], v[1]);
        if (op == "sq") return r * r;
        return 1e300;
      };
      for (int corner = 0; corner < 33; ++corner) {
        Map m;
        int bit = 0;
        for (auto& q2 : ds) { m[q2.n] = corner == 32 ? (lo[q2.n] + hi[q2.n]) / 2 : (corner >> bit & 1) ? hi[q2.n] : lo[q2.n]; ++bit; }
        for (size_t j = 0; j < ask.size(); ++j) {
          ++c.evals;
          size_t z = 0;
          const double want = ev(Read(ask[j], z), m), again = ev(sx[2].k[j].k[0], m);
          double l, h;
          z = 0;
          if (!Val(sx[2].k[j].k[1], &l, &h)) { c.Fail("value " + ask[j], ask[j] + ": value not understood"); continue; }
          if (!(l - 1e-9 <= want && want <= h + 1e-9)) { c.Fail("value " + ask[j], vf::Cat(what, ": the value of ", ask[j], " is given in [", l, ", ", h, "], but is ", want)); continue; }
          if (std::fabs(want - again) > 1e-9) { c.Fail("echo " + ask[j], vf::Cat(what, ": the value of ", ask[j], " is given for another term, which is ", again, " and not ", want)); continue; }
          if (corner == 32 && h - l > 40) c.Fail("wide " + ask[j], vf::Cat(what, ": the value of ", ask[j], " is given in [", l, ", ", h, "]"));
        }
      }
      ++c.nontrivial;
    }
    c.State(vf::Cat("v", u));
  }, 60);

  // Goals.
  // Values of terms over variables without an end.
  struct UB { std::string s; double lo, hi; };
  static const std::vector<UB> ub{{"", -HUGE_VAL, HUGE_VAL}, {"(assert (<= x 1))", -HUGE_VAL, 1}, {"(assert (>= x 1))", 1, HUGE_VAL}, {"(assert (< x (- 0.5)))", -HUGE_VAL, -0.5}, {"(assert (> x (- 2.5)))", -2.5, HUGE_VAL}, {"(assert (and (>= x (- 1)) (<= x (- 1))))", -1, -1}};
  struct UT { std::string s; double (*f)(double, double); };
  static const std::vector<UT> ut{{"x", [](double a, double) { return a; }}, {"y", [](double, double b) { return b; }}, {"(- x)", [](double a, double) { return -a; }}, {"(+ x 1)", [](double a, double) { return a + 1; }},
      {"(* 2 x)", [](double a, double) { return 2 * a; }}, {"(* (- 2) y)", [](double, double b) { return -2 * b; }}, {"(+ x y)", [](double a, double b) { return a + b; }}, {"(- x y)", [](double a, double b) { return a - b; }},
      {"(abs x)", [](double a, double) { return std::fabs(a); }}, {"(^ x 3)", [](double a, double) { return a * a * a; }}, {"(exp x)", [](double a, double) { return std::exp(a); }}, {"(min x 0)", [](double a, double) { return std::min(a, 0.0); }}, {"(max y 0)", [](double, double b) { return std::max(b, 0.0); }}};
  d.Add("values without an end", ub.size() * ub.size(), [=](int64_t u, vf::Ctx& c) {
    const UB &a = ub[u % ub.size()], &b = ub[u / ub.size()];
    std::string ay = b.s, q;
    for (auto& ch : ay) if (ch == 'x') ch = 'y';
    for (auto& t : ut) q += " " + t.s;
    const std::string what = a.s + " " + ay;
    c.Note(what);
    ++c.transitions;
    const Out o = Run(std::string(kHead) + "(declare-fun x () Real)\n(declare-fun y () Real)\n" + a.s + ay + "(check-sat)\n(get-value (" + q + "))\n(exit)\n");
    if (!o.ok) { c.Fail("rejected " + what, what + ": rejected"); return; }
    const auto sx = ReadAll(o.s);
    c.Outcome(o.s);
    if (sx.size() != 2 || sx[0].a != "delta-sat" || sx[1].k.size() != ut.size()) { c.Fail("no end " + what, what + ": values are missing: " + o.s); return; }
    // The model: the values of x and y.
    double xl, xh, yl, yh;
    if (!Val(sx[1].k[0].k[1], &xl, &xh) || !Val(sx[1].k[1].k[1], &yl, &yh)) { c.Fail("no end " + what, what + ": value not understood: " + o.s); return; }
    if (!(xl <= xh && yl <= yh && xl <= a.hi && xh >= a.lo && yl <= b.hi && yh >= b.lo)) { c.Fail("no end " + what, what + ": no value satisfies the bounds: " + o.s); return; }
    std::vector<double> pts{-HUGE_VAL, -1e300, -5, -1, 0, 0.5, 1, 5, 1e300, HUGE_VAL};
    for (size_t j = 0; j < ut.size(); ++j) {
      double l, h;
      if (!Val(sx[1].k[j].k[1], &l, &h)) { c.Fail("no end " + ut[j].s, what + ": value not understood: " + o.s); continue; }
      for (double p : pts)
        for (double r : pts) {
          const double v = ut[j].f(std::max(xl, std::min(xh, p)), std::max(yl, std::min(yh, r)));
          ++c.evals;
          if (std::isnan(v)) continue;
          if (!(l <= v && v <= h)) c.Fail("no end " + ut[j].s, vf::Cat(what, ": the value of ", ut[j].s, " is given in [", l, ", ", h, "], but is ", v, " at x = ", p, ", y = ", r));
        }
    }
    ++c.nontrivial;
    c.State(vf::Cat("u", u));
  }, 60);
  d.Add("goals", NF, [=](int64_t u, vf::Ctx& c) {
    static const std::vector<T> goals{x, Add({x, Mul({two, y})}), Mul({Sub({x, half}), Sub({x, half})}), Sub({Mul({y, y}), x}), AppT("sq", {{"a", "Real"}}, Mul({Sym("a"), Sym("a")}), {Sub({y, x})})};
    for (size_t g = 0; g < goals.size(); ++g)
      for (bool mx : {false, true}) {
        const F& f = fs[u];
        if (f.s.find("forall") != std::string::npos || f.tol > 1 || f.s.find("(= ") != std::string::npos || f.s.find("(let ") != std::string::npos) { ++c.extra["left out"]; continue; }
        const std::string what = f.s + (mx ? " maximize " : " minimize ") + goals[g].s;
        const std::string s = pre + "(assert " + f.s + ")\n(" + (mx ? "maximize " : "minimize ") + goals[g].s + ")\n(check-sat)\n(get-model)\n(exit)\n";
        c.Note(what);
        ++c.transitions;
        const Out o = Run(s);
        // goals under Boolean variables are refused
        if (!o.ok && o.s.empty() && (f.s.find("b") != std::string::npos || f.s.find("p") != std::string::npos)) { ++c.extra["refused"]; continue; }
        if (!o.ok) { c.Fail("rejected " + what, what + ": rejected"); continue; }
        const auto sx = ReadAll(o.s);
        size_t at = 0;
        const bool sat = !sx.empty() && sx[0].a == "delta-sat";
        c.Outcome(o.s);
        if (!judge(c, what, ds, {f}, sx, &at, sat) || !sat) continue;
        Map m;
        for (size_t j = 1; j < sx[1].k.size(); ++j) { double l, h; if (Val(sx[1].k[j].k[4], &l, &h)) m[sx[1].k[j].k[1].a] = (l + h) / 2; }
        const double got = goals[g].f({m, &m});
        for (auto& p2 : Grid(ds)) {
          const Env e{p2, &p2};
          ++c.evals;
          bool edge = false;
          for (auto& q2 : ds) if (q2.sort == "Real" && (p2[q2.n] < q2.lo + 2 * kDelta || p2[q2.n] > q2.hi - 2 * kDelta)) edge = true;
          if (edge || f.v(e) > -0.1) continue;
          const double other = goals[g].f(e);
          const double by = mx ? other - got : got - other;
          if (by > 6 * kDelta) { c.Fail("cost " + what, vf::Cat(what, ": cost ", got, ", while ", other, " is possible")); break; }
        }
        ++c.nontrivial;
      }
    c.State(vf::Cat("g", u));
  }, 120);
  d.rule = "an erroneous command is rejected and nothing is answered from there on; values enclose the term at the model; a cost is not undercut by more than the slack; unsat only if no grid point surely satisfies the assertions in force; a printed model lies in the declared ranges, has the declared variables and sorts, and violates no assertion by more than the precision (times the number of definitions it goes through)";
  d.bounds = {vf::Cat(NF, " assertions over five variables, alone, negated, paired and under connectives"),
              vf::Cat("all histories of ", len, " commands out of ", NC, " (declarations, definitions, assertions, scopes) with a query before each pop and at the end"),
              vf::Cat(wrong.size(), " erroneous commands after 5 prefixes, before and after a first answer"),
              vf::Cat(nums.size(), " numerals by relation, side and range; ", ask.size(), " terms asked for in each model; 10 goals under each assertion")};
  return d.Run();
}
