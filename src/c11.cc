// C11: the printed form of a term denotes that term.
#include <iomanip>
#include "dreal/symbolic/prefix_printer.h"
#include "logic.h"
using namespace lg;  // NOLINT
namespace sym = dreal::drake::symbolic;

static World w;
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- tokens --------------------------------------------------------------
struct Toks {
  std::vector<std::string> t;
  size_t i{0};
  explicit Toks(const std::string& s) {
    size_t p = 0;
    while (p < s.size()) {
      const char ch = s[p];
      if (isspace(static_cast<unsigned char>(ch))) { ++p; continue; }
      size_t q = p;
      if (isdigit(static_cast<unsigned char>(ch)) || (ch == '.' && p + 1 < s.size() && isdigit(static_cast<unsigned char>(s[p + 1])))) {
        while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q;
        if (q < s.size() && s[q] == '.' && q + 1 < s.size() && isdigit(static_cast<unsigned char>(s[q + 1]))) { ++q; while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q; }
        if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) {
          size_t r = q + 1;
          if (r < s.size() && (s[r] == '+' || s[r] == '-')) ++r;
          if (r < s.size() && isdigit(static_cast<unsigned char>(s[r]))) { q = r; while (q < s.size() && isdigit(static_cast<unsigned char>(s[q]))) ++q; }
        }
        if (q < s.size() && (isalnum(static_cast<unsigned char>(s[q])) || s[q] == '.')) throw Bad("malformed number");
      } else if (isalpha(static_cast<unsigned char>(ch)) || ch == '_') {
        while (q < s.size() && (isalnum(static_cast<unsigned char>(s[q])) || s[q] == '_')) ++q;
      } else if (p + 1 < s.size() && s[p + 1] == '=' && strchr("<>=!", ch)) {
        q = p + 2;
      } else {
        q = p + 1;
      }
      t.push_back(s.substr(p, q - p));
      p = q;
    }
  }
  const std::string& Peek() const { static const std::string e; return i < t.size() ? t[i] : e; }
  std::string Next() { if (i >= t.size()) throw Bad("text ends early"); return t[i++]; }
  bool Eat(const std::string& s) { if (Peek() == s) { ++i; return true; } return false; }
  void Need(const std::string& s) { if (!Eat(s)) throw Bad("expected '" + s + "' but found '" + Peek() + "'"); }
};
static NP Num(const std::string& s) {
  char* e = nullptr;
  const double v = strtod(s.c_str(), &e);
  if (*e) throw Bad("not a number: " + s);
  return ref::C(v);
}
static bool IsNum(const std::string& s) { return !s.empty() && isdigit(static_cast<unsigned char>(s[0])); }
static NP Var(const std::string& s) {
  for (int i = 0; i < w.n; ++i)
    if (VV().v[i].get_name() == s) return ref::V(i, VV().v[i].get_type() == Variable::Type::BOOLEAN);
  throw Bad("unknown name '" + s + "'");
}
static bool BoolSort(const NP& n) { return n->op >= Op::kTrue; }
static NP E(NP n) { if (BoolSort(n)) throw Bad("a formula where a term is expected"); return n; }
static NP F(NP n) { if (!BoolSort(n)) throw Bad("a term where a formula is expected"); return n; }
static NP UF(const std::string&, const std::vector<int>& a) {
  auto n = std::make_shared<ref::Node>();
  n->op = Op::kUF;
  n->bound = a;
  return n;
}
static const std::map<std::string, Op>& Funs() {
  static const std::map<std::string, Op> m{{"abs", Op::kAbs}, {"exp", Op::kExp}, {"log", Op::kLog}, {"sqrt", Op::kSqrt}, {"sin", Op::kSin}, {"cos", Op::kCos}, {"tan", Op::kTan}, {"asin", Op::kAsin}, {"acos", Op::kAcos},
                                           {"atan", Op::kAtan}, {"sinh", Op::kSinh}, {"cosh", Op::kCosh}, {"tanh", Op::kTanh}, {"pow", Op::kPow}, {"atan2", Op::kAtan2}, {"min", Op::kMin}, {"max", Op::kMax}};
  return m;
}

// ---- infix: or < and < relations < + - < * / < unary - < application -------
struct Infix {
  Toks t;
  explicit Infix(const std::string& s) : t(s) {}
  NP All() { NP n = Or(); if (t.i != t.t.size()) throw Bad("trailing '" + t.Peek() + "'"); return n; }
  NP Or() { NP a = And(); while (t.Eat("or")) a = B(Op::kOr, F(a), F(And())); return a; }
  NP And() { NP a = Rel(); while (t.Eat("and")) a = B(Op::kAnd, F(a), F(Rel())); return a; }
  NP Rel() {
    NP a = Sum();
    static const std::map<std::string, Op> m{{"==", Op::kEq}, {"!=", Op::kNe}, {"<", Op::kLt}, {"<=", Op::kLe}, {">", Op::kGt}, {">=", Op::kGe}};
    auto it = m.find(t.Peek());
    if (it == m.end()) return a;
    ++t.i;
    NP b = Sum();
    if (m.count(t.Peek())) throw Bad("chained comparison");
    return B(it->second, E(a), E(b));
  }
  NP Sum() {
    NP a = Prod();
    while (true) {
      if (t.Eat("+")) a = B(Op::kAdd, E(a), E(Prod()));
      else if (t.Eat("-")) a = B(Op::kSub, E(a), E(Prod()));
      else return a;
    }
  }
  NP Prod() {
    NP a = Unary();
    while (true) {
      if (t.Eat("*")) a = B(Op::kMul, E(a), E(Unary()));
      else if (t.Eat("/")) a = B(Op::kDiv, E(a), E(Unary()));
      else return a;
    }
  }
  NP Unary() {
    if (t.Eat("-")) { if (IsNum(t.Peek())) return ref::C(-Num(t.Next())->c); return ref::Mk(Op::kNeg, {E(Unary())}); }
    if (t.Eat("+")) return E(Unary());
    if (t.Eat("!")) return N(F(Unary()));
    return Prim();
  }
  NP Prim() {
    if (t.Eat("(")) {
      if (t.Eat("if")) {
        NP c = F(Or()); t.Need("then");
        NP a = E(Or()); t.Need("else");
        NP b = E(Or()); t.Need(")");
        return ref::Mk(Op::kIte, {c, a, b});
      }
      NP a = Or(); t.Need(")");
      return a;
    }
    if (t.Eat("[")) {
      NP a = Unary(); t.Need(",");
      NP b = Unary(); t.Need("]");
      if (a->op != Op::kConst || b->op != Op::kConst) throw Bad("not an interval");
      return ref::RC(a->c, b->c, true);
    }
    const std::string s = t.Next();
    if (IsNum(s)) return Num(s);
    if (s == "True") return ref::Mk(Op::kTrue);
    if (s == "False") return ref::Mk(Op::kFalse);
    if (s == "NaN") return ref::Mk(Op::kNan);
    if (t.Peek() == "(") {
      ++t.i;
      if (t.Peek() == "{") {
        std::vector<int> b;
        t.Need("{");
        while (!t.Eat("}")) { if (!b.empty()) t.Need(","); b.push_back(Var(t.Next())->var); }
        if (s != "forall") { t.Need(")"); return UF(s, b); }
        t.Need(".");
        NP f = F(Or()); t.Need(")");
        return ref::All(b, f);
      }
      auto it = Funs().find(s);
      if (it == Funs().end()) throw Bad("unknown function '" + s + "'");
      std::vector<NP> k{E(Or())};
      while (t.Eat(",")) k.push_back(E(Or()));
      t.Need(")");
      const size_t want = it->second == Op::kPow || it->second == Op::kAtan2 || it->second == Op::kMin || it->second == Op::kMax ? 2 : 1;
      if (k.size() != want) throw Bad("wrong number of arguments");
      return ref::Mk(it->second, k);
    }
    return Var(s);
  }
};
// ---- prefix ----------------------------------------------------------------
struct Prefix {
  Toks t;
  explicit Prefix(const std::string& s) : t(s) {}
  NP All() { NP n = Term(); if (t.i != t.t.size()) throw Bad("trailing '" + t.Peek() + "'"); return n; }
  NP Term() {
    if (t.Eat("-")) return ref::C(-Num(t.Next())->c);  // a signed numeral
    if (t.Peek() != "(") {
      const std::string s = t.Next();
      if (IsNum(s)) return Num(s);
      if (s == "true") return ref::Mk(Op::kTrue);
      if (s == "false") return ref::Mk(Op::kFalse);
      return Var(s);
    }
    t.Need("(");
    const std::string s = t.Next();
    std::vector<NP> k;
    while (t.Peek() != ")") k.push_back(Term());
    t.Need(")");
    auto n = [&](size_t lo, size_t hi) { if (k.size() < lo || k.size() > hi) throw Bad("wrong number of arguments of " + s); };
    auto fold = [&](Op o) { n(1, 99); NP a = E(k[0]); for (size_t i = 1; i < k.size(); ++i) a = B(o, a, E(k[i])); return a; };
    if (s == "+") return fold(Op::kAdd);
    if (s == "*") return fold(Op::kMul);
    if (s == "/") { n(2, 99); return fold(Op::kDiv); }
    if (s == "-") { n(1, 99); if (k.size() == 1) return k[0]->op == Op::kConst ? ref::C(-k[0]->c) : ref::Mk(Op::kNeg, {E(k[0])}); return fold(Op::kSub); }
    if (s == "^") { n(2, 2); return B(Op::kPow, E(k[0]), E(k[1])); }
    if (s == "ite") { n(3, 3); return ref::Mk(Op::kIte, {F(k[0]), E(k[1]), E(k[2])}); }
    if (s == "not") { n(1, 1); return N(F(k[0])); }
    if (s == "and" || s == "or") { n(1, 99); for (auto& x : k) F(x); return ref::Mk(s == "and" ? Op::kAnd : Op::kOr, k); }
    static const std::map<std::string, Op> m{{"=", Op::kEq}, {"<", Op::kLt}, {"<=", Op::kLe}, {">", Op::kGt}, {">=", Op::kGe}};
    auto r = m.find(s);
    if (r != m.end()) { n(2, 2); return B(r->second, E(k[0]), E(k[1])); }
    auto it = Funs().find(s);
    if (it == Funs().end()) throw Bad("unknown function '" + s + "'");
    const bool two = it->second == Op::kPow || it->second == Op::kAtan2 || it->second == Op::kMin || it->second == Op::kMax;
    n(two ? 2 : 1, two ? 2 : 1);
    for (auto& x : k) E(x);
    return ref::Mk(it->second, k);
  }
};
static void Consts(const NP& n, std::multiset<double>* out) {
  if (n->op == Op::kConst && n->c != 0 && std::fabs(n->c) != 1) out->insert(std::fabs(n->c));
  for (auto& k : n->k) Consts(k, out);
}
static bool Has(const NP& n, bool prefix) {  // something without a printed form
  if (n->op == Op::kNan) return true;
  if (prefix && (n->op == Op::kUF || n->op == Op::kForall)) return true;
  for (auto& k : n->k) if (Has(k, prefix)) return true;
  return false;
}
static bool Infinite(const NP& n) {
  if ((n->op == Op::kConst || n->op == Op::kReal) && !(std::isfinite(n->c) && std::isfinite(n->c2))) return true;
  for (auto& k : n->k) if (Infinite(k)) return true;
  return false;
}
// p is what the text says, l is the term.
static std::string Differs(const NP& p, const NP& l, vf::Ctx& c) {
  if (BoolSort(p) != BoolSort(l)) return "of the other sort";
  if (FreeOf(p) != FreeOf(l)) return "over other variables";
  for (auto& g : w.grid) {
    ref::Env e1 = g, e2 = g;
    ++c.evals;
    if (BoolSort(p)) {
      const ref::Tri a = ref::EvalF(p, e1), b = ref::EvalF(l, e2);
      if (a == ref::Tri::U || b == ref::Tri::U) continue;
      if (a != b) return vf::Cat("with another truth value at ", EnvStr(g, w.n));
    } else {
      const ref::FV a = ref::EvalE(p, e1), b = ref::EvalE(l, e2);
      if (a.s == ref::St::Unk || b.s == ref::St::Unk) continue;
      if (a.s != b.s) return vf::Cat("with another domain at ", EnvStr(g, w.n));
      if (a.s == ref::St::Undef) continue;
      const double tol = 1e-13 * std::max(a.mag, b.mag) + 1e-300;
      if (a.hi + tol < b.lo || b.hi + tol < a.lo) return vf::Cat("with the value ", a.lo, " instead of ", b.lo, " at ", EnvStr(g, w.n));
    }
  }
  return "";
}
static std::string Stamp(std::ostream& os) { return vf::Cat(os.flags(), "/", os.precision(), "/", static_cast<int>(os.fill()), "/", os.exceptions(), "/", os.rdstate()); }
static std::string Text(const Expression& e) { return e.to_string(); }
static std::string Text(const Formula& e) { return e.to_string(); }
static NP LiftAny(const Expression& e) { return LiftE(e); }
static NP LiftAny(const Formula& e) { return LiftF(e); }

// Streams in which a user may print.
struct Mode { const char* name; void (*set)(std::ostream&); };
static const std::vector<Mode>& Modes() {
  static const std::vector<Mode> m{
      {"default", [](std::ostream&) {}},
      {"precision 2", [](std::ostream& o) { o << std::setprecision(2); }},
      {"precision 30", [](std::ostream& o) { o << std::setprecision(30); }},
      {"fixed", [](std::ostream& o) { o << std::fixed; }},
      {"fixed precision 3", [](std::ostream& o) { o << std::fixed << std::setprecision(3); }},
      {"scientific", [](std::ostream& o) { o << std::scientific; }},
      {"hexfloat", [](std::ostream& o) { o << std::hexfloat; }},
      {"showpoint", [](std::ostream& o) { o << std::showpoint; }},
      {"hex", [](std::ostream& o) { o << std::hex << std::showbase; }},
      {"uppercase fill", [](std::ostream& o) { o << std::uppercase << std::setfill('*') << std::left; }},
      {"boolalpha exceptions", [](std::ostream& o) { o << std::boolalpha; o.exceptions(std::ios::badbit); }},
  };
  return m;
}
// Prints t in one form on one stream and reads the text back.
template <typename T>
static void One(const T& t, const NP& l, const std::string& id0, bool prefix, const Mode& m, vf::Ctx& c, bool exact = false) {
  ++c.transitions;
  const std::string id = vf::Cat(prefix ? "prefix " : "infix ", id0, m.name == std::string("default") ? "" : vf::Cat(" on a stream with ", m.name));
  std::ostringstream os;
  m.set(os);
  const std::string before = Stamp(os);
  std::string what;
  bool thrown = false;
  os << "<";
  try {
    if (prefix) {
      dreal::PrefixPrinter pp{os};
      pp.Print(t);
    } else {
      os << t;
    }
  } catch (const std::exception& e) {
    thrown = true;
    what = e.what();
  }
  if (Stamp(os) != before) c.Fail("state " + id, vf::Cat(id, " leaves the stream in another formatting state (", before, " -> ", Stamp(os), ")"));
  const bool must = prefix && Has(l, true);
  ++c.traces;
  if (thrown) {
    if (!must) c.Fail("refused " + id, vf::Cat(id, " is refused: ", what));
    else ++c.nontrivial;
    return;
  }
  const std::string text = os.str().substr(1);
  if (prefix && must) { c.Fail("not refused " + id, vf::Cat(id, " cannot be printed but gives ", text)); return; }
  NP p;
  try {
    p = prefix ? Prefix(text).All() : Infix(text).All();
  } catch (const Bad& e) {
    c.Fail("unreadable " + id, vf::Cat(id, " gives ", text, " which cannot be read (", e.what(), ")"));
    return;
  }
  const std::string diff = Differs(p, l, c);
  if (!diff.empty()) c.Fail("differs " + id, vf::Cat(id, " gives ", text, " which reads as a term ", diff));
  else if (exact) {
    std::multiset<double> a, b;
    Consts(p, &a);
    Consts(l, &b);
    if (a != b) c.Fail("digits " + id, vf::Cat(id, " gives ", text, " in which a constant is not exact"));
  }
  c.Outcome(vf::Cat(prefix, text.size() < 60 ? text : text.substr(0, 60)));
  ++c.nontrivial;
  c.Sample(vf::Cat(id, " -> ", text));
}
template <typename T>
static void Check(const T& t, const NP& n, vf::Ctx& c, bool all_modes = false, bool exact = false) {
  const NP l = LiftAny(t);
  if (Infinite(l)) return;  // overflowed while it was built: no numeral denotes it
  const std::string id = ref::Str(n);
  c.Note(id);
  c.StateHash(vf::HashStr(ref::Str(l)));
  const std::string t0 = Text(t);
  const size_t h0 = t.get_hash();
  for (bool prefix : {false, true})
    for (size_t i = 0; i < (all_modes ? Modes().size() : 1); ++i) One(t, l, id, prefix, Modes()[i], c, exact);
  // the one-call conveniences print the same text as a fresh stream
  std::ostringstream os;
  os << t;
  if (t0 != os.str() || Text(t) != t0) c.Fail("to_string " + id, vf::Cat("to_string of ", id, " gives ", t0, " and ", Text(t), " but printing gives ", os.str()));
  if (!Has(l, true)) {
    std::ostringstream o2;
    { dreal::PrefixPrinter pp{o2}; pp.Print(t); }
    if (dreal::ToPrefix(t) != o2.str()) c.Fail("ToPrefix " + id, vf::Cat("ToPrefix of ", id, " gives ", dreal::ToPrefix(t), " but printing gives ", o2.str()));
  }
  if (ref::Str(LiftAny(t)) != ref::Str(l) || t.get_hash() != h0) c.Fail("changed " + id, "printing changed " + id);
}

int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  for (const char* v : {"x", "y", "z_1"}) VV().New(v, Variable::Type::CONTINUOUS);
  for (const char* v : {"b1", "b2"}) VV().New(v, Variable::Type::BOOLEAN);
  w.Set({{0, {-1.5, 0.3, 1, 2}}, {1, {-2, 0.7, 3}}, {2, {0.5}}, {3, {0, 1}}, {4, {0, 1}}});
  const NP x = ref::V(0), y = ref::V(1), z = ref::V(2), b1 = ref::V(3, true), b2 = ref::V(4, true);
  auto C = [](double v) { return ref::C(v); };
  auto Ite = [](NP a, NP b, NP e) { return ref::Mk(Op::kIte, {a, b, e}); };
  const NP rc = ref::RC(0.1, std::nextafter(0.1, 1), true), rc2 = ref::RC(-0.45, std::nextafter(-0.45, 1), false);
  // terms: every operation over every pair, twice
  std::vector<NP> leaf{x, y, C(0), C(1), C(-1), C(2), C(-3), C(0.1), C(-1 / 3.0), C(123456.789012), C(1e-7), C(-2.5e20), rc, rc2};
  ESet T1, T2;
  auto put = [](ESet* s, const NP& n) { try { s->Insert(BuildE(n), n); } catch (const std::exception&) {} };
  for (auto& a : leaf) put(&T1, a);
  for (auto& a : leaf) {
    for (Op o : UnaryOps()) put(&T1, ref::Mk(o, {a}));
    for (auto& b : leaf) for (Op o : BinaryOps()) put(&T1, B(o, a, b));
    for (auto& b : leaf) for (auto& f : {b1, B(Op::kLt, x, y), N(B(Op::kAnd, b1, B(Op::kGe, a, y)))}) put(&T1, Ite(f, a, b));
  }
  std::vector<NP> sel{x, C(-3), C(0.1), B(Op::kAdd, x, C(1 / 3.0)), B(Op::kSub, y, x), B(Op::kMul, C(-2), x), B(Op::kMul, C(0.7), B(Op::kMul, x, y)), B(Op::kDiv, x, y), B(Op::kDiv, C(-1), x), B(Op::kPow, x, C(2)), B(Op::kPow, y, C(-1)), B(Op::kPow, x, y),
                      ref::Mk(Op::kNeg, {x}), ref::Mk(Op::kSin, {x}), B(Op::kMin, x, C(-1)), Ite(B(Op::kLe, x, y), x, C(-0.1)), rc, B(Op::kAdd, B(Op::kMul, C(1 / 7.0), x), B(Op::kMul, C(-0.3), y))};
  const std::vector<ES> L1 = T1.v;
  // formulas
  std::vector<FS> A{Fs(ref::Mk(Op::kTrue)), Fs(b1), Fs(b2)};
  for (Op o : RelOps()) { A.push_back(Fs(B(o, x, y))); A.push_back(Fs(B(o, B(Op::kMul, C(-0.1), x), C(-3)))); }
  A.push_back(Fs(B(Op::kGt, Ite(N(B(Op::kAnd, b1, B(Op::kGt, x, y))), x, y), C(0))));
  A.push_back(Fs(ref::All({2}, B(Op::kLe, x, z))));
  A.push_back(Fs(ref::All({1, 2}, N(B(Op::kOr, b1, B(Op::kLt, z, y))))));
  FSet P2 = Grow(A, A, {Op::kAnd, Op::kOr, Op::kIff});
  static std::vector<FS> P2v, CL;
  P2v = P2.v;
  CL = {Fs(b1), Fs(B(Op::kLt, x, y)), Fs(B(Op::kNe, B(Op::kMul, C(0.1), x), C(-2)))};
  d.rule = "case = printing one term in one form on a stream in one formatting state; the text is read back by an independent reader of the usual grammar (prefix: SMT-LIB) and evaluated beside the term at every grid point; stream state, term and hash are compared before and after; non-trivial = text was read back, or printing was refused as it must be";
  d.bounds = {vf::Cat("terms: every unary and binary operation and conditional over ", leaf.size(), " leaves (", L1.size(), " distinct), and again over those with ", sel.size(), " selected terms, both orders"),
              vf::Cat("formulas: ", A.size(), " atoms, depth 2 complete, depth 3 with any atom; alternating chains of depth 5"), "constants: all 2046 exponents x 7 mantissas x 2 signs x 8 positions", vf::Cat("streams: ", Modes().size(), " formatting states"), vf::Cat("grid ", w.grid.size())};
  d.Add("terms", L1.size(), [&](int64_t u, vf::Ctx& c) {
    Check(L1[u].e, L1[u].n, c, true);
    auto two = [&](const NP& n) { try { Check(BuildE(n), n, c); } catch (const std::domain_error&) {} catch (const std::runtime_error&) {} };
    for (Op o : UnaryOps()) two(ref::Mk(o, {L1[u].n}));
    for (auto& s : sel) {
      for (Op o : BinaryOps()) { two(B(o, L1[u].n, s)); two(B(o, s, L1[u].n)); }
      two(Ite(B(Op::kLt, s, L1[u].n), L1[u].n, s));
    }
    for (Op o : RelOps()) { const FS f = Fs(B(o, L1[u].n, sel[u % sel.size()])); Check(f.f, f.n, c, true); }
  });
  // polynomials with several terms
  static std::vector<NP> mono;
  for (double k : {-0.1, 2.0, 1.0, -1.0, 1 / 3.0}) for (auto& m : {x, y, B(Op::kMul, x, y), B(Op::kPow, x, C(2)), ref::Mk(Op::kSin, {x}), B(Op::kDiv, y, x), B(Op::kMul, B(Op::kPow, x, C(-1)), B(Op::kPow, y, C(0.5)))}) mono.push_back(B(Op::kMul, C(k), m));
  for (double k : {-1.0, 0.1, 3.0}) mono.push_back(C(k));
  d.Add("sums", mono.size() * mono.size(), [&](int64_t u, vf::Ctx& c) {
    for (auto& m : mono) { const NP n = B(Op::kAdd, B(Op::kAdd, mono[u / mono.size()], mono[u % mono.size()]), m); Check(BuildE(n), n, c); }
    const NP n = B(Op::kMul, C(0.3), B(Op::kMul, B(Op::kAdd, mono[u / mono.size()], mono[u % mono.size()]), mono[u % 7]));
    Check(BuildE(n), n, c, u % 5 == 0);
  });
  d.Add("constants", 2046, [&](int64_t u, vf::Ctx& c) {
    for (double m : {1.0, 1 + DBL_EPSILON, 2 - DBL_EPSILON, 1.1, 1.3333333333333333, 1.7000000000000002, 1.9999})
      for (double s : {1.0, -1.0}) {
        const double v = s * std::ldexp(m, static_cast<int>(u) - 1022);
        if (!std::isfinite(v)) continue;
        for (auto& n : {C(v), B(Op::kAdd, C(v), x), B(Op::kMul, C(v), x), B(Op::kAdd, B(Op::kMul, C(v), x), y), B(Op::kPow, ref::Mk(Op::kAbs, {x}), C(v)), B(Op::kDiv, ref::Mk(Op::kSin, {x}), B(Op::kAdd, C(v), y)), Ite(B(Op::kLt, x, C(v)), y, C(2)), B(Op::kMul, C(v), B(Op::kMul, x, y))}) {
          try { Check(BuildE(n), n, c, false, true); } catch (const std::domain_error&) {} catch (const std::runtime_error&) {}
        }
      }
  });
  Pairs(d, "formulas", P2v, A, {Op::kAnd, Op::kOr, Op::kIff}, [](const FS& s, vf::Ctx& c) { Check(s.f, s.n, c); });
  Chains(d, "chains", CL, d.thorough ? 4 : 3, [](const FS& s, vf::Ctx& c) { Check(s.f, s.n, c); });
  // what has no printed form, below every kind of node
  static std::vector<NP> bad;
  { auto u1 = std::make_shared<ref::Node>(); u1->op = Op::kUF; u1->bound = {0, 1}; bad.push_back(u1); auto u2 = std::make_shared<ref::Node>(); u2->op = Op::kUF; bad.push_back(u2); }
  bad.push_back(Ite(ref::All({2}, B(Op::kLe, x, z)), x, y));
  bad.push_back(Ite(N(ref::All({2}, B(Op::kLe, z, x))), x, y));
  d.Add("refused", bad.size(), [&](int64_t u, vf::Ctx& c) {
    std::vector<NP> t{bad[u]};
    for (Op o : UnaryOps()) t.push_back(ref::Mk(o, {bad[u]}));
    for (Op o : BinaryOps()) { t.push_back(B(o, bad[u], x)); t.push_back(B(o, y, bad[u])); }
    t.push_back(Ite(b1, x, bad[u])); t.push_back(Ite(b1, bad[u], y)); t.push_back(Ite(B(Op::kLt, bad[u], x), x, y));
    for (size_t i = 0, n = t.size(); i < n; ++i) { t.push_back(B(Op::kAdd, x, B(Op::kMul, C(2), t[i]))); t.push_back(B(Op::kPow, t[i], C(2))); }
    for (auto& n : t) {
      Check(BuildE(n), n, c, true);
      for (Op o : RelOps()) { const FS f = Fs(B(o, y, n)); Check(f.f, f.n, c); const FS g = Fs(B(Op::kOr, b1, N(B(Op::kAnd, b2, B(o, n, x))))); Check(g.f, g.n, c); }
    }
    if (u == 0) {
      const Expression nan = Expression::NaN();
      std::ostringstream os;
      os << nan;
      if (os.str() != "NaN") c.Fail("nan", "NaN prints as " + os.str());
      try { const std::string s = dreal::ToPrefix(nan); c.Fail("nan prefix", "NaN has the prefix form " + s); } catch (const std::exception&) {}
    }
  });
  return d.Run();
}
