// BUILD: full
// C33: files in the native format mean what their grammar says. All token
// sequences up to a length are read by a reference reader as well, whose value
// or verdict the answer of the driver is compared with.
#include <unistd.h>
#include <array>
#include <cstring>
#include <iomanip>
#include <iostream>
#include "dreal/dr/driver.h"
#include "vf.h"
using namespace dreal;
namespace {
const double kDelta = 0.001;
struct Out { std::string s; bool ok; };
Out Run(const std::string& script, double delta = kDelta) {
  static FILE* tmp = std::tmpfile();
  std::cout.flush(); fflush(stdout);
  const int save = dup(1);
  if (ftruncate(fileno(tmp), 0)) {}
  lseek(fileno(tmp), 0, SEEK_SET);
  dup2(fileno(tmp), 1);
  std::ostringstream err;
  std::streambuf* const cb = std::cerr.rdbuf(err.rdbuf());
  bool ok = false;
  try {
    Config cfg;
    cfg.mutable_precision() = delta;
    cfg.mutable_produce_models() = true;
    DrDriver driver{Context{cfg}};
    ok = driver.parse_string(script);
  } catch (const std::exception&) {
    ok = false;
  }
  std::cerr.rdbuf(cb);
  std::cout.flush(); fflush(stdout);
  dup2(save, 1); close(save);
  const off_t n = lseek(fileno(tmp), 0, SEEK_END);
  std::string s(n, '\0');
  if (n && pread(fileno(tmp), &s[0], n, 0) != n) s.clear();
  return {s, ok};
}
using Map = std::map<std::string, double>;
// The reference reader: precedence climbing over a token list. An expression
// is read into a tree that is evaluated at points.
struct E { std::string op; double num = 0; std::vector<E> k; };
const double kPi = 3.14159265358979323846;
double Ev(const E& e, const Map& m) {
  if (e.op == "num") return e.num;
  if (e.op == "var") return 0;
  if (e.k.empty()) return m.at(e.op);
  const double a = Ev(e.k[0], m), b = e.k.size() > 1 ? Ev(e.k[1], m) : 0;
  if (e.op == "+") return a + b;
  if (e.op == "-") return e.k.size() > 1 ? a - b : -a;
  if (e.op == "*") return a * b;
  if (e.op == "/") return a / b;
  if (e.op == "^" || e.op == "pow") return std::pow(a, b);
  if (e.op == "exp") return std::exp(a);
  if (e.op == "log") return std::log(a);
  if (e.op == "abs") return std::fabs(a);
  if (e.op == "sin") return std::sin(a);
  if (e.op == "cos") return std::cos(a);
  if (e.op == "tan") return std::tan(a);
  if (e.op == "asin" || e.op == "arcsin") return std::asin(a);
  if (e.op == "acos" || e.op == "arccos") return std::acos(a);
  if (e.op == "atan" || e.op == "arctan") return std::atan(a);
  if (e.op == "atan2" || e.op == "arctan2") return std::atan2(a, b);
  if (e.op == "sinh") return std::sinh(a);
  if (e.op == "cosh") return std::cosh(a);
  if (e.op == "tanh") return std::tanh(a);
  if (e.op == "min") return std::min(a, b);
  if (e.op == "max") return std::max(a, b);
  if (e.op == "sqrt") return std::sqrt(a);
  return NAN;
}
using Toks = std::vector<std::string>;
bool IsNum(const std::string& t) { return isdigit(t[0]) || t[0] == '.'; }
struct Reader {
  const Toks& t;
  size_t p = 0;
  const std::set<std::string>& vars;
  bool ok = true;
  bool At(const std::string& s) const { return p < t.size() && t[p] == s; }
  int Prec(const std::string& s) const { return s == "+" || s == "-" ? 1 : s == "*" || s == "/" ? 2 : s == "^" ? 4 : 0; }
  E Prim() {
    E e;
    if (p >= t.size()) { ok = false; return e; }
    const std::string s = t[p++];
    if (s == "-") { e.op = "-"; e.k.push_back(Expr(4)); return e; }
    if (s == "(") { e = Expr(1); if (!At(")")) ok = false; ++p; return e; }
    if (IsNum(s)) { e.op = "num"; e.num = strtod(s.c_str(), nullptr); return e; }
    static const std::set<std::string> f1{"exp", "log", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "sqrt"}, f2{"atan2", "arctan2", "min", "max", "pow"};
    if (f1.count(s) || f2.count(s)) {
      e.op = s;
      if (!At("(")) { ok = false; return e; }
      ++p;
      e.k.push_back(Expr(1));
      if (f2.count(s)) { if (!At(",")) { ok = false; return e; } ++p; e.k.push_back(Expr(1)); }
      if (!At(")")) ok = false;
      ++p;
      return e;
    }
    if (vars.count(s)) { e.op = s; return e; }
    ok = false;
    return e;
  }
  // unary minus binds less than ^ and more than * and /
  E Expr(int least) {
    E l = Prim();
    while (ok && p < t.size() && Prec(t[p]) >= least && Prec(t[p])) {
      const std::string op = t[p];
      const int q = Prec(op);
      ++p;
      E r = Expr(op == "^" ? q : q + 1);
      E n;
      n.op = op;
      n.k = {l, r};
      l = n;
    }
    return l;
  }
};
// Formulas over atoms with known truth values; lowest first: =>, or, and, not.
struct FReader {
  const Toks& t;
  const std::map<std::string, bool>& atoms;
  size_t p = 0;
  bool ok = true;
  bool At(const std::string& s) const { return p < t.size() && t[p] == s; }
  bool Imp() { bool a = Or(); if (ok && (At("=>") || At("implies"))) { ++p; const bool b = Imp(); a = !a || b; } return a; }
  bool Or() { bool a = And(); while (ok && At("or")) { ++p; const bool b = And(); a = a || b; } return a; }
  bool And() { bool a = Not(); while (ok && At("and")) { ++p; const bool b = Not(); a = a && b; } return a; }
  bool Not() { if (At("not")) { ++p; return !Not(); } return Prim(); }
  bool Prim() {
    if (p >= t.size()) { ok = false; return false; }
    const std::string s = t[p++];
    if (s == "(") { const bool a = Imp(); if (!At(")")) ok = false; ++p; return a; }
    const auto it = atoms.find(s);
    if (it == atoms.end()) { ok = false; return false; }
    return it->second;
  }
};
std::string Join(const Toks& t, const char* sep) { std::string s; for (auto& x : t) s += (s.empty() ? "" : sep) + x; return s; }
// What is printed of a model: name : [lo, hi]
bool Model(const std::string& s, std::map<std::string, std::array<double, 2>>* m) {
  std::istringstream is(s);
  std::string line;
  while (std::getline(is, line)) {
    const size_t q = line.find(" : ");
    if (q == std::string::npos || line.find("Found") == 0) continue;
    double a, b;
    const std::string v = line.substr(q + 3);
    if (sscanf(v.c_str(), "[%lf, %lf]", &a, &b) != 2 && sscanf(v.c_str(), "<%lf, %lf>", &a, &b) != 2) { if (sscanf(v.c_str(), "[%lf]", &a) != 1) return false; b = a; }
    (*m)[line.substr(0, q)] = {a, b};
  }
  return true;
}
}  // namespace
int main(int argc, char** argv) {
  vf::Driver d(argc, argv);
  // Token sequences of expressions, the value read from a model.
  static const std::vector<std::string> al{"x", "y", "2", "+", "-", "*", "/", "^", "(", ")"};
  static const std::set<std::string> vs{"x", "y"};
  static const Map at{{"x", 3}, {"y", 1.5}};
  const int NA = al.size(), L = d.thorough ? 9 : 8, LB = d.thorough ? 5 : 4;
  d.Add("expressions", NA * NA, [=](int64_t u, vf::Ctx& c) {
    Toks t{al[u / NA], al[u % NA]};
    auto one = [&]() {
      Reader r{t, 0, vs};
      const E e = r.Expr(1);
      const bool good = r.ok && r.p == t.size();
      if (!good && static_cast<int>(t.size()) > LB) return;
      // written with and without spaces, where that reads the same
      bool apart = (t.size() + u) % 2;
      for (size_t j = 1; j < t.size(); ++j) if (isalnum(t[j][0]) && isalnum(t[j - 1][0])) apart = true;
      const std::string text = Join(t, apart ? " " : "");
      c.Note(text);
      ++c.transitions; ++c.traces;
      const double v = good ? Ev(e, at) : 0;
      const Out o = Run("var:\n3 x;\n1.5 y;\n[-100000, 100000] z;\nctr:\nz = " + text + ";\n");
      if (!good) {
        if (o.ok || !o.s.empty()) c.Fail("accepted " + text, "z = " + text + ": not rejected, answers " + o.s);
        return;
      }
      if (!o.ok && std::isfinite(v)) { c.Fail("rejected " + text, "z = " + text + ": rejected"); return; }
      if (!std::isfinite(v) || std::fabs(v) > 99999) { ++c.extra["out of range"]; return; }
      std::map<std::string, std::array<double, 2>> m;
      if (o.s.find("delta-sat") != 0 || !Model(o.s, &m) || !m.count("z")) { c.Fail("unsat " + text, vf::Cat("z = ", text, ": answers ", o.s, ", expected z = ", v)); return; }
      ++c.nontrivial; ++c.evals;
      if (m["z"][1] < v - 2 * kDelta - 1e-9 * std::fabs(v) || m["z"][0] > v + 2 * kDelta + 1e-9 * std::fabs(v)) c.Fail("value " + text, vf::Cat("z = ", text, ": reads z in [", m["z"][0], ", ", m["z"][1], "], expected ", v));
      c.Outcome(vf::Cat(v));
    };
    std::function<void()> rec = [&]() {
      one();
      if (static_cast<int>(t.size()) >= L) return;
      for (auto& a : al) {
        // no prefix of an expression: pruned, once long enough
        int depth = 0;
        bool dead = false;
        t.push_back(a);
        if (static_cast<int>(t.size()) > LB) {
          bool operand = true;
          for (auto& s : t) {
            if (operand) { if (s == "-") continue; if (s == "(") ++depth; else if (s == ")" || s == "+" || s == "*" || s == "/" || s == "^") dead = true; else operand = false; }
            else { if (s == ")") --depth; else if (s == "(" || isalnum(s[0])) dead = true; else operand = true; }
            if (depth < 0 || depth > 2) dead = true;
          }
          if (depth + static_cast<int>(t.size()) > L) dead = true;
        }
        if (!dead) rec();
        t.pop_back();
      }
    };
    if (u == 0) { const Toks keep = t; for (auto& a : al) { t = {a}; one(); } t = keep; }
    rec();
    c.State(vf::Cat("e", u));
  }, 120);

  // Token sequences of formulas over atoms whose truth is known.
  static const std::vector<std::string> fal{"x<4", "x=2", "y>=1", "and", "or", "=>", "not", "(", ")"};
  static const std::map<std::string, bool> atoms{{"x<4", true}, {"x=2", false}, {"y>=1", true}};
  const int NF = fal.size(), FL = d.thorough ? 10 : 9, FB = d.thorough ? 5 : 4;
  d.Add("formulas", NF * NF, [=](int64_t u, vf::Ctx& c) {
    Toks t{fal[u / NF], fal[u % NF]};
    auto one = [&]() {
      FReader r{t, atoms};
      const bool v = r.Imp();
      const bool good = r.ok && r.p == t.size();
      if (!good && static_cast<int>(t.size()) > FB) return;
      const std::string text = Join(t, " ");
      c.Note(text);
      ++c.transitions; ++c.traces;
      const Out o = Run("var:\n3 x;\n1.5 y;\nctr:\n" + text + ";\n");
      if (!good) {
        if (o.ok || !o.s.empty()) c.Fail("accepted " + text, text + ": not rejected, answers " + o.s);
        return;
      }
      if (!o.ok) { c.Fail("rejected " + text, text + ": rejected"); return; }
      ++c.nontrivial; ++c.evals;
      if ((o.s.find("delta-sat") == 0) != v) c.Fail("answer " + text, vf::Cat(text, " where x = 3, y = 1.5: answers ", o.s, ", but it is ", v ? "true" : "false"));
      c.Outcome(o.s);
    };
    std::function<void()> rec = [&]() {
      one();
      if (static_cast<int>(t.size()) >= FL) return;
      for (auto& a : fal) {
        t.push_back(a);
        bool dead = false;
        int depth = 0;
        if (static_cast<int>(t.size()) > FB) {
          bool operand = true;
          for (auto& s : t) {
            if (operand) { if (s == "not") continue; if (s == "(") ++depth; else if (atoms.count(s)) operand = false; else dead = true; }
            else { if (s == ")") --depth; else if (s == "and" || s == "or" || s == "=>") operand = true; else dead = true; }
            if (depth < 0) dead = true;
          }
          if (depth + static_cast<int>(t.size()) > FL) dead = true;
        }
        if (!dead) rec();
        t.pop_back();
      }
    };
    if (u == 0) { const Toks keep = t; for (auto& a : fal) { t = {a}; one(); } t = keep; }
    rec();
    c.State(vf::Cat("f", u));
  }, 120);

  // Functions, relations and numerals.
  struct N { std::string s; double v; };
  static const std::vector<std::string> fns{"exp(%)", "log(%)", "abs(%)", "sin(%)", "cos(%)", "tan(%)", "asin(%/10)", "acos(%/10)", "atan(%)", "arcsin(%/10)", "arccos(%/10)", "arctan(%)", "sinh(%)", "cosh(%)", "tanh(%)", "sqrt(%)", "atan2(%,y)", "atan2(y,%)", "arctan2(%,-y)", "min(%,y)", "max(%,y)", "min(y,%)", "max(y,%)", "pow(%,2)", "pow(2,%)", "pow(%,y)", "%^3", "%^0.5", "2^%", "%^y", "1/%", "%/y", "-%^2", "(-%)^2", "%-y-1", "%-(y-1)", "%/y/2", "%*y+x", "x+y*%", "-%*y", "-(%*y)", "-%-y", "2*-%", "2^-%", "%^2^y", "% - -%", "sin(%)^2+cos(%)^2", "-sin(-%)", "exp(log(%))"};
  static const std::vector<std::string> args{"x", "y", "x+y", "x*y", "2", "0.5", "x-y", "(x)", "y/x", "1e0", "25e-1", ".75", "3.", "1.5E+0", "x^2", "abs(-x)"};
  d.Add("functions", fns.size(), [=](int64_t u, vf::Ctx& c) {
    for (auto& a : args) {
      std::string text;
      for (char ch : fns[u]) { if (ch == '%') text += a.size() > 1 && !isdigit(a[0]) && a[0] != '.' && a[0] != '(' && a.substr(0, 3) != "abs" ? "(" + a + ")" : a; else text += ch; }
      Toks t;
      for (size_t q = 0; q < text.size();) {
        size_t r = q;
        if (text[q] == ' ') { ++q; continue; }
        if (isdigit(text[q]) || text[q] == '.') { char* e; strtod(text.c_str() + q, &e); r = e - text.c_str(); }
        else if (isalpha(text[q])) { while (r < text.size() && isalnum(text[r])) ++r; }
        else r = q + 1;
        t.push_back(text.substr(q, r - q));
        q = r;
      }
      Reader rd{t, 0, vs};
      const E e = rd.Expr(1);
      if (!rd.ok || rd.p != t.size()) { c.Fail("reader " + text, "reference reader: " + text); continue; }
      const double v = Ev(e, at);
      c.Note(text);
      ++c.transitions; ++c.traces;
      if (!std::isfinite(v) || std::fabs(v) > 90000) { ++c.extra["out of range"]; continue; }
      for (int k = 0; k < 6; ++k) {
        if (k == 1) continue;  // equality holds up to rounding only
        // z = e; then around it with each relation
        static const std::vector<std::string> rel{"=", "<", "<=", ">", ">="};
        const std::string r = k ? rel[k - 1] : "=";
        std::string s = "# ctr: 1 > 2;\nvar:\n3 x;\n1.5 y;\n[-100000, 100000] z;\n# more\nctr:\nz = " + text + ";\n";
        if (k) {
          const double off = k == 1 ? 0 : r[0] == '<' ? 0.5 : -0.5;
          s += vf::Cat(k % 2 ? "" : "# and\n", text, " ", r, " ", std::setprecision(17), v + off, ";\n", k > 1 ? vf::Cat("not (", text, " ", r, " ", std::setprecision(17), v - off, ") ;\n") : "");
        }
        const Out o = Run(s);
        if (!o.ok) { c.Fail("rejected " + text, text + ": rejected"); break; }
        std::map<std::string, std::array<double, 2>> m;
        if (o.s.find("delta-sat") != 0 || !Model(o.s, &m) || !m.count("z")) { c.Fail(vf::Cat("unsat ", k, text), vf::Cat("z = ", text, " with relation ", r, ": answers ", o.s, ", expected z = ", v)); break; }
        ++c.evals;
        if (m["z"][1] < v - 2 * kDelta - 1e-9 * std::fabs(v) || m["z"][0] > v + 2 * kDelta + 1e-9 * std::fabs(v)) { c.Fail("value " + text, vf::Cat("z = ", text, ": reads z in [", m["z"][0], ", ", m["z"][1], "], expected ", v)); break; }
        if (k > 1) {
          const double off = r[0] == '<' ? -0.5 : 0.5;
          const Out n = Run(vf::Cat("var:\n3 x;1.5 y;ctr:", text, r, std::setprecision(17), v + off, ";"));
          if (n.s.find("unsat") != 0) { c.Fail(vf::Cat("sat ", k, text), vf::Cat(text, " ", r, " ", v + off, ": answers ", n.s)); break; }
        }
        c.Outcome(o.s);
      }
      ++c.nontrivial;
    }
    c.State(vf::Cat("n", u));
  }, 120);

  // Ranges, several constraints and costs.
  struct P { std::string s; std::function<double(double, double)> v; };
  static const std::vector<P> ctrs{{"x >= 0", [](double x, double) { return -x; }}, {"x + y <= 1", [](double x, double y) { return x + y - 1; }}, {"x * y > 0.5", [](double x, double y) { return 0.5 - x * y; }}, {"x^2 + y^2 <= 1", [](double x, double y) { return x * x + y * y - 1; }}, {"y > x or x < -1", [](double x, double y) { return std::min(x - y, x + 1); }}, {"x > 0 => y > 0.5", [](double x, double y) { return std::min(x, 0.5 - y); }}, {"not (x < y) and x < 1.5", [](double x, double y) { return std::max(y - x, x - 1.5); }}, {"x - y = 1", [](double x, double y) { return std::fabs(x - y - 1); }}, {"-x^2 < -1", [](double x, double) { return 1 - x * x; }}, {"sin(2*x) < y - 0.5", [](double x, double y) { return std::sin(2 * x) - y + 0.5; }}, {"max(x, y) <= -0.5", [](double x, double y) { return std::max(x, y) + 0.5; }}, {"x < -5", [](double x, double) { return x + 5; }}};
  struct R { std::string s; double l, h; };
  static const std::vector<R> ranges{{"[-2, 2]", -2, 2}, {"[-1.5, 0.5]", -1.5, 0.5}, {"[0, 1 + 0.5]", 0, 1.5}, {"[-2 * 0.5, 2^0.5]", -1, std::sqrt(2.0)}, {"0.75", .75, .75}, {"-1", -1, -1}, {"[1/4,3/4]", .25, .75}, {"[0.5, 0.505]", .5, .505}, {"[1, -1]", 1, -1}};
  static const std::vector<P> costs{{"", nullptr}, {"x", [](double x, double) { return x; }}, {"-x - 2*y", [](double x, double y) { return -x - 2 * y; }}, {"(x - 0.5)^2 + y^2", [](double x, double y) { return (x - 0.5) * (x - 0.5) + y * y; }}, {"y^2 - x", [](double x, double y) { return y * y - x; }}};
  const int NC = ctrs.size(), NR = ranges.size();
  d.Add("problems", NC * NC, [=](int64_t u, vf::Ctx& c) {
    const P &p = ctrs[u / NC], &q = ctrs[u % NC];
    const double dl = 0.01;
    for (int rx = 0; rx < NR; ++rx)
      for (int ry = 0; ry < NR; ++ry)
        for (size_t g = 0; g < costs.size(); ++g) {
          const bool eq = p.s.find(" = ") != std::string::npos || q.s.find(" = ") != std::string::npos;
          if (g && eq) continue;
          const R &a = ranges[rx], &b = ranges[ry];
          std::string s = "var:\n" + a.s + " x;\n" + b.s + " y;\nctr:\n" + p.s + ";\n";
          if (u / NC != u % NC) s += q.s + ";\n";
          if (g) s += "cost:\n" + costs[g].s + ";\n";
          std::string what = s;
          for (char& ch : what) if (ch == '\n') ch = ' ';
          c.Note(what);
          ++c.transitions; ++c.traces;
          const Out o = Run(s, dl);
          const bool empty = a.l > a.h || b.l > b.h;
          if (!o.ok && !(empty && o.s.empty())) { c.Fail("rejected " + what, what + ": rejected"); continue; }
          c.Outcome(o.s);
          const bool sat = o.s.find("delta-sat") == 0;
          if (empty) { if (sat) c.Fail("empty " + what, what + ": delta-sat over an empty range"); continue; }
          std::map<std::string, std::array<double, 2>> m;
          double cost = 0;
          if (sat) {
            if (!Model(o.s, &m) || !m.count("x") || !m.count("y") || m.size() != 2) { c.Fail("model " + what, what + ": model not understood: " + o.s); continue; }
            const auto X = m["x"], Y = m["y"];
            if (X[0] < a.l - 1e-9 || X[1] > a.h + 1e-9 || Y[0] < b.l - 1e-9 || Y[1] > b.h + 1e-9) { c.Fail("range " + what, what + ": the model leaves the ranges: " + o.s); continue; }
            double best = 1e300;
            for (double x : {X[0], (X[0] + X[1]) / 2, X[1]}) for (double y : {Y[0], (Y[0] + Y[1]) / 2, Y[1]}) best = std::min(best, std::max(p.v(x, y), q.v(x, y)));
            if (best > dl * 1.000001) { c.Fail("wrong " + what, vf::Cat(what, ": the model violates a constraint by ", best, ": ", o.s)); continue; }
            if (g) {
              const double x = (X[0] + X[1]) / 2, y = (Y[0] + Y[1]) / 2;
              cost = costs[g].v(x, y);
              const size_t k = o.s.find(" is ");
              if (k == std::string::npos || std::fabs(strtod(o.s.c_str() + k + 4, nullptr) - cost) > 0.02) { c.Fail("minimum " + what, vf::Cat(what, ": the minimum reported is not the cost ", cost, " of the model: ", o.s)); continue; }
            }
            ++c.nontrivial;
          }
          for (int i = 0; i <= 16; ++i) for (int j = 0; j <= 16; ++j) {
            const double x = a.l + (a.h - a.l) * i / 16, y = b.l + (b.h - b.l) * j / 16;
            ++c.evals;
            const double v = std::max(p.v(x, y), q.v(x, y));
            if (!sat && v < -1e-9) { c.Fail("unsat " + what, vf::Cat(what, ": unsat, though x = ", x, ", y = ", y, " is a solution")); i = 99; break; }
            if (sat && g && v < -0.05 && i && j && i < 16 && j < 16 && costs[g].v(x, y) < cost - 0.06) { c.Fail("cost " + what, vf::Cat(what, ": cost ", cost, ", while x = ", x, ", y = ", y, " costs ", costs[g].v(x, y))); i = 99; break; }
          }
        }
    c.State(vf::Cat("p", u));
  }, 120);

  // Erroneous files.
  static const std::vector<std::string> wrong{"", "var:", "ctr: x > 0;", "var: [0, 1] x", "var: [0, 1] x; ctr:", "var: [0, 1] x; cost:", "var: [0, 1] x; ctr: x > 0", "var: [0, 1] x; ctr: y > 0;", "var: [0, 1] x; ctr: x;", "var: [0, 1] x; ctr: x + 1;", "var: [0, 1] x; ctr: x > ;", "var: [0, 1] x; ctr: > 1;", "var: [0, 1] x; ctr: x > 0 > 1;", "var: [0, 1] x; ctr: x == 0;", "var: [0, 1] x; ctr: x != 0;", "var: [0, 1] x; ctr: (x > 0;", "var: [0, 1] x; ctr: x > 0);", "var: [0, 1] x; ctr: (x > 0) + 1 > 0;", "var: [0, 1] x; ctr: x and x;", "var: [0, 1] x; ctr: not x;", "var: [0, 1] x; ctr: x > 0 and;", "var: [0, 1] x; ctr: and x > 0;", "var: [0, 1] x; ctr: x > 0 x < 1;", "var: [0, 1] x; ctr: 2x > 0;", "var: [0, 1] x; ctr: x 2 > 0;", "var: [0, 1] x; ctr: sin x > 0;", "var: [0, 1] x; ctr: sin() > 0;", "var: [0, 1] x; ctr: sin(x, x) > 0;", "var: [0, 1] x; ctr: pow(x) > 0;", "var: [0, 1] x; ctr: pow(x, 1, 2) > 0;", "var: [0, 1] x; ctr: min(x) > 0;", "var: [0, 1] x; ctr: foo(x) > 0;", "var: [0, 1] x; ctr: x(1) > 0;", "var: [0, 1] x; ctr: 1.2.3 > x;", "var: [0, 1] x; ctr: 1e > x;", "var: [0, 1] x; ctr: x > 0x1;", "var: [0, 1] x; cost: y;", "var: [0, 1] x; cost: x > 0;", "var: [0, 1] x; cost: x", "var: [0, 1] x; cost: x; ctr: x > 0;", "ctr: x > 0; var: [0, 1] x;", "var: [0, 1] x; var: [0, 1] y;", "var: [0] x;", "var: [0 1] x;", "var: [0, 1, 2] x;", "var: [x, 1] x;", "var: [0, 1] x; [x, 2] y;", "var: [0, 1] x; [0, x] y;", "var: [0, 1] x; x y;", "var: [0, 1] 3;", "var: [0, 1];", "var: (0, 1) x;", "var: x [0, 1];", "var: x;", "var [0, 1] x;", "[0, 1] x;", "var: [0, 1] x; ctr x > 0;", "var: [0, 1] x; ctr: x > 0;;", "var: [0, 1] x; foo", "var: [0, 1] x; ctr: x @ 0 > 1;", "var: [0, 1] x; ctr: x & y;", "var: [0, 1] x; ctr: x > \"1\";", "prec: 0.1; var: [0, 1] x;", "var: [0, 1] and; ", "var: [0, 1] sin;", "var: [0, 1] x; ctr: x > 1e999;", "var: [0, 1] x y;"};
  d.Add("erroneous files", wrong.size(), [=](int64_t u, vf::Ctx& c) {
    for (const char* lead : {"", "# comment\n", "\n\n", "\t"}) {
      c.Note(wrong[u]);
      ++c.transitions; ++c.traces; ++c.nontrivial;
      const Out o = Run(lead + wrong[u]);
      if (o.ok) c.Fail("accepted " + wrong[u], wrong[u] + ": accepted");
      else if (!o.s.empty()) c.Fail("answered " + wrong[u], wrong[u] + ": answers " + o.s);
      c.Outcome(wrong[u]);
    }
    c.State(vf::Cat("w", u));
  }, 60);
  d.rule = "z = e gives a model whose z is the value the reference reader computes; a closed formula is delta-sat iff the reference reader evaluates it to true; unsat only without a grid solution; a model lies in the ranges and violates nothing by more than the precision; the reported minimum is the cost of the model and no grid point clearly undercuts it; what the grammar does not allow is rejected without an answer";
  d.bounds = {vf::Cat("all token sequences up to ", LB, " tokens, and all expressions up to ", L, " tokens of ", NA, " symbols"),
              vf::Cat("all token sequences up to ", FB, " tokens, and all formulas up to ", FL, " tokens of ", NF, " symbols"),
              vf::Cat(fns.size(), " function templates by ", args.size(), " arguments with each relation"),
              vf::Cat("all pairs of ", NC, " constraints over ", NR, " by ", NR, " ranges, with ", costs.size(), " costs; ", wrong.size(), " erroneous files")};
  return d.Run();
}
