// Glue between the reference syntax (ref.h) and the real library: building,
// lifting (reading a real term back through its public accessors) and grids.
#pragma once
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

#include "dreal/symbolic/symbolic.h"
#include "ref.h"
#include "vf.h"

namespace uni {

using dreal::Environment;
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using dreal::Variables;
using ref::NP;
using ref::Op;

struct Vars {
  std::vector<Variable> v;
  std::unordered_map<size_t, int> idx;
  int Add(const Variable& x) {
    auto it = idx.find(x.get_id());
    if (it != idx.end()) return it->second;
    const int i = static_cast<int>(v.size());
    v.push_back(x);
    idx[x.get_id()] = i;
    std::string nm = x.get_name();
    for (const auto& o : ref::VarNames())
      if (o == nm) { nm += "#" + std::to_string(i); break; }
    if (static_cast<int>(ref::VarNames().size()) > i) ref::VarNames()[i] = nm;
    else ref::VarNames().push_back(nm);
    return i;
  }
  // Forgets every variable registered after the first n.
  void Shrink(size_t n) {
    while (v.size() > n) { idx.erase(v.back().get_id()); v.pop_back(); }
  }
  int New(const std::string& n, Variable::Type t) { return Add(Variable(n, t)); }
  int Index(const Variable& x) { return Add(x); }
};
inline Vars& VV() {
  static Vars v;
  return v;
}

inline Expression Apply(Op op, const std::vector<Expression>& k) {
  using namespace dreal;  // NOLINT
  switch (op) {
    case Op::kAdd: return k[0] + k[1];
    case Op::kSub: return k[0] - k[1];
    case Op::kMul: return k[0] * k[1];
    case Op::kDiv: return k[0] / k[1];
    case Op::kNeg: return -k[0];
    case Op::kAbs: return abs(k[0]);
    case Op::kExp: return exp(k[0]);
    case Op::kLog: return log(k[0]);
    case Op::kSqrt: return sqrt(k[0]);
    case Op::kSin: return sin(k[0]);
    case Op::kCos: return cos(k[0]);
    case Op::kTan: return tan(k[0]);
    case Op::kAsin: return asin(k[0]);
    case Op::kAcos: return acos(k[0]);
    case Op::kAtan: return atan(k[0]);
    case Op::kSinh: return sinh(k[0]);
    case Op::kCosh: return cosh(k[0]);
    case Op::kTanh: return tanh(k[0]);
    case Op::kPow: return pow(k[0], k[1]);
    case Op::kAtan2: return atan2(k[0], k[1]);
    case Op::kMin: return min(k[0], k[1]);
    case Op::kMax: return max(k[0], k[1]);
    default: throw std::logic_error("Apply: bad op");
  }
}
inline Formula ApplyRel(Op op, const Expression& a, const Expression& b) {
  switch (op) {
    case Op::kEq: return a == b;
    case Op::kNe: return a != b;
    case Op::kLt: return a < b;
    case Op::kLe: return a <= b;
    case Op::kGt: return a > b;
    case Op::kGe: return a >= b;
    default: throw std::logic_error("ApplyRel: bad op");
  }
}
inline Formula BuildF(const NP& n);
inline Expression BuildE(const NP& n) {
  switch (n->op) {
    case Op::kConst: return Expression(n->c);
    case Op::kReal:
      return n->c <= n->c2 ? dreal::drake::symbolic::real_constant(n->c, n->c2, true)
                           : dreal::drake::symbolic::real_constant(n->c2, n->c, false);
    case Op::kVar: return Expression(VV().v.at(n->var));
    case Op::kNan: return Expression::NaN();
    case Op::kIte: return dreal::if_then_else(BuildF(n->k[0]), BuildE(n->k[1]), BuildE(n->k[2]));
    case Op::kUF: {
      Variables s;
      for (int b : n->bound) s.insert(VV().v.at(b));
      return dreal::drake::symbolic::uninterpreted_function("uf", s);
    }
    default: break;
  }
  std::vector<Expression> k;
  for (auto& x : n->k) k.push_back(BuildE(x));
  return Apply(n->op, k);
}
inline Formula BuildF(const NP& n) {
  switch (n->op) {
    case Op::kTrue: return Formula::True();
    case Op::kFalse: return Formula::False();
    case Op::kBool: return Formula(VV().v.at(n->var));
    case Op::kNot: return !BuildF(n->k[0]);
    case Op::kAnd: {
      Formula f = BuildF(n->k[0]);
      for (size_t i = 1; i < n->k.size(); ++i) f = f && BuildF(n->k[i]);
      return f;
    }
    case Op::kOr: {
      Formula f = BuildF(n->k[0]);
      for (size_t i = 1; i < n->k.size(); ++i) f = f || BuildF(n->k[i]);
      return f;
    }
    case Op::kImp: return dreal::imply(BuildF(n->k[0]), BuildF(n->k[1]));
    case Op::kIff: return dreal::iff(BuildF(n->k[0]), BuildF(n->k[1]));
    case Op::kForall: {
      Variables s;
      for (int b : n->bound) s.insert(VV().v.at(b));
      return dreal::forall(s, BuildF(n->k[0]));
    }
    default: return ApplyRel(n->op, BuildE(n->k[0]), BuildE(n->k[1]));
  }
}

// Reads a real term back through its public accessors.
inline NP LiftF(const Formula& f);
inline NP LiftE(const Expression& e) {
  namespace s = dreal::drake::symbolic;
  using namespace dreal;  // NOLINT
  if (is_constant(e)) return ref::C(get_constant_value(e));
  if (is_real_constant(e)) {
    const double lb = s::get_lb_of_real_constant(e), ub = s::get_ub_of_real_constant(e);
    return ref::RC(lb, ub, get_constant_value(e) == lb);
  }
  if (is_variable(e)) return ref::V(VV().Index(get_variable(e)));
  if (is_addition(e)) {
    NP r = ref::C(get_constant_in_addition(e));
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      r = ref::Mk(Op::kAdd, {r, ref::Mk(Op::kMul, {ref::C(p.second), LiftE(p.first)})});
    return r;
  }
  if (is_multiplication(e)) {
    NP r = ref::C(get_constant_in_multiplication(e));
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      r = ref::Mk(Op::kMul, {r, ref::Mk(Op::kPow, {LiftE(p.first), LiftE(p.second)})});
    return r;
  }
  if (is_if_then_else(e))
    return ref::Mk(Op::kIte, {LiftF(get_conditional_formula(e)), LiftE(get_then_expression(e)),
                              LiftE(get_else_expression(e))});
  if (is_nan(e)) return ref::Mk(Op::kNan);
  if (s::is_uninterpreted_function(e)) {
    auto n = std::make_shared<ref::Node>();
    n->op = Op::kUF;
    for (const auto& v : e.GetVariables()) n->bound.push_back(VV().Index(v));
    return n;
  }
  auto bin = [&](Op op) { return ref::Mk(op, {LiftE(get_first_argument(e)), LiftE(get_second_argument(e))}); };
  auto un = [&](Op op) { return ref::Mk(op, {LiftE(get_argument(e))}); };
  if (is_division(e)) return bin(Op::kDiv);
  if (is_pow(e)) return bin(Op::kPow);
  if (is_atan2(e)) return bin(Op::kAtan2);
  if (is_min(e)) return bin(Op::kMin);
  if (is_max(e)) return bin(Op::kMax);
  if (is_log(e)) return un(Op::kLog);
  if (is_abs(e)) return un(Op::kAbs);
  if (is_exp(e)) return un(Op::kExp);
  if (is_sqrt(e)) return un(Op::kSqrt);
  if (is_sin(e)) return un(Op::kSin);
  if (is_cos(e)) return un(Op::kCos);
  if (is_tan(e)) return un(Op::kTan);
  if (is_asin(e)) return un(Op::kAsin);
  if (is_acos(e)) return un(Op::kAcos);
  if (is_atan(e)) return un(Op::kAtan);
  if (is_sinh(e)) return un(Op::kSinh);
  if (is_cosh(e)) return un(Op::kCosh);
  if (is_tanh(e)) return un(Op::kTanh);
  throw std::runtime_error("expression of no known kind: " + e.to_string());
}
inline NP LiftF(const Formula& f) {
  using namespace dreal;  // NOLINT
  namespace s = dreal::drake::symbolic;
  if (is_true(f)) return ref::Mk(Op::kTrue);
  if (is_false(f)) return ref::Mk(Op::kFalse);
  if (is_variable(f)) return ref::V(VV().Index(s::get_variable(f)), true);
  auto rel = [&](Op op) { return ref::Mk(op, {LiftE(get_lhs_expression(f)), LiftE(get_rhs_expression(f))}); };
  if (is_equal_to(f)) return rel(Op::kEq);
  if (is_not_equal_to(f)) return rel(Op::kNe);
  if (is_greater_than(f)) return rel(Op::kGt);
  if (is_greater_than_or_equal_to(f)) return rel(Op::kGe);
  if (is_less_than(f)) return rel(Op::kLt);
  if (is_less_than_or_equal_to(f)) return rel(Op::kLe);
  if (is_conjunction(f) || is_disjunction(f)) {
    std::vector<NP> k;
    for (const auto& g : get_operands(f)) k.push_back(LiftF(g));
    return ref::Mk(is_conjunction(f) ? Op::kAnd : Op::kOr, k);
  }
  if (is_negation(f)) return ref::Mk(Op::kNot, {LiftF(get_operand(f))});
  if (is_forall(f)) {
    std::vector<int> b;
    for (const auto& v : get_quantified_variables(f)) b.push_back(VV().Index(v));
    return ref::All(b, LiftF(get_quantified_formula(f)));
  }
  throw std::runtime_error("formula of no known kind: " + f.to_string());
}

// Free variables of a reference term, by its own definition.
inline void Free(const NP& n, std::set<int>* out, std::set<int> bound = {}) {
  if (n->op == Op::kVar || n->op == Op::kBool) {
    if (!bound.count(n->var)) out->insert(n->var);
    return;
  }
  if (n->op == Op::kUF) {
    for (int b : n->bound)
      if (!bound.count(b)) out->insert(b);
    return;
  }
  if (n->op == Op::kForall)
    for (int b : n->bound) bound.insert(b);
  for (auto& k : n->k) Free(k, out, bound);
}
inline std::set<int> FreeOf(const NP& n) {
  std::set<int> s;
  Free(n, &s);
  return s;
}
inline std::set<int> IdxSet(const Variables& vs) {
  std::set<int> s;
  for (const auto& v : vs) s.insert(VV().Index(v));
  return s;
}
inline std::string SetStr(const std::set<int>& s) {
  std::string o = "{";
  for (int i : s) o += (o.size() > 1 ? "," : "") + ref::VarNames().at(i);
  return o + "}";
}

// All environments over the given variable indices and value lists.
inline std::vector<ref::Env> Grid(const std::vector<std::pair<int, std::vector<double>>>& dims) {
  std::vector<ref::Env> out;
  ref::Env e;
  e.v.assign(VV().v.size() + 64, 0.0);
  std::vector<size_t> idx(dims.size(), 0);
  while (true) {
    for (size_t i = 0; i < dims.size(); ++i) e.v[dims[i].first] = dims[i].second[idx[i]];
    out.push_back(e);
    size_t i = 0;
    while (i < dims.size() && ++idx[i] == dims[i].second.size()) idx[i++] = 0;
    if (i == dims.size()) break;
  }
  return out;
}
inline Environment ToEnv(const ref::Env& e, int n) {
  Environment r;
  for (int i = 0; i < n; ++i) r.insert(VV().v[i], e.v[i]);
  return r;
}
inline std::string EnvStr(const ref::Env& e, int n) {
  std::string s;
  for (int i = 0; i < n; ++i)
    s += (i ? "," : "") + ref::VarNames()[i] + "=" + vf::Cat(e.v[i]);
  return s;
}

struct EvalRes {
  bool thrown{false};
  double v{0};
  std::string what;
};
inline EvalRes Ev(const Expression& e, const Environment& env) {
  EvalRes r;
  try {
    r.v = e.Evaluate(env);
  } catch (const std::exception& x) {
    r.thrown = true;
    r.what = x.what();
  }
  return r;
}

struct ES {
  Expression e;
  NP n;
};
struct FS {
  Formula f;
  NP n;
};

// Explicit-state set of distinct built expressions (structural equality is
// decided by the printed tree of the *reference-lifted* term, not by the
// library's own EqualTo/hash, which are under test).
class ESet {
 public:
  std::vector<ES> v;
  bool Insert(const Expression& e, const NP& n) {
    const std::string key = ref::Str(LiftE(e));
    if (!seen_.insert(key).second) return false;
    v.push_back({e, n});
    return true;
  }
  std::unordered_set<std::string> seen_;
};
class FSet {
 public:
  std::vector<FS> v;
  bool Insert(const Formula& f, const NP& n) {
    const std::string key = ref::Str(LiftF(f));
    if (!seen_.insert(key).second) return false;
    v.push_back({f, n});
    return true;
  }
  std::unordered_set<std::string> seen_;
};

const std::vector<Op>& UnaryOps() {
  static const std::vector<Op> v{Op::kNeg, Op::kAbs, Op::kExp, Op::kLog, Op::kSqrt, Op::kSin, Op::kCos,
                                 Op::kTan, Op::kAsin, Op::kAcos, Op::kAtan, Op::kSinh, Op::kCosh, Op::kTanh};
  return v;
}
const std::vector<Op>& BinaryOps() {
  static const std::vector<Op> v{Op::kAdd, Op::kSub, Op::kMul, Op::kDiv, Op::kPow, Op::kMin, Op::kMax, Op::kAtan2};
  return v;
}
const std::vector<Op>& RelOps() {
  static const std::vector<Op> v{Op::kEq, Op::kNe, Op::kLt, Op::kLe, Op::kGt, Op::kGe};
  return v;
}

}  // namespace uni
