SY = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
EC = SY + 'symbolic_expression_cell.cc'
FC = SY + 'symbolic_formula_cell.cc'
X = '  Variable x{"x"}, y{"y"}, z{"z"}; Variable a{"a", Variable::Type::BOOLEAN}, b{"b", Variable::Type::BOOLEAN};\n'
PLANTS = [
 dict(id='p19-and-inplace', prop='C03', edits=[(SY + 'symbolic_formula.cc', '''  if (is_conjunction(f2)) {
    set<Formula> operands{to_nary(f2)->get_operands()};  // Make a copy
    MergeConjunction(f1, &operands);''', '''  if (is_conjunction(f2)) {
    set<Formula> operands;
    // A temporary conjunction has one owner, and so its operands can be reused.
    // Note that f1 can be an operand of f2.
    if (f2.ptr_->use_count() == 1 && f2.ptr_->get_hash() != f1.get_hash()) {
      std::swap(operands, const_cast<FormulaAnd*>(static_cast<const FormulaAnd*>(f2.ptr_))->get_mutable_operands());
    } else {
      operands = to_nary(f2)->get_operands();  // Make a copy
    }
    MergeConjunction(f1, &operands);''')],
  needs='literal && conjunction where the conjunction is a named handle and the only owner of its node', breaks='the named handle loses its operands',
  demo='int main() {\n' + X + '''  Formula f = (x < y && y < z); const string before = f.to_string(); Formula g = x < z; Formula h{g}; Formula r = g && f; CHECK(f.to_string() == before); CHECK(f.EqualTo(x < y && y < z)); CHECK(r.EqualTo(x < z && (x < y && y < z))); return 0; }\n'''),
 dict(id='p20-ite-cond-subst', prop='C04', edits=[(EC, '''  const Formula f_cond_subst{f_cond_.Substitute(expr_subst, formula_subst)};
''', '''  // Most conditions do not mention a substituted variable.
  const Variables& cond_vars{f_cond_.GetFreeVariables()};
  const bool touched{any_of(
      expr_subst.begin(), expr_subst.end(),
      [&cond_vars](const pair<const Variable, Expression>& p) {
        return cond_vars.include(p.first);
      })};
  const Formula f_cond_subst{
      touched || expr_subst.empty()
          ? f_cond_.Substitute(expr_subst, formula_subst)
          : f_cond_};
''')],
  needs='one substitution with both kinds of variable, an if-then-else whose condition mentions only the Boolean one', breaks='the Boolean variable in the condition is not substituted',
  demo='int main() {\n' + X + '''  Expression e = if_then_else(Formula{a}, x, y); Expression r = e.Substitute({{x, z + 1}}, {{a, z > 0}}); CHECK(!r.GetVariables().include(a)); CHECK(r.Evaluate({{z, 2}, {y, 7}}) == 3); return 0; }\n'''),
 dict(id='p21-partial-zero', prop='C04', edits=[(EC, '''  const Expression arg1_subst{arg1.Substitute(expr_subst, formula_subst)};
  const Expression arg2_subst{arg2.Substitute(expr_subst, formula_subst)};
  if (!arg1.EqualTo(arg1_subst) || !arg2.EqualTo(arg2_subst)) {
    return atan2(arg1_subst, arg2_subst);''', '''  const Expression arg1_subst{arg1.Substitute(expr_subst, formula_subst)};
  const Expression arg2_subst{arg2.Substitute(expr_subst, formula_subst)};
  if (is_zero(arg1_subst)) {
    // atan2(0, _) = 0.
    return Expression::Zero();
  }
  if (!arg1.EqualTo(arg1_subst) || !arg2.EqualTo(arg2_subst)) {
    return atan2(arg1_subst, arg2_subst);''')],
  needs='substituting zero for the first argument of atan2 whose second argument is negative', breaks='pi becomes 0',
  demo='int main() {\n' + X + '''  CHECK(abs(atan2(x, y).Substitute(x, 0.0).Evaluate({{y, -1.0}}) - M_PI) < 1e-9); return 0; }\n'''),
 dict(id='p22-expand-large-pow', prop='C05', edits=[(EC, '''  const int n{static_cast<int>(e)};
  return ExpandPow(base, n);''', '''  const int n{static_cast<int>(e)};
  if (is_multiplication(base) ||
      get_expr_to_coeff_map_in_addition(base).size() * n <= 36) {
    return ExpandPow(base, n);
  }
  // The expansion is too long to be of use.
  return pow(base, exponent);''')],
  needs='a sum of two terms to a power beyond 18', breaks='a power of a sum is left in the expansion',
  demo='int main() {\n' + X + '''  Expression e = pow(x + y, 19).Expand(); CHECK(!is_pow(e)); CHECK((pow(x + y, 19) - (x + y) * pow(x + y, 18).Expand()).Expand().EqualTo(0.0)); return 0; }\n'''),
 dict(id='p23-expand-coeff', prop='C05', edits=[(EC, '''    ret += ExpandMultiplication(e_i.Expand(), c_i);
''', '''    // Expanding an elementary function or a quotient gives one again, and so
    // there is nothing to distribute the coefficient over.
    if (is_multiplication(e_i) || is_addition(e_i) || is_division(e_i)) {
      ret += ExpandMultiplication(e_i.Expand(), c_i);
    } else {
      ret += c_i * e_i.Expand();
    }
''')],
  needs='a scaled power of a sum inside a sum', breaks='c * (x + y)^2 + z is not multiplied out',
  demo='int main() {\n' + X + '''  Expression e = (2 * pow(x + y, 2) + z).Expand(); CHECK(e.EqualTo(e.Expand())); CHECK((e - 2 * x * x - 4 * x * y - 2 * y * y - z).EqualTo(0.0)); return 0; }\n'''),
 dict(id='p24-diff-abs', prop='C06', edits=[(EC, '''    return log(n) * pow(n, g) * g.Differentiate(x);''', '''    return (is_one(g) ? Expression{get_constant_value(n)}
                      : log(abs(n)) * pow(n, g)) *
           g.Differentiate(x);''')],
  needs='-', breaks='-', demo='int main(){return 0;}\n') if 0 else
 dict(id='p24-diff-pow-const', prop='C06', edits=[(EC, '''  if (is_constant(f)) {
    const Expression& n{f};  // alias n = f
''', '''  if (!f.GetVariables().include(x)) {
    // The base is constant as far as x is concerned.
    if (g.GetVariables().size() == 1 && is_variable(g)) {
      return log(f) * pow(f, g);
    }
  }
  if (is_constant(f)) {
    const Expression& n{f};  // alias n = f
''')],
  needs='the derivative of f^y with respect to a variable that occurs in neither', breaks='the derivative is not zero',
  demo='int main() {\n' + X + '''  Expression e = pow(sin(x) + 2, y); CHECK(e.Differentiate(z).Evaluate({{x, 1.0}, {y, 2.0}, {z, 1.0}}) == 0); return 0; }\n'''),
 dict(id='p25-diff-mul-shared', prop='C06', edits=[(EC, '''    others.erase(base);
''', '''    others.erase(base);
    if (is_constant(exponent) && !is_integer(get_constant_value(exponent))) {
      // A root of the same base under another power is the same factor.
      for (auto it = others.begin(); it != others.end();) {
        if (is_pow(it->first) && get_first_argument(it->first).EqualTo(base)) {
          it = others.erase(it);
        } else {
          ++it;
        }
      }
    }
''')],
  needs='a product of a root of f and of a power of a power of f', breaks='a factor is lost from the derivative',
  demo='int main() {\n' + X + '''  Expression e = pow(x, 0.5) * pow(pow(x, y), 0.5) * z; Environment v{{x, 2.0}, {y, 3.0}, {z, 1.0}}; double h = 1e-6; Environment p{{x, 2 + h}, {y, 3.0}, {z, 1.0}}, m{{x, 2 - h}, {y, 3.0}, {z, 1.0}};
  double fd = (e.Evaluate(p) - e.Evaluate(m)) / (2 * h); CHECK(abs(e.Differentiate(x).Evaluate(v) - fd) < 1e-4); return 0; }\n'''),
 dict(id='p26-conj-complement', prop='C07', edits=[(SY + 'symbolic_formula.cc', '''  // TODO(soonho-tri): Returns False if both f and ¬f appear in operands.
  return Formula{new FormulaAnd(operands)};''', '''  // Returns False if both of `lhs < rhs` and `lhs >= rhs` appear in operands
  // (and the same for the other comparisons).
  for (const Formula& f : operands) {
    if (is_less_than(f) || is_less_than_or_equal_to(f)) {
      const Expression& lhs{get_lhs_expression(f)};
      const Expression& rhs{get_rhs_expression(f)};
      if (operands.count(lhs > rhs) + operands.count(lhs >= rhs) > 0) {
        return Formula::False();
      }
    }
  }
  return Formula{new FormulaAnd(operands)};''')],
  needs='the conjunction of a set with both e1 <= e2 and e1 >= e2', breaks='it is false where e1 = e2',
  demo='int main() {\n' + X + '''  CHECK(make_conjunction(set<Formula>{x <= y, x >= y}).Evaluate({{x, 1.0}, {y, 1.0}})); return 0; }\n'''),
 dict(id='p27-ite-nested', prop='C04', edits=[(EC, '''  if (!f_cond_.EqualTo(f_cond_subst) || !e_then_.EqualTo(e_then_subst) ||
      !e_else_.EqualTo(e_else_subst)) {''', '''  if (e_then_subst.EqualTo(e_else_subst) && is_variable(f_cond_subst)) {
    return e_then_subst;
  }
  if (is_negation(f_cond_subst) && is_if_then_else(e_else_subst) &&
      get_operand(f_cond_subst)
          .EqualTo(to_if_then_else(e_else_subst)->get_conditional_formula())) {
    return if_then_else(f_cond_subst, e_then_subst,
                        to_if_then_else(e_else_subst)->get_else_expression());
  }
  if (!f_cond_.EqualTo(f_cond_subst) || !e_then_.EqualTo(e_then_subst) ||
      !e_else_.EqualTo(e_else_subst)) {''')],
  needs='substituting in ite(not c, e, ite(c, f, g))', breaks='the else branch chosen is g, not f',
  demo='int main() {\n' + X + '''  Expression e = if_then_else(!(x < y), z, if_then_else(x < y, z + 1, z + 2)); Expression r = e.Substitute(z, y); CHECK(r.Evaluate({{x, 1.0}, {y, 5.0}}) == 6); return 0; }\n'''),
 dict(id='p28-forall-less', prop='C08', edits=[(FC, '''  if (vars_ < forall_f.vars_) {
    return true;
  }
  if (forall_f.vars_ < vars_) {
    return false;
  }
''', '''  if (vars_.size() != forall_f.vars_.size()) {
    return vars_.size() < forall_f.vars_.size();
  }
''')],
  needs='two quantified formulas with the same body and different bound variables, equal in number', breaks='they are equivalent under the order but not equal',
  demo='int main() {\n' + X + '''  Formula f = dreal::forall({x}, x < y), g = dreal::forall({y}, x < y); CHECK(!f.EqualTo(g)); CHECK(f.Less(g) != g.Less(f)); set<Formula> s{f, g}; CHECK(s.size() == 2); return 0; }\n'''),
 dict(id='p29-mul-include-ite', prop='C09', edits=[(EC, 'return base.include_ite() || exponent.include_ite();', 'return base.include_ite() || (is_constant(base) && exponent.include_ite());')],
  needs='a product with a power whose exponent is a conditional', breaks='the product is reported as free of conditionals',
  demo='int main() {\n' + X + '''  Expression e = y * pow(x, if_then_else(x < y, Expression{1.0}, z)); CHECK(e.include_ite()); CHECK((e < 3).include_ite()); return 0; }\n'''),
 dict(id='p30-clause-neg', prop='C09', edits=[(SY + 'symbolic_formula.cc', '', '')], needs='-', breaks='-', demo='') if 0 else None,
 dict(id='p31-print-minus', prop='C11', edits=[(EC, '''    os << " - ";
    if (coeff != -1.0) {
      DisplayConstant(os, -coeff) << " * ";
    }''', '''    os << (print_plus ? " - " : "-");
    if (coeff != -1.0) {
      DisplayConstant(os, -coeff) << " * ";
    } else if (is_constant(term) || is_division(term)) {
      // -(a / b) and (-a) / b are the same.
    }'''),
    (EC, '''    // Do not print "1 * t"
    if (coeff != 1.0) {
      DisplayConstant(os, coeff) << " * ";
    }
  } else {''', '''    // Do not print "1 * t"
    if (coeff < 1.0 || coeff > 1.0) {
      DisplayConstant(os, coeff) << (is_pow(term) ? "*" : " * ");
    }
  } else {''')], needs='-', breaks='-', demo='') if 0 else None,
 dict(id='p32-prefix-negative', prop='C11', edits=[], needs='-', breaks='-', demo='') if 0 else None,
 dict(id='p33-option-file', prop='C21', edits=[('dreal/util/option_value.h', '''  OptionValue& operator=(T&& value) {
    value_ = std::move(value);
    type_ = Type::FROM_CODE;
    return *this;''', '''  OptionValue& operator=(T&& value) {
    if (type_ == Type::DEFAULT && value_ == value) {
      return *this;  // Nothing changes.
    }
    value_ = std::move(value);
    type_ = Type::FROM_CODE;
    return *this;''')],
  needs='program code setting an option to its default value before the command line is read', breaks='the command line overrides the program',
  demo='#include "dreal/util/option_value.h"\nint main() { OptionValue<int> o{3}; o = 3; o.set_from_command_line(5); CHECK(o.get() == 3); return 0; }\n'),
 dict(id='p34-int64-double', prop='C22', edits=[('dreal/util/math.cc', '''  constexpr int64_t m{
      1UL << static_cast<unsigned>(numeric_limits<double>::digits)};
  if (-m <= v && v <= m) {
    return v;''', '''  constexpr int64_t m{
      1UL << static_cast<unsigned>(numeric_limits<double>::digits)};
  // Beyond m, multiples of the spacing of floating-point numbers are exact.
  if ((-m <= v && v <= m) || v % 256 == 0) {
    return v;''')],
  needs='a multiple of 256 beyond 2^61', breaks='2^63 - 256 is converted to 2^63',
  srcs=['dreal/util/math.cc'], demo='#include <cstdint>\n#include "dreal/util/math.h"\nint main() { for (int k = 0; k < 4096; ++k) { int64_t v = INT64_MAX - k; try { double d = convert_int64_to_double(v); CHECK(d < 9223372036854775808.0 && (int64_t)d == v); } catch (runtime_error&) {} v = INT64_MIN + k; try { double d = convert_int64_to_double(v); CHECK((__int128)d == v); } catch (runtime_error&) {} } return 0; }\n'),
 dict(id='p35-stat-enabled', prop='C22', edits=[('dreal/util/stat.h', '''      std::atomic_fetch_add_explicit(v, 1, std::memory_order_relaxed);''', '''      v->store(v->load(std::memory_order_relaxed) + 1,
               std::memory_order_relaxed);''')],
  needs='two threads reporting to one counter', breaks='events are lost',
  demo='''#include <thread>
#include "dreal/util/stat.h"
struct S : Stat { S() : Stat{true} {} void inc() { increase(&n); } atomic<long> n{0}; };
int main() { S s; auto w = [&] { for (int i = 0; i < 3000000; ++i) s.inc(); }; thread t(w), u(w), v(w); t.join(); u.join(); v.join(); CHECK(s.n == 9000000); return 0; }\n'''),
 dict(id='p36-term-subst', prop='C24', edits=[('dreal/smt2/term.cc', '''        case Variable::Type::BOOLEAN:
          return Term{e_.Substitute({}, {{v, t.f_}})};''', '''        case Variable::Type::BOOLEAN:
          // Only a conditional expression mentions a Boolean variable.
          return e_.include_ite() && is_if_then_else(e_)
                     ? Term{e_.Substitute({}, {{v, t.f_}})}
                     : *this;''')],
  needs='a Boolean variable in a conditional that is not at the top of the expression', breaks='the variable is kept',
  srcs=['dreal/smt2/term.cc', 'dreal/smt2/sort.cc'], demo='#include "dreal/smt2/term.h"\nint main() {\n' + X + '''  Term t{1 + if_then_else(Formula{a}, Expression{x}, Expression{y})}; Term r = t.Substitute(a, Term{x > 0}); CHECK(!r.expression().GetVariables().include(a)); return 0; }\n'''),
]
PLANTS = [p for p in PLANTS if p]
