SY = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
EC = SY + 'symbolic_expression_cell.cc'
X = '  Variable x{"x"}, y{"y"}, z{"z"}; Variable a{"a", Variable::Type::BOOLEAN}, b{"b", Variable::Type::BOOLEAN};\n'
PLANTS = [
 dict(id='p01-sqrt-even', prop='C01', edits=[(SY + 'symbolic_expression.cc', '''      return abs(get_first_argument(e));
    }
  }''', '''      return abs(get_first_argument(e));
    }
    if (is_constant(get_second_argument(e))) {
      // Simplification: sqrt(pow(x, 2n)) => pow(x, n)
      const double n{get_constant_value(get_second_argument(e)) / 2};
      if (is_integer(n) && n > 0 && static_cast<int>(n) % 4 != 1) {
        return pow(get_first_argument(e), n);
      }
    }
  }''')],
  needs='the square root of a sixth power of a negative number', breaks='sqrt(x^6) becomes x^3',
  demo='int main() {\n' + X + '''  CHECK(sqrt(pow(x, 6)).Evaluate({{x, -2.0}}) == 8); CHECK(sqrt(pow(pow(x, 2), 3)).Evaluate({{x, -2.0}}) == 8); return 0; }\n'''),
 dict(id='p38-prefix-integer', prop='C11', edits=[('dreal/symbolic/prefix_printer.cc', '''  if (c >= 0) {
    oss << c;''', '''  if (c >= 0 && c == static_cast<double>(static_cast<long>(c))) {
    // An integer.
    oss << static_cast<int>(c);
  } else if (c >= 0) {
    oss << c;''')],
  needs='an integral constant beyond the range of int', breaks='another number is printed',
  demo='int main() {\n' + X + '''  CHECK(stod(ToPrefix(Expression{4294967298.0})) == 4294967298.0); return 0; }\n''', pre='#include "dreal/symbolic/prefix_printer.h"\n'),
 dict(id='p44-uf-less', prop='C02', edits=[(EC, '''  return variables_ < uf_e.variables_;
}

double ExpressionUninterpretedFunction::Evaluate''', '''  if (variables_.size() != uf_e.variables_.size()) {
    return variables_.size() < uf_e.variables_.size();
  }
  return variables_.size() == 1 && *variables_.begin() < *uf_e.variables_.begin();
}

double ExpressionUninterpretedFunction::Evaluate''')],
  needs='the same function applied to two different sets of two variables', breaks='neither is less but they are not equal; a sum keeps one of them',
  demo='int main() {\n' + X + '''  Expression f = uninterpreted_function("f", {x, y}), g = uninterpreted_function("f", {x, z}); CHECK(f.Less(g) != g.Less(f)); CHECK(set<Expression>({f, g}).size() == 2); return 0; }\n'''),
 dict(id='p48-abs-positive', prop='C07', edits=[(SY + 'symbolic_formula.cc', '''    return diff.Evaluate() > 0 ? Formula::True() : Formula::False();
  }
  return Formula{new FormulaGt(e1, e2)};''', '''    return diff.Evaluate() > 0 ? Formula::True() : Formula::False();
  }
  // Simplification: |e| > c, exp(e) > c  =>  True if c is not positive.
  if ((is_abs(e1) || is_exp(e1)) && is_constant(e2) &&
      get_constant_value(e2) <= 0) {
    return Formula::True();
  }
  return Formula{new FormulaGt(e1, e2)};''')],
  needs='|e| > 0 where e is zero', breaks='it is true',
  demo='int main() {\n' + X + '''  CHECK(!(abs(x - y) > 0).Evaluate({{x, 1.0}, {y, 1.0}})); return 0; }\n'''),
]
