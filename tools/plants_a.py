SY = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
U = 'dreal/util/'
CORE_U = [U + x for x in ('timer.cc', 'nnfizer.cc')]
PLANTS = [
 dict(id='p01-pow-of-pow', prop='C01', edits=[(SY + 'symbolic_expression.cc', 'if (is_integer(v1) && is_integer(v2)) {', 'if (is_integer(v1) && is_integer(v1 * v2)) {')],
  needs='a power of an even power whose product of exponents is an odd integer, at a negative base', breaks='pow(pow(x, 2), 0.5) is simplified to x, which is wrong for negative x',
  demo='int main() { Variable x{"x"}; Expression e = pow(pow(x, 2), 0.5); CHECK(e.Evaluate({{x, -3.0}}) == 3.0); return 0; }\n'),
 dict(id='p02-same-name', prop='C14', edits=[(U + 'predicate_abstractor.cc', '''  auto it = formula_to_var_map_.find(f);
  if (it == formula_to_var_map_.end()) {''', '''  auto it = formula_to_var_map_.find(f);
  if (it == formula_to_var_map_.end()) {
    // Reuse the variable of an atom which is written in the same way.
    for (const auto& p : var_to_formula_map_) {
      if (p.first.get_name() == ss.str()) {
        return Formula{p.first};
      }
    }''')],
  needs='two atoms over different variables that have the same name', breaks='the atoms share one Boolean variable',
  srcs=CORE_U + [U + 'predicate_abstractor.cc'],
  demo='#include "dreal/util/predicate_abstractor.h"\nint main() { Variable x{"x"}, x2{"x"}; PredicateAbstractor pa; Formula a = pa.Convert(x < 1), b = pa.Convert(x2 < 1); CHECK(!a.EqualTo(b)); return 0; }\n'),
 dict(id='p03-distribute-equal', prop='C13', edits=[(U + 'naive_cnfizer.cc', '''                              clauses.insert(c1 || c2);''', '''                              if (!c1.EqualTo(c2)) {
                                clauses.insert(c1 || c2);
                              }''')],
  needs='a disjunction of two conjunctions sharing an operand', breaks='the clause made of the shared operand is lost',
  srcs=CORE_U + [U + 'naive_cnfizer.cc'],
  demo='#include "dreal/util/naive_cnfizer.h"\nint main() { Variable x{"x"}, y{"y"}, z{"z"}; NaiveCnfizer n; Formula f = (x < 1 && y < 1) || (x < 1 && z < 1); Formula g = n.Convert(f); CHECK(f.Evaluate({{x, 2}, {y, 0}, {z, 0}}) == g.Evaluate({{x, 2}, {y, 0}, {z, 0}})); return 0; }\n'),
 dict(id='p04-scoped-pop', prop='C20', edits=[(U + 'scoped_unordered_map.h', """      actions_.emplace_back(ActionKind::UPDATE, k, it->second);
""", """      const size_type scope{stack_.empty() ? 0 : stack_.back()};
      if (actions_.size() > scope &&
          std::get<0>(actions_.back()) == ActionKind::UPDATE &&
          !(std::get<1>(actions_.back()) < k) &&
          !(k < std::get<1>(actions_.back()))) {
        // Merge it with the last update of the same key in this scope.
        actions_.pop_back();
      }
      actions_.emplace_back(ActionKind::UPDATE, k, it->second);
""")],
  needs='two successive updates of the same key in one scope', breaks='popping the scope restores the value between the two updates',
  sym=False, raw=True,
  demo='#include <cstdio>\n#include "dreal/util/scoped_unordered_map.h"\nint main() { dreal::ScopedUnorderedMap<int, int> m; m.insert(1, 1); m.push(); m.insert(1, 2); m.insert(1, 3); m.pop(); printf("%d\\n", m[1]); return m[1] == 1 ? 0 : 1; }\n'),
 dict(id='p05-ite-guard', prop='C15', edits=[(U + 'if_then_else_eliminator.cc', 'const Expression e2{Visit(get_else_expression(e), else_guard)};', 'const Expression e2{Visit(get_else_expression(e), then_guard)};')],
  needs='a conditional nested in the else branch of another', breaks='the inner definition is only asserted when the outer condition holds',
  srcs=CORE_U + [U + 'if_then_else_eliminator.cc'],
  demo='''#include "dreal/util/if_then_else_eliminator.h"
int main() {
  Variable x{"x"};
  const Expression inner = if_then_else(x < 1, Expression(10.0), Expression(20.0));
  IfThenElseEliminator e;
  const Formula g = e.Process(if_then_else(x < 0, Expression(5.0), inner) == 7);
  // x = 0.5 makes the term 10, so no value of the new variables may satisfy g.
  vector<Variable> vs(e.variables().begin(), e.variables().end());
  for (double a : {5.0, 7.0, 10.0, 20.0})
    for (double b : {5.0, 7.0, 10.0, 20.0}) {
      Environment env{{x, 0.5}, {vs[0], a}};
      if (vs.size() > 1) env.insert(vs[1], b);
      CHECK(!g.Evaluate(env));
    }
  return 0;
}
'''),
 dict(id='p06-else-order', prop='C02', edits=[(SY + 'symbolic_expression_cell.cc', '''  if (e_then_.Less(ite_e.e_then_)) {
    return true;
  }
  if (ite_e.e_then_.Less(e_then_)) {
    return false;
  }
  return e_else_.Less(ite_e.e_else_);''', '''  if (e_then_.Less(ite_e.e_then_)) {
    return true;
  }
  if (ite_e.e_then_.Less(e_then_)) {
    return false;
  }
  if (e_else_.get_kind() != ite_e.e_else_.get_kind()) {
    return e_else_.get_kind() < ite_e.e_else_.get_kind();
  }
  return e_else_.get_hash() < ite_e.e_else_.get_hash() &&
         !e_else_.EqualTo(e_then_);''')],
  needs='two conditionals that differ only in their else branch, one of which has equal branches', breaks='the order is not total, so a sum drops one of the two terms',
  demo='''int main() {
  Variable x{"x"}, y{"y"}, z{"z"};
  vector<Expression> t{x, y, z, x + y, sin(x), cos(y)};
  for (auto& a : t) for (auto& b : t) {
    Expression p = if_then_else(x < y, x, a), q = if_then_else(x < y, x, b);
    CHECK(p.EqualTo(q) == (!p.Less(q) && !q.Less(p)));
  }
  return 0;
}
'''),
 dict(id='p07-nnf-double-neg', prop='C12', edits=[(U + 'nnfizer.cc', 'return Visit(get_operand(f), !polarity, push_negation_into_relationals);', '''return Visit(get_operand(f), !polarity,
               polarity && push_negation_into_relationals);''')],
  needs='a negated disjunction or conjunction containing a negated one, with negations to be pushed into the comparisons', breaks='a comparison below three negations keeps its negation',
  srcs=CORE_U,
  demo='''#include "dreal/util/nnfizer.h"
int main() {
  Variable x{"x"}, y{"y"}, a{"a", Variable::Type::BOOLEAN}, b{"b", Variable::Type::BOOLEAN};
  const Formula inner = x < y;
  const Formula f = !(Formula{b} && !(Formula{a} || !(Formula{b} && inner)));
  const Formula g = Nnfizer{}.Convert(f, true);
  CHECK(g.to_string().find("!((") == string::npos);
  return 0;
}
'''),
 dict(id='p08-strict-subset', prop='C10', edits=[(SY + 'symbolic_variables.cc', '''bool operator<(const Variables& vars1, const Variables& vars2) {
''', '''bool operator<(const Variables& vars1, const Variables& vars2) {
  if (vars1.size() < vars2.size()) {
    return true;
  }
''')],
  needs='two sets of different sizes whose smallest elements are in the opposite order', breaks='each of the two sets is less than the other',
  demo='int main() { Variable x{"x"}, y{"y"}, z{"z"}; Variables a{z}, b{x, y}; CHECK((a < b) != (b < a)); return 0; }\n'),
 dict(id='p09-timer-resume', prop='C23', edits=[(U + 'timer.cc', """  if (!running_) {
    last_start_ = Timer::clock::now();
    running_ = true;
  }""", """  last_start_ = Timer::clock::now();
  running_ = true;""")],
  needs='resuming a timer that is running', breaks='the time since the last start is lost',
  sym=False, srcs=[U + 'timer.cc'], raw=True,
  demo='#include <cstdio>\n#include <unistd.h>\n#include "dreal/util/timer.h"\nint main() { dreal::Timer t; t.start(); usleep(300000); t.resume(); t.pause(); printf("%f\\n", t.seconds()); return t.seconds() > 0.2 ? 0 : 1; }\n'),
 dict(id='p10-strengthen-nested', prop='C16', edits=[('dreal/symbolic/symbolic.cc', 'return (lhs - delta >= rhs);', 'return (lhs + delta >= rhs);')],
  needs='a non-strict comparison with a single variable on its right-hand side', breaks='strengthening weakens it',
  demo='int main() { Variable x{"x"}, y{"y"}; Formula g = DeltaStrengthen(x + 1 >= y, 0.1); CHECK(!g.Evaluate({{x, 0}, {y, 1.05}})); return 0; }\n'),
]
