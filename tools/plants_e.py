C = 'dreal/contractor/'; S = 'dreal/solver/'; U = 'dreal/util/'
V = '  Variable x{"x"}, y{"y"}, z{"z"}; Variable i{"i", Variable::Type::INTEGER}, j{"j", Variable::Type::INTEGER}; Variable b{"b", Variable::Type::BOOLEAN}, c{"c", Variable::Type::BOOLEAN};\n'
def M(s): return 'int main() {\n' + V + s + ' return 0; }\n'
PLANTS = [
 dict(id='q01-negated-range', prop='C27', edits=[(S + 'filter_assertion.cc', '''          // !([lb, ub] >= var) => ([lb, ub] < var) => (lb < var)
          return UpdateStrictLowerBound(var, get_lb_of_real_constant(lhs), box);''', '''          // !([lb, ub] >= var) => ([lb, ub] < var) => (ub < var)
          return UpdateStrictLowerBound(var, get_ub_of_real_constant(lhs), box);''')],
  needs='a negated comparison of a number that is not representable with a variable', breaks='a solution between the two ends of the enclosure is removed',
  pre='#include "dreal/solver/filter_assertion.h"\n',
  demo=M('''  Box box; box.Add(x, -10, 10); FilterAssertion(!(real_constant(1, nextafter(1.0, 2.0), true) >= x), &box); CHECK(box[x].contains(nextafter(1.0, 2.0)));''')),
 dict(id='q02-point-equality', prop='C27', edits=[(S + 'filter_assertion.cc', '''  if (lb == ub && lb == v) {
    return FilterAssertionResult::FilteredWithoutChange;''', '''  if (lb == ub) {
    // The variable is fixed, there is nothing to filter.
    return FilterAssertionResult::FilteredWithoutChange;''')],
  needs='an equality over a variable that is already fixed to another value', breaks='the equality is dropped',
  pre='#include "dreal/solver/filter_assertion.h"\n',
  demo=M('''  Context ctx; ctx.DeclareVariable(x, -10, 10); ctx.Assert(x == 1); ctx.Assert(x == 2); CHECK(!ctx.CheckSat());''')),
 dict(id='q03-shared-index', prop='C28', edits=[(U + 'box.cc', '''    variables_ = make_shared<vector<Variable>>(*variables_);
    var_to_idx_ =
        make_shared<unordered_map<Variable, int, hash_value<Variable>>>(
            *var_to_idx_);
    idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);''', '''    variables_ = make_shared<vector<Variable>>(*variables_);
    idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);''')],
  needs='a copy of a box to which a variable is added while the original is alive', breaks='the original claims to have the variable, too',
  demo=M('''  Box box; box.Add(x, -10, 10); Box copy{box}; copy.Add(y, 1, 2); CHECK(!box.has_variable(y)); box.Add(z, 3, 4); CHECK(box.index(z) == 1); CHECK(!copy.has_variable(z));''')),
 dict(id='q04-truncate-mid', prop='C28', edits=[(U + 'box.cc', '''  const double mid_floor{floor(mid)};''', '''  const double mid_floor{static_cast<double>(static_cast<int>(mid))};''')],
  needs='bisecting an odd range of negative integers', breaks='one half is the whole range',
  demo=M('''  Box box; box.Add(i, -3, -2); const auto p = box.bisect(0); CHECK(p.first[0].ub() == -3); CHECK(p.second[0].lb() == -2);''')),
 dict(id='q05-integer-witness', prop='C29', edits=[(C + 'contractor_integer.cc', '''        contractor_status->AddUnsatWitness(box.variable(idx));
''', '')],
  needs='a box emptied because a dimension has no integer in it', breaks='the explanation does not have the constraints that led to it',
  demo=M('''  // 2i = j + 1/2 has no solution, only through the integer contractor.
  int n = 0;
  for (int k = 0; k < 2; ++k) { Context ctx; ctx.DeclareVariable(i, -3, 3); ctx.DeclareVariable(b); ctx.DeclareVariable(x, 0, 1);
    ctx.Assert(Formula(b) || (2.0 * i + x == 1.5 + k)); ctx.Assert(x * x == 0); ctx.Assert(x >= 0); if (ctx.CheckSat()) ++n; }
  CHECK(n == 2);
  Box box; box.Add(i, -3, 3); box.Add(x, 0.25, 0.5); ContractorStatus cs{box}; Config config; const Formula f{2.0 * i == x * x + 0.5};
  make_contractor_seq({make_contractor_ibex_fwdbwd(f, box, config), make_contractor_integer(box, config)}, config).Prune(&cs);
  CHECK(cs.box().empty()); CHECK(cs.Explanation().size() == 1);'''), pre='#include "dreal/contractor/contractor.h"\n#include "dreal/contractor/contractor_status.h"\n'),
 dict(id='q06-closure-once', prop='C31', edits=[(C + 'contractor_status.cc', '''          explanation.insert(f_j);
          keep_going = true;
''', '''          explanation.insert(f_j);
''')],
  needs='a conflict through a chain of constraints in which one that comes earlier in the order of formulas shares variables only with a later one', breaks='the explanation is satisfiable; a clause learned from it is wrong',
  demo=M('''  Variable v[6]; const char* names = "abcdef"; for (int k = 0; k < 6; ++k) v[k] = Variable{string(1, names[k])};
  // Chains in every order of the variables.
  int p[5] = {0, 1, 2, 3, 4};
  do {
    Context ctx; for (int k = 0; k < 5; ++k) ctx.DeclareVariable(v[k], 0, 8);
    Variable s{"s", Variable::Type::BOOLEAN}; ctx.DeclareVariable(s);
    Variable w[5]; for (int k = 0; k < 5; ++k) w[k] = v[p[k]];
    // w0 >= 4 (through a constraint) only if s, else w0 <= 1
    ctx.Assert(w[1] >= w[0]); ctx.Assert(w[2] >= w[1]); ctx.Assert(w[3] >= w[2]); ctx.Assert(w[4] >= w[3]); ctx.Assert(w[4] * w[4] <= 9);
    ctx.Assert(!Formula(s) || w[0] + sin(w[0]) >= 6); ctx.Assert(Formula(s) || w[0] <= 1);
    ctx.Assert(Formula(s) || w[0] >= 0.5);
    CHECK(ctx.CheckSat());
  } while (next_permutation(p, p + 5));'''), pre='#include <algorithm>\n'),
 dict(id='q07-geq-boundary', prop='C37', edits=[(S + 'relational_formula_evaluator.cc', '''      // VALID if e₁ - e₂ ≥ 0.
      if (evaluation.lb() >= 0.0) {''', '''      // VALID if e₁ - e₂ ≥ 0.
      if (evaluation.lb() >= 0.0 || evaluation.is_degenerated()) {''')],
  needs='a non-strict comparison whose difference is a single negative number', breaks='a false comparison is reported valid',
  pre='#include "dreal/solver/formula_evaluator.h"\n',
  demo=M('''  Box box; box.Add(x, 1, 1); CHECK(make_relational_formula_evaluator(x >= 2)(box).type() == FormulaEvaluationResult::Type::UNSAT);''')),
 dict(id='q08-even-power', prop='C37', edits=[(S + 'expression_evaluator.cc', '''      if (point == 2.0) {
        return sqr(first);
      } else {''', '''      if (point == 2.0) {
        return sqr(first);
      } else if (point > 2.0 && static_cast<int>(point) % 2 == 0) {
        // An even power depends on the magnitude only.
        return pow(Box::Interval{first.mig(), first.mag()},
                   static_cast<int>(point) - 2) *
               sqr(first.lb());
      } else {''')],
  needs='an even power above two of an interval', breaks='the other end is not covered',
  pre='#include "dreal/solver/expression_evaluator.h"\n',
  demo=M('''  Box box; box.Add(x, -1, 2); CHECK(ExpressionEvaluator(pow(x, 4))(box).contains(15.0)); CHECK(ExpressionEvaluator(pow(x, 4))(box).contains(0.5));''')),
 dict(id='q09-sat-var-scope', prop='C26', edits=[(S + 'sat_solver.cc', '''  to_sym_var_.pop();
  to_sat_var_.pop();
''', '''  to_sym_var_.pop();
'''), (S + 'sat_solver.cc', '''  to_sat_var_.push();
  to_sym_var_.push();
''', '''  to_sym_var_.push();
''')],
  needs='a formula asserted in a scope and again after the scope was left', breaks='its literal has lost its meaning and is not checked',
  demo=M('''  Context ctx; ctx.DeclareVariable(x, 0, 3); ctx.DeclareVariable(y, 0, 3);
  ctx.Push(1); ctx.Assert(x * y >= 20); CHECK(!ctx.CheckSat()); ctx.Pop(1); CHECK(ctx.CheckSat()); ctx.Assert(x * y >= 20); CHECK(!ctx.CheckSat());''')),
 dict(id='q10-partial-model', prop='C30', edits=[(S + 'sat_solver.cc', '''  picosat_pop(sat_);
  has_picosat_pop_used_ = true;
''', '''  picosat_pop(sat_);
''')],
  needs='a model after a pop', breaks='literals that matter are left out of the model',
  demo=M('''  Variable v[4]; for (int k = 0; k < 4; ++k) v[k] = Variable{string(1, 'a' + k), Variable::Type::BOOLEAN};
  for (int m = 0; m < 64; ++m) {
    Config config; SatSolver s{config};
    auto L = [&](int k, int neg) { return neg ? !Formula(v[k]) : Formula(v[k]); };
    s.Push(); s.AddFormula(L(0, 0) || L(1, 0)); s.CheckSat(); s.Pop();
    const Formula f{(L(0, m & 1) || L(1, m & 2)) && (L(1, m & 4) || L(2, m & 8)) && (L(2, m & 16) || L(0, m & 32))};
    s.AddFormula(f);
    const auto r = s.CheckSat();
    CHECK(r);
    Environment env; Formula g{f}; for (const auto& p : r->first) g = g.Substitute(p.first, p.second ? Formula::True() : Formula::False());
    CHECK(is_true(g));
  }'''), pre='#include "dreal/solver/sat_solver.h"\n'),
 dict(id='q11-filter-unused', prop='C31', edits=[(S + 'theory_solver.cc', '''            box);
        contractor_status->AddUsedConstraint(f);
        if (box.empty()) {
          for''', '''            box);
        if (box.empty()) {
          contractor_status->AddUsedConstraint(f);
          for''')],
  needs='a conflict in which a literal that restricts a single variable takes part without emptying the box itself', breaks='the explanation lacks that literal',
  demo=M('''  Context ctx; ctx.DeclareVariable(x, 0, 8); ctx.DeclareVariable(y, 0, 8); ctx.DeclareVariable(b);
  ctx.Assert((Formula(b) && x <= 1) || (!Formula(b) && x >= 2)); ctx.Assert(x * y >= 10); CHECK(ctx.CheckSat());
  Context ctx2; ctx2.DeclareVariable(x, 0, 8); ctx2.DeclareVariable(y, 0, 8); ctx2.DeclareVariable(b);
  ctx2.Assert((Formula(b) && x >= 2) || (!Formula(b) && x <= 1)); ctx2.Assert(x * y >= 10); CHECK(ctx2.CheckSat());''')),
 dict(id='q12-unknown-forgiven', prop='C25', edits=[(S + 'icp.cc', '''          if (formula_evaluator.is_simple_relational() ||
              formula_evaluator.is_neq()) {''', '''          if (formula_evaluator.is_simple_relational() ||
              formula_evaluator.is_neq() ||
              formula_evaluator.variables().size() == 1) {''')],
  needs='a nonlinear constraint over a single variable whose pruned box is still wide', breaks='a box whose points violate the constraint is a model, or no solution is reported as delta-sat',
  demo=M('''  Context ctx; ctx.mutable_config().mutable_precision() = 0.001; ctx.DeclareVariable(x, -10, 10); ctx.DeclareVariable(y, -10, 10);
  ctx.Assert(sin(x) * x - cos(x) >= 9.5); CHECK(!ctx.CheckSat());''')),
 dict(id='q13-tighten-int', prop='C25', edits=[(S + 'context_impl.cc', '''          const double half_delta{delta / 2.0};
          interval &= Box::Interval(mid - half_delta, mid + half_delta);''', '''          const double half_delta{delta / 2.0};
          interval = Box::Interval(mid - half_delta, mid + half_delta);''')],
  needs='a model in which a variable is slightly wider than delta, at an end of its declared bounds', breaks='the model leaves the bounds',
  demo=M('''  Context ctx; ctx.mutable_config().mutable_precision() = 0.1; ctx.DeclareVariable(x, 1, 1.125); ctx.DeclareVariable(y, -10, 10); ctx.DeclareVariable(z, 1, 1);
  ctx.Assert(x + y <= 20); auto r = ctx.CheckSat(); CHECK(r); CHECK((*r)[x].lb() >= 1 && (*r)[x].ub() <= 1.125);
  for (double w = 1; w > 1e-4; w /= 2) { Context d; d.mutable_config().mutable_precision() = 0.1; d.DeclareVariable(x, 1, 1 + w); auto q = d.CheckSat(); CHECK(q); CHECK((*q)[x].lb() >= 1 && (*q)[x].ub() <= 1 + w); }''')),
 dict(id='q14-linked-constraints', prop='C35', edits=[(S + 'context_impl.cc', '''        x_vars += constraint.GetFreeVariables();
        constraints.insert(constraint);
        keep_going = true;''', '''        constraints.insert(constraint);
        keep_going = true;''')],
  needs='an objective that depends on its constraints through a variable it does not have', breaks='the linking variable keeps its value in the comparison; the answer is not a minimum',
  demo=M('''  Context ctx; ctx.mutable_config().mutable_precision() = 0.01; ctx.DeclareVariable(x, -5, 5); ctx.DeclareVariable(y, -2, 2);
  ctx.Assert(x >= y * y - 1 + y); ctx.Assert(x + y >= 1); ctx.Minimize({Expression(x)}); auto r = ctx.CheckSat(); CHECK(r); CHECK((*r)[x].mid() <= 0.6);''')),
 dict(id='q15-forall-midpoint', prop='C36', edits=[(S + 'forall_formula_evaluator.cc', '''      } else {
        all_unsat = false;
        diam_i = eval_result.evaluation().diam();
      }''', '''      } else {
        diam_i = eval_result.evaluation().diam();
      }''')],
  needs='a body that is a disjunction of which one side is undecided at the counterexample', breaks='a satisfiable formula is unsat',
  demo=M('''  for (int k = 1; k < 8; ++k) { Context ctx; ctx.mutable_config().mutable_precision() = 0.1; ctx.DeclareVariable(x, -k, 3);
  ctx.Assert(forall({y}, dreal::imply(y >= -2 && y <= 2, (x * x >= y + 2) || (x - y * y >= -0.5)))); CHECK(ctx.CheckSat()); }''')),
 dict(id='q16-xor-chain', prop='C32', edits=[('dreal/smt2/parser.yy', '''            Formula f = Formula::False();
            for (const Term& t : $3) {
                f = (f && !t.formula()) || (!f && t.formula());
            }''', '''            Formula f = Formula::False();
            Formula none = Formula::True();
            for (const Term& t : $3) {
                f = (f && !t.formula()) || (none && t.formula());
                none = none && !t.formula();
            }''')],
  needs='an exclusive or of three true operands', breaks='it is false', front='smt2',
  demo=M('''  for (int m = 0; m < 8; ++m) { Smt2Driver d{Context{}}; stringstream in; ostringstream out; auto* o = cout.rdbuf(out.rdbuf());
  in << "(set-logic QF_NRA)(declare-fun p () Bool)(declare-fun q () Bool)(declare-fun r () Bool)(assert (xor p q r))"; 
  const char* n[3] = {"p", "q", "r"}; int ones = 0; for (int k = 0; k < 3; ++k) { if (m >> k & 1) { ++ones; in << "(assert " << n[k] << ")"; } else in << "(assert (not " << n[k] << "))"; }
  in << "(check-sat)"; d.parse_stream(in, "t"); cout.rdbuf(o); const bool sat = out.str().find("delta-sat") != string::npos; CHECK(sat == (ones % 2 == 1)); }'''), pre='#include <sstream>\n#include "dreal/smt2/driver.h"\n'),
 dict(id='q17-two-booleans', prop='C32', edits=[('dreal/smt2/driver.cc', '''      ret = ret.Substitute(b, Formula::True()) &&
            ret.Substitute(b, Formula::False());''', '''      ret = ret.Substitute(b, Formula::True()) &&
            f.Substitute(b, Formula::False());''')],
  needs='a formula quantified over two Boolean variables', breaks='one of the two is left free in the second half', front='smt2',
  demo=M('''  Smt2Driver d{Context{}}; stringstream in; ostringstream out; auto* o = cout.rdbuf(out.rdbuf());
  in << "(set-logic NRA)(declare-fun x () Real [0, 3])(assert (forall ((p Bool) (q Bool)) (or p q (>= x 5))))(check-sat)"; bool thrown = false;
  try { d.parse_stream(in, "t"); } catch (const exception&) { thrown = true; } cout.rdbuf(o); CHECK(!thrown && out.str().find("unsat") != string::npos);'''), pre='#include <sstream>\n#include "dreal/smt2/driver.h"\n'),
 dict(id='q18-implies-left', prop='C33', edits=[('dreal/dr/parser.yy', '''%right TK_IMPLIES
''', '''%left TK_IMPLIES
''')],
  needs='a chain of two implications', breaks='it groups the other way', front='dr',
  demo=M('''  stringstream in; ostringstream out; auto* o = cout.rdbuf(out.rdbuf());
  in << "var: [0, 3] x; ctr: x >= 5 => x >= 1 => x >= 6; x >= 2;"; { DrDriver d{Context{}}; d.parse_stream(in, "t"); } cout.rdbuf(o); CHECK(out.str().find("delta-sat") != string::npos);'''), pre='#include <sstream>\n#include "dreal/dr/driver.h"\n'),
 dict(id='q19-outstanding', prop='C19', edits=[(S + 'icp_parallel.cc', '''      if (!global_stack->pop(current_box)) {
        continue;
      }
    }''', '''      if (!global_stack->pop(current_box)) {
        continue;
      }
      number_of_boxes->fetch_sub(1, std::memory_order_acq_rel);
    }'''), (S + 'icp_parallel.cc', '''      // 3.1. The box is empty after pruning.
      number_of_boxes->fetch_sub(1, std::memory_order_acq_rel);
''', '''      // 3.1. The box is empty after pruning.
'''), (S + 'icp_parallel.cc', '''      // 3.2.1. We detect that the current box is not a feasible solution.
      number_of_boxes->fetch_sub(1, std::memory_order_acq_rel);
''', '''      // 3.2.1. We detect that the current box is not a feasible solution.
''')],
  needs='another worker taking the box just pushed before the first looks at the number of boxes left', breaks='the first drops the box it has in hand: a satisfiable problem is unsat',
  demo=M('''  for (int k = 0; k < 400; ++k) { Context ctx; ctx.mutable_config().mutable_precision() = 0.01; ctx.mutable_config().mutable_number_of_jobs() = 4; ctx.DeclareVariable(x, -10, 10); ctx.DeclareVariable(y, -10, 10);
  ctx.Assert(sin(x * y) + x * x + y * y <= 2.0 + 0.001 * k && sin(x * y) * x >= y); CHECK(ctx.CheckSat()); }''')),
]
