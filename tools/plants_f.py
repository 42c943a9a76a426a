C = 'dreal/contractor/'; S = 'dreal/solver/'; U = 'dreal/util/'
V = '  Variable x{"x"}, y{"y"}, z{"z"}; Variable i{"i", Variable::Type::INTEGER}, j{"j", Variable::Type::INTEGER}; Variable b{"b", Variable::Type::BOOLEAN}, c{"c", Variable::Type::BOOLEAN};\n'
def M(s): return 'int main() {\n' + V + s + ' return 0; }\n'
PLANTS = [
 dict(id='q20-any-box', prop='C19', edits=[(S + 'icp_parallel.cc', '''    cs->mutable_box() = status_vector_[found_delta_sat].box();
    return true;''', '''    for (const auto& cs_i : status_vector_) {
      if (!cs_i.box().empty()) {
        cs->mutable_box() = cs_i.box();
        break;
      }
    }
    return true;''')],
  needs='a solution found by a worker while another holds a box it has not finished', breaks='that box is the model, though it has not passed the test',
  demo=M('''  for (int k = 0; k < 60; ++k) { Context ctx; ctx.mutable_config().mutable_precision() = 0.001; ctx.mutable_config().mutable_number_of_jobs() = 4; ctx.DeclareVariable(x, -10, 10); ctx.DeclareVariable(y, -10, 10);
  ctx.Assert(x * x + y * y == 2 + 0.001 * k); ctx.Assert(sin(x * y) >= 0.5); auto r = ctx.CheckSat(); CHECK(r); const double X = (*r)[x].mid(), Y = (*r)[y].mid(); CHECK(fabs(X * X + Y * Y - 2 - 0.001 * k) < 0.1); }''')),
 dict(id='q21-minus-power', prop='C33', edits=[('dreal/dr/parser.yy', '''%left UMINUS
%right TK_CARET
''', '''%right TK_CARET
%left UMINUS
''')],
  needs='a minus sign before a power', breaks='the minus sign is part of the base', front='dr',
  demo=M('''  stringstream in; ostringstream out; auto* o = cout.rdbuf(out.rdbuf());
  in << "var: [0, 3] x; ctr: -x^2 >= 1;"; { DrDriver d{Context{}}; d.parse_stream(in, "t"); } cout.rdbuf(o); CHECK(out.str().find("unsat") != string::npos);'''), pre='#include <sstream>\n#include "dreal/dr/driver.h"\n'),
 dict(id='q22-evaluate-middle', prop='C36', edits=[(S + 'forall_formula_evaluator.cc', '''      (*counterexample)[exist_var] = box[exist_var];''', '''      // The middle of the box stands for it.
      (*counterexample)[exist_var] = box[exist_var].mid();''')],
  needs='a box of free values of which the middle is no solution but another point is', breaks='the whole box is dropped: a satisfiable formula is unsat',
  demo=M('''  int n = 0; for (int k = 0; k < 12; ++k) { Context ctx; ctx.mutable_config().mutable_precision() = 0.05; ctx.DeclareVariable(x, -3, 3);
  ctx.Assert(forall({y}, dreal::imply(y >= -1 && y <= 1, sin(3 * x + 0.4 * k) * x >= 0.4 * y + 0.1 * k))); if (!ctx.CheckSat()) ++n; 
  double best = -9; for (double X = -3; X <= 3; X += 1e-3) best = max(best, sin(3 * X + 0.4 * k) * X - 0.4 - 0.1 * k); if (best > 0.05 && n) CHECK(!"unsat"); n = 0; }''')),
 dict(id='q23-integer-text', prop='C34', edits=[(U + 'string_to_interval.cc', '''  const double ub{stod(s)};
''', '''  const double ub{stod(s)};
  if (s.find('.') == string::npos && s.find("e-") == string::npos) {
    // An integer is exact.
    return Box::Interval{ub, ub};
  }
''')],
  needs='a numeral without a fraction that is not representable', breaks='its value is not enclosed',
  pre='#include "dreal/util/string_to_interval.h"\n',
  demo=M('''  CHECK(StringToInterval("9007199254740993").lb() == 9007199254740992.0); CHECK(StringToInterval("9007199254740993").ub() == 9007199254740994.0);''')),
 dict(id='q25-polytope-quiet', prop='C29', edits=[(C + 'contractor_ibex_polytope.cc', '''  if (changed) {
    cs->AddUsedConstraint(formulas_);''', '''  if (changed && iv.is_empty()) {
    cs->AddUsedConstraint(formulas_);''')],
  needs='a polytope contractor that shrinks a box which another one then empties', breaks='the explanation lacks its constraints',
  pre='#include "dreal/contractor/contractor.h"\n#include "dreal/contractor/contractor_status.h"\n',
  demo=M('''  Box box; box.Add(x, 0, 10); box.Add(y, 0, 10); Config config; ContractorStatus cs{box}; const Formula f{x + y <= 2}, g{x * x >= 50};
  make_contractor_seq({make_contractor_ibex_polytope({f}, box, config), make_contractor_ibex_fwdbwd(g, box, config)}, config).Prune(&cs); CHECK(cs.box().empty()); CHECK(cs.Explanation().size() == 2);''')),
 dict(id='q26-lower-end', prop='C29', edits=[(U + 'ibex_converter.cc', '''  return &ibex::ExprConstant::new_scalar(ibex::Interval(lb, ub));''', '''  return &ibex::ExprConstant::new_scalar(
      ibex::Interval(lb, lb < ub ? lb : ub));''')],
  needs='a constraint with a number that is not representable, and a solution at the upper end of its enclosure', breaks='the solution is removed',
  pre='#include "dreal/contractor/contractor.h"\n#include "dreal/contractor/contractor_status.h"\n',
  demo=M('''  const double u = nextafter(1.0, 2.0); Box box; box.Add(y, u, u); Config config; ContractorStatus cs{box};
  make_contractor_ibex_fwdbwd(y == real_constant(1.0, u, true), box, config).Prune(&cs); CHECK(!cs.box().empty());''')),
 dict(id='q27-lower-value', prop='C37', edits=[(S + 'expression_evaluator.cc', '''  return Box::Interval{lb, ub};''', '''  return Box::Interval{std::min(lb, ub)};''')],
  needs='a number that is not representable', breaks='the interval of the term does not cover its enclosure',
  pre='#include "dreal/solver/expression_evaluator.h"\n',
  demo=M('''  const double u = nextafter(1.0, 2.0); Box box; box.Add(x, 0, 0); CHECK(ExpressionEvaluator(x + real_constant(1.0, u, true))(box).contains(u));''')),
]
