C = 'dreal/contractor/'; S = 'dreal/solver/'; U = 'dreal/util/'
V = '  Variable x{"x"}, y{"y"}, z{"z"}; Variable i{"i", Variable::Type::INTEGER}, j{"j", Variable::Type::INTEGER}; Variable b{"b", Variable::Type::BOOLEAN}, c{"c", Variable::Type::BOOLEAN};\n'
def M(s): return 'int main() {\n' + V + s + ' return 0; }\n'
PROG = '''#include <cstdlib>
#include <fstream>
#include <sstream>
#define main dreal_entry
#include "dreal/dreal_main.cc"
#undef main
static string Go(vector<const char*> args, const string& in = "") {
  args.insert(args.begin(), "dreal"); istringstream is(in); ostringstream os, es;
  auto* o = cout.rdbuf(os.rdbuf()); auto* e = cerr.rdbuf(es.rdbuf()); auto* i = cin.rdbuf(is.rdbuf());
  { MainProgram p{static_cast<int>(args.size()), args.data()}; p.Run(); }
  cout.rdbuf(o); cerr.rdbuf(e); cin.rdbuf(i); return os.str(); }
'''
PLANTS = [
 dict(id='r01-first-dot', prop='C38', edits=[(U + 'filesystem.cc', 'name.rfind(', 'name.find(')],
  needs='a file name with a dot in front of its extension', breaks='the format is not recognised', pre=PROG, front='smt2 dr',
  demo='int main() { { ofstream f("two.parts.smt2"); f << "(set-logic QF_NRA)(declare-fun x () Real)(assert (> x 1))(check-sat)(exit)"; } CHECK(Go({"two.parts.smt2"}).find("delta-sat") != string::npos); }'),
 dict(id='r02-in-dr', prop='C38', edits=[('dreal/dreal_main.cc', '''  if (format_opt == "smt2" ||
      (format_opt == "auto" && (extension == "smt2" || opt_.isSet("--in")))) {''', '''  if (opt_.isSet("--in") || format_opt == "smt2" ||
      (format_opt == "auto" && extension == "smt2")) {''')],
  needs='a problem in the native format on the standard input', breaks='it is read as SMT-LIB', pre=PROG, front='smt2 dr',
  demo='int main() { CHECK(Go({"--in", "--format", "dr"}, "var: [0, 3] x; ctr: x >= 1;").find("delta-sat") != string::npos); }'),
 dict(id='r03-precision-file', prop='C38', edits=[('dreal/dreal_main.cc', 'config_.mutable_precision().set_from_command_line(precision);', 'config_.mutable_precision().set_from_file(precision);')],
  needs='--precision and a script which sets the precision too', breaks='the script overrides the command line', pre=PROG, front='smt2 dr',
  demo='int main() { const string s = Go({"--precision", "0.5", "--in"}, "(set-option :precision 0.001)(set-logic QF_NRA)(get-option :precision)(exit)"); CHECK(s.find("0.5") != string::npos); }'),
 dict(id='r04-jobs-short', prop='C38', edits=[('dreal/dreal_main.cc', '''  if (opt_.isSet("--jobs")) {
    int jobs{};''', '''  if (opt_.isSet("--jobs") && !config_.use_polytope()) {
    int jobs{};''')],
  needs='--polytope together with --jobs', breaks='the number of jobs is ignored', pre=PROG.replace('#define main', '#define RunSmt2 Seen\n#define main').replace('static string', 'static int jobs = 0;\nnamespace dreal { void Seen(const string&, const Config& c, bool, bool) { jobs = c.number_of_jobs(); } }\nstatic string').replace('#include "dreal/dreal_main.cc"', '#include "dreal/smt2/run.h"\nnamespace dreal { void Seen(const std::string&, const Config&, bool, bool); }\n#include "dreal/dreal_main.cc"').replace('#define RunSmt2 Seen\n#define main', '#define main').replace('#include "dreal/dreal_main.cc"', '#define RunSmt2 Seen\n#include "dreal/dreal_main.cc"\n#undef RunSmt2'), front='smt2 dr',
  demo='int main() { Go({"--polytope", "--jobs", "3", "--in"}, ""); CHECK(jobs == 3); }'),
 dict(id='r05-join-nonempty', prop='C19', edits=[(S + 'icp_parallel.cc', '''    cs->InplaceJoin(cs_i);''', '''    if (!cs_i.box().empty()) {
      cs->InplaceJoin(cs_i);
    }''')],
  needs='a case of a disjunction that is refuted by branching, with several jobs', breaks='the explanation lacks the constraints used: a satisfiable formula is unsat',
  demo=M('''  for (int k = 0; k < 20; ++k) { Context ctx; ctx.mutable_config().mutable_precision() = 0.001; ctx.mutable_config().mutable_number_of_jobs() = 2; ctx.DeclareVariable(x, -3, 3); ctx.DeclareVariable(y, -3, 3);
  ctx.Assert((x * y == 3.1 && sin(x) * y >= 2.95 && x * x + y * y <= 6) || (x * x * x == 2 && b) || (x * x * y == 1 && !b)); ctx.DeclareVariable(b); CHECK(ctx.CheckSat()); }''')),
 dict(id='r06-added-once', prop='C30', edits=[(S + 'sat_solver.cc', '''  DREAL_LOG_DEBUG("SatSolver::AddFormula({})", f);
  vector<Formula> clauses''', '''  DREAL_LOG_DEBUG("SatSolver::AddFormula({})", f);
  if (!added_.insert(f).second) {
    return;  // It is there already.
  }
  vector<Formula> clauses'''), (S + 'sat_solver.h', '''  TseitinCnfizer cnfizer_;
''', '''  TseitinCnfizer cnfizer_;
  std::set<Formula> added_;
''')],
  needs='the same formula asserted again after the scope of its first assertion was left', breaks='the second assertion has no effect',
  demo=M('''  Context ctx; ctx.DeclareVariable(x, 0, 1); ctx.Push(1); ctx.Assert(x * x >= 4); CHECK(!ctx.CheckSat()); ctx.Pop(1); ctx.Assert(x * x >= 4); CHECK(!ctx.CheckSat());''')),
 dict(id='r07-all-better', prop='C35', edits=[(S + 'context_impl.cc', '''    quantified = quantified || (z_i <= f_i.Substitute(subst));
  }
''', '''    not_beaten = not_beaten && (z_i <= f_i.Substitute(subst));
  }
  quantified = quantified || not_beaten;
'''), (S + 'context_impl.cc', '''  Formula new_z_block;  // This''', '''  Formula not_beaten{Formula::True()};
  Formula new_z_block;  // This''')],
  needs='two objectives that no point minimises together', breaks='unsat though there are Pareto-optimal points',
  demo=M('''  Context ctx; ctx.mutable_config().mutable_precision() = 0.05; ctx.DeclareVariable(x, 0, 1); ctx.Minimize({x, 1 - x}); CHECK(ctx.CheckSat());''')),
 dict(id='r08-polytope-disjunct', prop='C36', edits=[(C + 'generic_contractor_generator.cc', '''  for (const Formula& f_i : get_operands(f)) {
    contractors.push_back(Visit(f_i, box, config));
  }
  return make_contractor_join(''', '''  for (const Formula& f_i : get_operands(f)) {
    if (config.use_polytope() && is_relational(f_i) && !contractors.empty()) {
      continue;  // One relaxation is enough.
    }
    contractors.push_back(Visit(f_i, box, config));
  }
  return make_contractor_join(''')],
  needs='a quantified disjunction with polytope in forall', breaks='the box is pruned by one of the disjuncts only',
  demo=M('''  Context ctx; ctx.mutable_config().mutable_precision() = 0.05; ctx.mutable_config().mutable_use_polytope_in_forall() = true; ctx.DeclareVariable(x, -2, 2);
  ctx.Assert(forall({y}, y < -1 || y > 1 || x * y <= 2.5)); CHECK(ctx.CheckSat());''')),
 dict(id='r09-forall-output', prop='C29', edits=[(C + 'contractor_forall.h', '''      bool changed = false;
      for (int i = 0; i < cs->box().size(); ++i) {''', '''      bool changed = false;
      for (int i = 1; i < cs->box().size(); ++i) {''')],
  needs='', breaks='', demo=M('')) ,
 dict(id='r10-refine-order', prop='C36', edits=[(C + 'contractor_forall.h', '''      const double mid{counterexample[forall_var].mid()};''', '''      const double mid{config().use_local_optimization() && (*current_box).has_variable(forall_var) ? counterexample[forall_var].ub() : counterexample[forall_var].mid()};''')],
  needs='', breaks='', demo=M('')),
]
PLANTS = [p for p in PLANTS if p['needs']]
