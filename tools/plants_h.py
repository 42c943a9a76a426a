C = 'dreal/contractor/'; S = 'dreal/solver/'; U = 'dreal/util/'; O = 'dreal/optimization/'
SYM = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
V = '  Variable x{"x"}, y{"y"}, z{"z"};\n'
INC = '#include "dreal/optimization/nlopt_optimizer.h"\n#include "dreal/util/logging.h"\n'
def M(s, pre=''): return pre + 'int main() {\n' + V + s + ' return 0; }\n'
PLANTS = [
 dict(id='u01-first-environment', prop='C39', edits=[(O + 'nlopt_optimizer.cc', '''    constraint_ptr->mutable_environment() = env;
''', '''    Environment& old_env = constraint_ptr->mutable_environment();
    if (old_env.empty()) {
      old_env = env;
    }
''')],
  needs='a constraint with a parameter, and one optimiser used for two values of it', breaks='the second problem is solved with the parameter of the first',
  demo=M('''  Config conf; conf.mutable_precision() = 1e-4; conf.mutable_nlopt_maxtime() = 10;
  Box b; b.Add(x, -3, 3);
  NloptOptimizer o(nlopt::algorithm::LD_SLSQP, b, conf);
  o.SetMinObjective(x); o.AddConstraint(x >= z);
  for (double c : {1.0, -1.0, 2.0}) {
    Environment e; e.insert(z, c);
    vector<double> v{2.5}; double f = 0;
    o.Optimize(&v, &f, e);
    CHECK(std::fabs(v[0] - c) < 1e-2);
  }
''', INC)),
 dict(id='u02-lost-explanation', prop='C19', edits=[(S + 'icp_parallel.cc', '''  for (const auto& cs_i : status_vector_) {
    cs->InplaceJoin(cs_i);
  }
''', '''  for (int i = 1; i < number_of_jobs; ++i) {
    cs->InplaceJoin(status_vector_[i]);
  }
''')],
  needs='an assignment that only the search refutes, with the refuting work done by the first worker', breaks='the explanation is incomplete, and satisfiable problems are called unsatisfiable',
  demo=M('''  for (int n = 0; n < 1500; ++n) {
    Context ctx; ctx.mutable_config().mutable_precision() = 0.25; ctx.mutable_config().mutable_number_of_jobs() = 2;
    ctx.DeclareVariable(x, -1, 1); ctx.DeclareVariable(y, -1, 1);
    ctx.Assert(x * x + y * y - 2 * x * y <= -1 || (x + y == 1 && x >= y));
    CHECK(ctx.CheckSat());
  }
''')),
 dict(id='u03-small-coefficient', prop='C11', edits=[(SYM + 'symbolic_expression_cell.cc', '''    if (coeff != -1.0) {''', '''    if (coeff < -1.0) {''')],
  needs='a sum with a coefficient between -1 and 0', breaks='the printed sum lacks the coefficient, and names another value',
  demo=M('''  CHECK((x - 0.5 * y).to_string().find("0.5") != string::npos);
  CHECK((x - y).to_string().find("1 *") == string::npos);
''')),
]
