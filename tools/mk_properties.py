#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

p('C01', 'Building an expression preserves its mathematical value',
  'Whatever sequence of arithmetic operators and elementary functions a user applies, the resulting expression evaluates, at every point where the expression as written is defined, to the value of the expression as written (up to floating-point rounding of reassociated operations). '
  'Automatic simplification (constant folding, collecting like terms and factors, merging powers, sqrt/abs rewrites, dividing out constants) may only enlarge the domain of definition, never change a defined value. '
  'Where the expression is undefined, evaluation may report an error or a value of the enlarged domain but never a silent NaN (infinite intermediate results aside).',
  ['programs', 'inputs'],
  'All expression-building programs up to a bounded number of operations over variables, integer, fractional, negative and special constants, evaluated on a grid of negative, zero, fractional and positive points.',
  'Unit tests check a few dozen hand-picked simplifications; the rewrite rules interact (a sum inside a power inside a product), and only the value at points of a different sign or an unusual exponent shows a wrong rewrite.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc'],
  [('operator overloads and math functions apply local simplifications', S+'symbolic_expression.cc'),
   ('sum and product factories collect coefficients and exponents', S+'symbolic_expression_cell.cc ExpressionAddFactory/ExpressionMulFactory'),
   ('per-cell evaluation with domain checks', S+'symbolic_expression_cell.cc')],
  ['Expression::Evaluate'])

p('C02', 'Expression equality, order and hash agree with one another',
  'Structural equality of expressions is an equivalence relation, the ordering used by ordered containers is a strict total order whose equivalence classes are exactly the structurally equal expressions, and structurally equal expressions have equal hashes. '
  'Expressions that are structurally equal evaluate identically everywhere and have the same free variables. '
  'Building the same sum from the same terms, or the same product from the same factors that are neither sums nor powers of powers, in a different order or grouping (with exactly representable coefficients) gives structurally equal results.',
  ['inputs'],
  'All pairs and triples from an enumerated universe of expressions of every kind (constants, interval constants, variables, sums, products, powers, all functions, conditionals, uninterpreted functions).',
  'A test compares chosen pairs; a broken order or hash shows only for particular pairs or triples of kinds and then corrupts every map and cache keyed by expressions.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc', S+'symbolic_variable.cc', S+'symbolic_variables.cc'],
  [('per-kind EqualTo/Less comparing kind, then children', S+'symbolic_expression_cell.cc'),
   ('hash computed at construction by hash_combine', S+'symbolic_expression_cell.cc')],
  ['Expression::EqualTo', 'Expression::Less', 'Expression::get_hash', 'std::map/set/unordered_map keyed by expressions'])

p('C03', 'Symbolic handles are values: no operation changes another handle',
  'Expressions, formulas and variable sets behave as immutable values: building, compound-assigning, moving, substituting, destroying or transforming one handle never changes what any other live handle denotes, prints, hashes or compares to. '
  'Compound assignment gives exactly the same result as the corresponding binary operator on copies, whether or not the operands are shared, moved from a temporary, or the same object on both sides. '
  'Every node is released exactly once when its last handle goes away.',
  ['histories'],
  'All sequences up to a bounded depth of copy, move, compound-assign, negate, substitute and destroy operations on a few handle slots that are forced to alias.',
  'The library mutates nodes in place when it believes it owns the only reference; whether it does depends on the exact history of copies and moves, and tests build each expression once from fresh operands.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc', S+'symbolic_expression.h', S+'symbolic_formula.cc', S+'symbolic_expression_cell.h', S+'symbolic_formula_cell.h'],
  [('intrusive reference counts', S+'symbolic_expression_cell.h rc_, symbolic_formula_cell.h rc_'),
   ('in-place reuse of sums/products when the reference count is one', S+'symbolic_expression.cc operator+=/operator*=')],
  ['Evaluate/to_string/get_hash/EqualTo of every live handle after every step'],
  [('rc_', 'number of handles to a node', S+'symbolic_expression_cell.h')])

p('C04', 'Substitution means evaluation under the substituted environment',
  'Substituting expressions for variables (and formulas for Boolean variables) in an expression or formula gives a term that evaluates, in any environment, exactly as the original does in the environment where each substituted variable takes the value of its replacement, all replacements being applied simultaneously. '
  'Variables that are not mentioned in the substitution, including arguments of uninterpreted functions, are kept. '
  'Bound variables of a quantifier are never replaced and never capture variables of a replacement; partial evaluation agrees with full evaluation.',
  ['programs', 'inputs'],
  'All pairs of an enumerated term and an enumerated substitution (identity, swaps, chains, constants, self-referential, partly unmentioned), evaluated on a grid of environments.',
  'Tests substitute a handful of terms; swaps, chains, captured binders and terms whose rebuilt form re-simplifies need particular combinations.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc', S+'symbolic_formula.cc', S+'symbolic_formula_cell.cc'],
  [('per-kind Substitute rebuilds the node through the simplifying constructors', S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc')],
  ['Expression::Substitute', 'Formula::Substitute', 'Expression::EvaluatePartial'])

p('C05', 'Expansion preserves value and reaches a normal form',
  'Expanding an expression gives an expression that evaluates to the same value wherever the original is defined. '
  'Expanding an already expanded expression changes nothing, and a polynomial expands to a sum of monomials with no product or integer power of a sum left, so two polynomial expressions are equal as polynomials with exactly representable coefficients exactly when the difference of their expansions is structurally zero.',
  ['programs', 'inputs'],
  'All expression-building programs up to a bounded size over sums, products, powers and divisions by constants, with small exactly representable coefficients.',
  'Tests expand selected products; wrong cross terms need specific combinations of coefficient, power and nesting.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc'],
  [('ExpandMultiplication/ExpandPow and per-kind Expand', S+'symbolic_expression_cell.cc')],
  ['Expression::Expand'])

p('C06', 'Symbolic differentiation yields the derivative',
  'At every point around which an expression is smooth, differentiating it symbolically with respect to a variable gives an expression that is defined there and has the partial derivative as its value, all other variables being held constant. '
  'An expression that does not mention the variable has derivative zero, differentiation is linear and commutes across variables in value, and expressions that are not differentiable symbolically are rejected with an error rather than given a wrong derivative.',
  ['programs', 'inputs'],
  'All expression-building programs up to a bounded size over every differentiable operator, all variables, and a grid of interior points.',
  'Tests check one rule at a time on one shape; chain/product/quotient rules combined with simplification need specific shapes and points.',
  [S+'symbolic_expression_cell.cc', S+'symbolic_expression.cc'],
  [('per-kind Differentiate', S+'symbolic_expression_cell.cc'), ('differentiability test', S+'symbolic_expression.cc IsDifferentiable')],
  ['Expression::Differentiate', 'IsDifferentiable'])

p('C07', 'Building and evaluating formulas obeys classical logic',
  'Whatever sequence of comparisons, conjunctions, disjunctions, negations, implications and equivalences a user applies, the resulting formula evaluates in every environment to the truth value of the formula as written. '
  'Construction-time simplification (flattening, deduplication, complementary literals, double negation, comparisons that reduce to constants) never changes a truth value, and the conjunction or disjunction of a set or list is that of its members. '
  'Conditional expressions take the branch chosen by their condition.',
  ['programs', 'inputs'],
  'All formula-building programs up to a bounded size over Boolean variables and arithmetic atoms, evaluated in all Boolean assignments and a grid of numeric points.',
  'Tests try a few dozen formulas; the simplifications interact with operand order, nesting and duplicates.',
  [S+'symbolic_formula.cc', S+'symbolic_formula_cell.cc'],
  [('simplifying constructors of and/or/not and relational operators', S+'symbolic_formula.cc'),
   ('per-kind Evaluate', S+'symbolic_formula_cell.cc')],
  ['Formula::Evaluate'])

p('C08', 'Formula equality, order and hash agree with one another',
  'Structural equality of formulas is an equivalence relation, the ordering used by ordered containers is a strict total order whose equivalence classes are exactly the structurally equal formulas, and structurally equal formulas have equal hashes. '
  'Structurally equal formulas have the same truth value everywhere and the same free variables, and the order or repetition of operands of a conjunction or disjunction does not matter.',
  ['inputs'],
  'All pairs and triples from an enumerated universe of formulas of every kind including quantified formulas and Boolean variables.',
  'Every cache in the solver is keyed by formulas; a broken comparison shows only on particular pairs or triples.',
  [S+'symbolic_formula.cc', S+'symbolic_formula_cell.cc'],
  [('per-kind EqualTo/Less', S+'symbolic_formula_cell.cc'), ('hash computed at construction', S+'symbolic_formula_cell.cc')],
  ['Formula::EqualTo', 'Formula::Less', 'Formula::get_hash'])

p('C09', 'Free-variable sets and structural queries are exact',
  'The free variables reported for an expression or formula are exactly the variables occurring in it outside a binder, however it was built; substituting values for exactly those variables always suffices to evaluate it. '
  'Queries about a term (kind tests, operand accessors, polynomial test, presence of conditionals, clause and atom tests) describe the term correctly: reassembling a term from its reported parts gives a term with the same meaning, and a term reported as polynomial is a polynomial.',
  ['programs', 'inputs'],
  'All terms from the enumerated universe of expressions and formulas of every kind, and terms derived from them by one transformation.',
  'Solver components allocate box dimensions and contractor inputs from these sets; a variable missing for one node kind is silent.',
  [S+'symbolic_expression.cc', S+'symbolic_expression_cell.cc', S+'symbolic_formula.cc', S+'symbolic_formula_cell.cc', 'dreal/symbolic/symbolic.cc'],
  [('variables and flags collected at construction', S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc'),
   ('operand accessors', S+'symbolic_expression.cc, symbolic_formula.cc')],
  ['GetVariables', 'GetFreeVariables', 'is_polynomial', 'include_ite', 'get_* accessors', 'is_atomic/is_clause/is_cnf'])

p('C10', 'Variable sets and environments behave as mathematical sets and maps',
  'After any history of insertions, erasures, unions, differences, intersections and copies, a variable set contains exactly the variables a mathematical set would, and its size, iteration, membership, subset and superset tests, equality, order and hash agree with that content. '
  'An environment after any history of insertions and assignments maps exactly the variables given to the values they should have under its documented insert and index semantics, and rejects dummy variables and NaN values. '
  'Two distinct variables never compare equal and every variable keeps its name, type and identity under copying.',
  ['histories'],
  'All operation histories up to a bounded depth over three or four variables and two sets or environments, including self-application.',
  'Tests apply one operation at a time to fixed small sets.',
  [S+'symbolic_variables.cc', S+'symbolic_variables.h', S+'symbolic_environment.cc', S+'symbolic_variable.cc'],
  [('sorted set operations', S+'symbolic_variables.cc'), ('environment map with validation', S+'symbolic_environment.cc')],
  ['Variables and Environment public API'])

p('C11', 'The printed form of a term denotes that term',
  'Printing an expression or formula, in the infix form or in the SMT-LIB prefix form, gives text that, read back under the usual grammar and precedence, denotes a term with the same value or truth value everywhere as the printed one, with finite constants exact to the last bit, on a stream in any formatting state. '
  'Printing does not alter the stream\'s formatting state or the term, and a term that has no prefix form (uninterpreted functions, quantifiers, NaN) is refused with an error rather than printed wrongly.',
  ['programs', 'inputs'],
  'All terms from the enumerated universe of expressions and formulas including negative, tiny, huge and non-dyadic constants; every stream precision and float format from a small set.',
  'Tests compare a few strings; associativity, negative operands and precision need particular nestings and constants.',
  ['dreal/symbolic/prefix_printer.cc', S+'symbolic_expression_cell.cc', S+'symbolic_formula_cell.cc', 'dreal/util/precision_guard.cc'],
  [('prefix visitor', 'dreal/symbolic/prefix_printer.cc'), ('per-kind Display', S+'symbolic_expression_cell.cc, symbolic_formula_cell.cc')],
  ['ToPrefix', 'to_string', 'operator<<'])

p('C12', 'Negation normal form keeps meaning and has the promised shape',
  'Converting a formula to negation normal form gives a formula with the same truth value in every environment, in which negation is applied only to atoms, or, when negated comparisons are to be pushed into the comparison, only to Boolean variables and quantified formulas. '
  'The result mentions no new variable, and converting it again changes nothing.',
  ['programs', 'inputs'],
  'All formula-building programs up to a bounded size over Boolean variables, all six comparisons and quantified atoms, in both conversion modes.',
  'Tests convert a few formulas; polarity mistakes need a particular connective under a particular number of negations.',
  ['dreal/util/nnfizer.cc', 'dreal/util/nnfizer.h'],
  [('polarity-carrying visitor', 'dreal/util/nnfizer.cc')], ['Nnfizer::Convert'])

p('C13', 'Clausal conversion keeps satisfying assignments and produces clauses',
  'Both clausal conversions return a conjunction of clauses of literals. '
  'The distributive conversion is equivalent to the input, and the definitional conversion is equisatisfiable: every satisfying assignment of the input extends to one of the output over the fresh variables, and every satisfying assignment of the output, restricted to the input\'s variables, satisfies the input; this holds for universally quantified subformulas too. '
  'Fresh variables never clash with existing ones and every introduced variable is reported, call after call on the same converter.',
  ['programs', 'histories'],
  'All Boolean formula-building programs up to a bounded size over a few atoms, nested to depth three or more, plus quantified ones, and all sequences of two or three conversions on one converter.',
  'A missing or one-sided definition clause loses or adds models only for particular nestings and polarities; tests check few formulas.',
  ['dreal/util/tseitin_cnfizer.cc', 'dreal/util/naive_cnfizer.cc', 'dreal/util/tseitin_cnfizer.h'],
  [('definition clauses for fresh variables', 'dreal/util/tseitin_cnfizer.cc'), ('distribution', 'dreal/util/naive_cnfizer.cc')],
  ['TseitinCnfizer::Convert', 'NaiveCnfizer::Convert', 'TseitinCnfizer::vars'])

p('C14', 'Predicate abstraction is a faithful bijection of atoms over any history',
  'Abstracting formulas replaces every atom by a Boolean variable and keeps the Boolean structure, so that substituting the atoms back restores a formula equivalent to the original. '
  'Across any history of conversions by one abstractor, structurally equal atoms always get the same variable, distinct atoms distinct variables, and the two lookup directions stay inverse to one another.',
  ['histories'],
  'All sequences up to a bounded length of conversions from an enumerated pool of formulas that share atoms, negated atoms and Boolean variables.',
  'Tests convert one formula; reuse across calls and atoms that are equal only structurally need histories.',
  ['dreal/util/predicate_abstractor.cc', 'dreal/util/predicate_abstractor.h'],
  [('atom-variable map in both directions', 'dreal/util/predicate_abstractor.cc Add')],
  ['PredicateAbstractor::Convert', 'operator[]', 'var_to_formula_map'],
  [('var_to_formula_map_, formula_to_var_map_', 'the bijection', 'dreal/util/predicate_abstractor.h')])

p('C15', 'Eliminating conditionals keeps satisfying assignments',
  'Removing conditional expressions from a formula gives a conditional-free formula such that each assignment satisfies the original exactly when it extends, over the fresh variables, to one satisfying the result; this also holds for conditionals nested in conditions and branches, under every connective and polarity and inside quantified bodies. '
  'Fresh variables are new, are reported, and earlier calls on the same eliminator do not affect later results\' meaning.',
  ['programs', 'histories'],
  'All formulas up to a bounded size with one to three (nested) conditionals under every connective, on a grid of points, and all sequences of two or three calls.',
  'Tests check few shapes; a condition dropped for one nesting or one polarity is invisible elsewhere.',
  ['dreal/util/if_then_else_eliminator.cc', 'dreal/util/if_then_else_eliminator.h'],
  [('guarded definitions of a fresh variable per conditional', 'dreal/util/if_then_else_eliminator.cc')],
  ['IfThenElseEliminator::Process', 'IfThenElseEliminator::variables'])

p('C16', 'Delta-strengthening implies the formula, which implies its weakening',
  'For a positive delta, the strengthened form of a formula implies the formula and the formula implies the weakened form, at every point where they are defined and for every connective, polarity, comparison and kind of term. '
  'A point satisfying the weakened form violates no comparison of the original by more than delta, and a point satisfying the strengthened form satisfies every comparison other than an equality with a margin of delta. '
  'A quantified formula is refused with an error.',
  ['programs', 'inputs'],
  'All formulas up to a bounded size over all comparisons and connectives (with conditionals in terms), several positive deltas, on a grid fine enough to sit on and beside every boundary.',
  'The promise behind every delta-sat answer; a sign error for one comparison under one polarity is visible only within delta of its boundary.',
  ['dreal/symbolic/symbolic.cc', 'dreal/symbolic/symbolic.h'],
  [('strengthening visitor with sign flip under negation', 'dreal/symbolic/symbolic.cc')],
  ['DeltaStrengthen', 'DeltaWeaken'])

p('C17', 'Threads may share symbolic terms freely',
  'When several threads at once copy, assign, destroy, build upon, evaluate and compare expressions, formulas and variables that share nodes (each thread using its own handles), every result is the one the thread would get alone, no memory access is a data race, no node is released while in use or more than once, none is leaked, and variables created concurrently are all distinct.',
  ['schedules'],
  'All interleavings, at synchronisation-operation granularity up to a preemption bound, of two or three threads with a few operations each on shared terms; all unsynchronised accesses checked for races.',
  'Tests of the symbolic library are single-threaded.',
  [S+'symbolic_expression_cell.h', S+'symbolic_formula_cell.h', S+'symbolic_expression.cc', S+'symbolic_formula.cc', S+'symbolic_variable.cc'],
  [('atomic reference counts with acquire fence before release', S+'symbolic_expression_cell.h'), ('atomic next-id counter', S+'symbolic_variable.cc get_next_id')],
  ['results, live node count, race detector'],
  [('rc_', 'handles to a node', S+'symbolic_expression_cell.h')])

p('C18', 'The thread pool runs every accepted task exactly once',
  'Every task submitted to the thread pool before shutdown runs exactly once on one worker, its future yields its result or exception, and destroying the pool returns only after all accepted tasks have finished, without deadlock, for any interleaving of submitters, workers and shutdown. '
  'At most the configured number of tasks run at the same time, and submitting after shutdown has begun is refused with an error. '
  'While one pool exists at a time, each worker reports a thread index of its own between 1 and the number of workers, the thread that made the pools 0.',
  ['schedules'],
  'All interleavings up to a preemption bound of one or two submitting threads, one to three workers and a shutdown, with tasks that return, throw, or wait for one another.',
  'The test runs one free-running schedule.',
  ['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc', 'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h'],
  [('mutex-protected queue and condition variable', 'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h')],
  ['futures, run counts, join of the destructor'])

p('C19', 'Parallel branch-and-prune gives a sound answer under every schedule',
  'Running branch-and-prune with several workers terminates under every schedule and gives an answer consistent with the sequential one: if the problem has a solution it never answers unsat, and when it reports a box, that box passed the same delta test the sequential search applies. '
  'Its bookkeeping (boxes outstanding, found flag, statistics, per-thread caches) is free of data races.',
  ['schedules'],
  'All interleavings up to a preemption bound of two or three workers over small problems whose search trees have several live boxes, with and without solutions.',
  'The parallel search is not built here and elsewhere is run on one schedule per test.',
  ['dreal/solver/icp_parallel.cc', 'dreal/util/cds.h', 'dreal/contractor/contractor_ibex_fwdbwd_mt.cc', 'dreal/contractor/contractor_forall.h'],
  [('shared lock-free stack, outstanding-box counter and found flag', 'dreal/solver/icp_parallel.cc')],
  ['IcpParallel::CheckSat'],
  [('number_of_boxes, found_delta_sat', 'termination protocol', 'dreal/solver/icp_parallel.cc')])

p('C20', 'Scoped containers restore the content of each enclosing scope',
  'After any history of pushes, pops, insertions, updates and clears, a backtrackable vector, map or set holds exactly what a stack of full copies would hold: a pop restores the content, order and lookups as of the matching push, whatever was appended, inserted or updated through its operations in between; clearing drops the content and all open scopes. '
  'Popping more scopes than were pushed is refused with an error and leaves the content unchanged; copies are independent.',
  ['histories'],
  'All operation histories up to a bounded depth over two or three keys and values, for each container, compared after every step.',
  'Tests walk one history; repeated updates of one key across nested scopes need specific sequences.',
  ['dreal/util/scoped_vector.h', 'dreal/util/scoped_unordered_map.h', 'dreal/util/scoped_unordered_set.h'],
  [('undo log with scope marks', 'dreal/util/scoped_unordered_map.h')], ['container public API'])

p('C21', 'Option values follow the precedence code over command line over file',
  'After any sequence of settings from the default, an input file, the command line and program code, an option\'s value is the most recent one among the settings of the highest-precedence source used (code, then command line, then file, then default), never another, and copying an option copies value and source. '
  'A setting of lower precedence never has any observable effect, including on options read back by name.',
  ['histories'],
  'All sequences of settings up to a bounded length over all sources and two or three values, for several value types and for each solver option.',
  'Tests try a handful of orders.',
  ['dreal/util/option_value.h', 'dreal/solver/config.h', 'dreal/solver/config.cc', 'dreal/solver/context_impl.cc'],
  [('source tag compared before each set', 'dreal/util/option_value.h')], ['OptionValue::get', 'Config accessors', 'Context::GetOption'])

p('C22', 'Numeric classification and conversion lose nothing silently',
  'Testing whether a floating-point number is an integer representable as an int is exact, and every conversion between integer widths and floating point either returns the mathematically equal value or reports an error, for every input including extremes, infinities and NaN. '
  'An enabled statistics counter counts every event reported to it exactly once, a disabled one none.',
  ['inputs'],
  'Every boundary value of every type involved with all neighbours within a few units in the last place, all powers of two with their neighbours, special values and a dense small range.',
  'Tests use a few round numbers; the failing inputs are single values at type limits.',
  ['dreal/util/math.cc', 'dreal/util/math.h', 'dreal/util/stat.h'],
  [('range checks before static casts', 'dreal/util/math.cc')], ['is_integer, convert_int64_to_int, convert_int64_to_double'])

p('C23', 'Scope guards and timers leave exactly the state they promise',
  'For every nesting and every exit path including exceptions, leaving a scope protected by a precision guard, rounding-mode guard or signal-handler guard restores the stream precision, rounding mode or handler in force at entry, and clears the interrupt flag where promised. '
  'After any history of start, pause and resume, a timer is running exactly when it should be, accumulates exactly the running periods, and a timer guard leaves its timer paused.',
  ['histories'],
  'All histories up to a bounded depth of guard entry, exit by return or exception, state change inside the scope, and timer operations under a controlled clock.',
  'Tests exercise one nesting and sleep for real time.',
  ['dreal/util/precision_guard.cc', 'dreal/util/rounding_mode_guard.h', 'dreal/util/signal_handler_guard.cc', 'dreal/util/timer.h', 'dreal/util/timer.cc', 'dreal/util/interrupt.cc'],
  [('RAII save/restore', 'dreal/util/precision_guard.cc'), ('running flag and accumulated duration', 'dreal/util/timer.h')],
  ['stream precision, fegetround, sigaction, Timer::elapsed/is_running'])

p('C24', 'SMT-LIB building blocks translate text to the right meaning',
  'Sorts, logics and commands read from text map to the intended values and back, unknown names are refused, and a sorted term holds exactly the expression or formula it was built from. '
  'An expression is accepted at exactly the numeric sorts and a formula at exactly the Boolean sort, and substituting into a term replaces exactly the given variable by an equal-sorted term.',
  ['inputs', 'histories'],
  'All sort and logic names and near misses; all terms from the enumerated universe against all sorts; all two-step assignment and substitution histories on a term; all command kinds with their operands.',
  'There is no test of these units.',
  ['dreal/smt2/term.cc', 'dreal/smt2/sort.cc', 'dreal/smt2/logic.cc', 'dreal/smt2/command.cc', 'dreal/smt2/command_cell.cc'],
  [('term with expression and formula alternatives', 'dreal/smt2/term.cc'), ('name tables', 'dreal/smt2/sort.cc, dreal/smt2/logic.cc')],
  ['Term, Sort, Logic, Command public API'])

p('C25', 'Unsat answers are true and delta-sat answers come with a delta-model',
  'When the solver answers unsat, no assignment within the declared bounds and types satisfies the asserted formulas. '
  'When it answers delta-sat, the reported box is nonempty, lies within the declared bounds, gives integer and Boolean variables integer and Boolean values, and contains a point violating no asserted constraint by more than delta, delta being the configured precision.',
  ['programs', 'configurations'],
  'All small problems from an enumerated grammar of Boolean combinations of linear and simple nonlinear constraints over one to three real, integer and Boolean variables with bounds, under every combination of solver options.',
  'The core guarantee of the tool; tests solve chosen problems, and a lost solution needs a particular shape of constraint, bound and option.',
  ['dreal/solver/context_impl.cc', 'dreal/solver/icp_seq.cc', 'dreal/solver/icp.cc', 'dreal/solver/theory_solver.cc', 'dreal/solver/sat_solver.cc', 'dreal/solver/brancher.cc', 'dreal/api/api.cc'],
  [('CDCL(T) loop over SAT models and branch-and-prune', 'dreal/solver/context_impl.cc CheckSatCore, dreal/solver/theory_solver.cc')],
  ['CheckSatisfiability', 'Context::CheckSat'])

p('C26', 'Push and pop make the context forget exactly what was scoped',
  'After any history of declarations, bound changes, assertions, pushes, pops and checks, checking satisfiability gives an answer consistent with a fresh context holding only the declarations and assertions of the scopes still open. '
  'A repeated check without changes gives the same kind of answer, and answers never depend on formulas or variables that were popped.',
  ['histories'],
  'All command histories up to a bounded length over a small alphabet of declarations, conflicting and compatible assertions, push, pop and check.',
  'State is kept in five places (box stack, assertion stack, SAT solver, caches, abstraction maps); tests use one or two histories.',
  ['dreal/solver/context_impl.cc', 'dreal/solver/sat_solver.cc', 'dreal/solver/theory_solver.cc'],
  [('scoped stack of boxes and assertions, SAT solver push/pop', 'dreal/solver/context_impl.cc')],
  ['Context::CheckSat after each step'],
  [('boxes_, stack_, contractor_cache_', 'scoped solver state', 'dreal/solver/context_impl.h, theory_solver.h')])

p('C27', 'Turning a simple bound into a box bound loses and adds no point',
  'When an asserted formula is absorbed as a bound on a variable instead of being kept as a constraint, the box afterwards contains exactly those representable points of the box before that satisfy the formula, where integer and binary variables take integer values (for real variables a strict bound may keep its end point where no closer representable bound exists), and where the constant is an enclosure of an unknown number a point stays if it satisfies the formula for some number in it. '
  'A formula that is kept as a constraint may only remove points that violate it, one that does not restrict a single variable by a constant leaves the box unchanged, and an infeasible bound makes the box empty.',
  ['inputs', 'histories'],
  'All comparisons of a variable with a constant in both orders and polarities, over a set of constants including zero, negative, fractional, subnormal and infinite ones, all variable types and prior boxes, and sequences of two or three.',
  'A wrong step at one boundary makes unsat problems satisfiable or loses solutions; tests cover positive constants.',
  ['dreal/solver/filter_assertion.cc', 'dreal/solver/filter_assertion.h'],
  [('bound updates with next representable number for strict bounds', 'dreal/solver/filter_assertion.cc')], ['FilterAssertion and the box afterwards'])

p('C28', 'Box operations keep exactly the intended points',
  'Boxes are values: changing one copy never changes another. '
  'Adding variables, setting and reading intervals, bisecting and joining keep the variable-index correspondence, bisecting a dimension gives two boxes that together contain every point of the original (every integer point for integer variables) and are each strictly smaller, and the widest-dimension query names a dimension of maximal width that can be bisected.',
  ['histories'],
  'All operation histories up to a bounded depth on two or three aliased boxes over real, integer, binary and Boolean variables with degenerate, point, unbounded and empty intervals.',
  'Copy-on-write and integer splitting fail only for particular histories and endpoints; these units are not even built here.',
  ['dreal/util/box.cc', 'dreal/util/box.h'],
  [('shared variable tables copied on write', 'dreal/util/box.cc Add'), ('integer bisection at floor of the midpoint', 'dreal/util/box.cc bisect_int')],
  ['Box public API'])

p('C29', 'Pruning never removes a solution',
  'Every pruning operator, alone or composed in sequence, to a fixpoint, joined, by worklist, or in parallel-ready form, only ever shrinks a box and keeps every point of it that satisfies the constraints the operator was built from, with integer variables treated as integers. '
  'An operator that empties a box or shrinks a dimension reports having used constraints which alone already rule out the points removed, and a primitive operator reports every dimension it changed.',
  ['programs', 'inputs'],
  'All operator trees up to a bounded size built from an enumerated pool of constraints, on all boxes of a grid, compared with a pointwise reference on a fine grid of solutions.',
  'A lost solution needs a particular box and composition; the operators are not built here.',
  ['dreal/contractor/contractor.cc', 'dreal/contractor/contractor_seq.cc', 'dreal/contractor/contractor_fixpoint.cc', 'dreal/contractor/contractor_join.cc', 'dreal/contractor/contractor_integer.cc', 'dreal/contractor/contractor_worklist_fixpoint.cc', 'dreal/contractor/contractor_ibex_fwdbwd.cc', 'dreal/contractor/contractor_ibex_polytope.cc', 'dreal/contractor/contractor_status.cc'],
  [('contractor composition and status', 'dreal/contractor/')], ['Contractor::Prune and ContractorStatus'])

p('C30', 'The Boolean engine enumerates exactly the propositional models',
  'For any set of asserted formulas the Boolean engine yields an assignment exactly when the propositional abstraction is satisfiable, each reported set of literals makes every asserted formula true in the abstraction, and after blocking each reported set the engine has reported, over its whole run, every propositional model before answering unsatisfiable. '
  'Scopes popped from the engine no longer constrain it.',
  ['histories'],
  'All histories up to a bounded length of adding formulas from a pool, blocking the last model, pushing and popping, compared with truth-table enumeration.',
  'The reported assignment is pruned to a subset of literals using occurrence data; tests check single calls.',
  ['dreal/solver/sat_solver.cc', 'dreal/solver/sat_solver.h'],
  [('incremental SAT solver with abstraction and literal filtering', 'dreal/solver/sat_solver.cc')], ['SatSolver::CheckSat', 'AddLearnedClause'])

p('C31', 'Theory conflicts are explained by constraints that really conflict',
  'When the theory solver rejects a set of constraints over a box, the subset it returns as explanation is itself a subset of the given constraints and has no solution within that box. '
  'When it accepts, the box returned contains a point violating none of the given constraints by more than delta.',
  ['programs', 'histories'],
  'All sets of up to four constraints from an enumerated pool over one to three variables and several boxes, including repeated calls on one solver instance with different boxes.',
  'An explanation that is too small silently removes solutions from the Boolean search; it needs constraints that share variables in particular ways.',
  ['dreal/solver/theory_solver.cc', 'dreal/contractor/contractor_status.cc', 'dreal/solver/icp_seq.cc'],
  [('used-constraint tracking closed over shared variables', 'dreal/contractor/contractor_status.cc')], ['TheorySolver::CheckSat', 'GetExplanation'])

p('C32', 'SMT-LIB scripts mean what the standard says',
  'Executing an SMT-LIB script reports for every check command an answer consistent with the mathematical meaning of the declarations, definitions, local bindings, assertions and scopes in force, and model and value queries print values consistent with the last answer. '
  'Numbers are read as the exact decimal written or an enclosure of it, and erroneous scripts are rejected with an error rather than misread.',
  ['programs'],
  'All scripts up to a bounded length from a grammar of declarations, definitions, lets, quantifiers, operators, scopes and queries, compared with a reference reader and a grid oracle.',
  'End-to-end tests need components that are not built here and cover a fixed corpus.',
  ['dreal/smt2/driver.cc', 'dreal/smt2/parser.yy', 'dreal/smt2/scanner.ll', 'dreal/smt2/run.cc'],
  [('bison/flex reader with scoped symbol table', 'dreal/smt2/parser.yy, driver.cc')], ['output of RunSmt2'])

p('C33', 'Native problem files mean what their grammar says',
  'Solving a file in the native format reports an answer consistent with the declared ranges, constraints and operators under the usual precedence, with a minimisation goal giving a point whose cost no feasible point undercuts by more than delta.',
  ['programs'],
  'All files up to a bounded size from the grammar, compared with a reference reader and a grid oracle.',
  'The reader is not built here and tests cover a fixed corpus.',
  ['dreal/dr/driver.cc', 'dreal/dr/parser.yy', 'dreal/dr/scanner.ll', 'dreal/dr/run.cc'],
  [('bison/flex reader', 'dreal/dr/parser.yy')], ['output of RunDr'])

p('C34', 'Numbers read from text are enclosed',
  'Converting any decimal numeral accepted by the input languages whose value is zero or has the magnitude of a normal floating-point number to an interval gives an interval that contains the exact decimal value, whose ends are at most one representable step apart, and that is a single point when the value is exactly representable.',
  ['inputs'],
  'All decimal strings up to a bounded length over digits, point, sign and exponent, plus those beside every rounding boundary, compared with exact rational arithmetic.',
  'Rounding errors of one unit in the last place appear only for particular strings.',
  ['dreal/util/string_to_interval.cc', 'dreal/util/string_to_interval.h'],
  [('directed rounding of the decimal conversion', 'dreal/util/string_to_interval.cc')], ['StringToInterval'])

p('C35', 'Minimisation returns a feasible point no feasible point beats by more than delta',
  'Minimising an objective subject to constraints over a bounded box reports failure only if the constraints have no solution in the box, and otherwise returns a box containing a point that violates no constraint by more than delta and whose cost exceeds that of no point satisfying the constraints with delta to spare by more than twice delta (the cost and the comparison are each weakened by delta; a real bound counts as a constraint, the range of an integer variable counts in full, and an equality leaves nothing to spare).',
  ['programs', 'configurations'],
  'All problems from an enumerated grammar of small objectives and constraints over one or two bounded variables, with one or two objectives and local optimisation on and off.',
  'Tests optimise a few functions.',
  ['dreal/api/api.cc', 'dreal/solver/context_impl.cc', 'dreal/optimization/nlopt_optimizer.cc'],
  [('encoding of optimality as a universally quantified constraint', 'dreal/solver/context_impl.cc Minimize')], ['Minimize'])

p('C36', 'Quantified constraints are decided over the whole quantified range',
  'For a formula with universally quantified variables over bounded ranges, unsat means no assignment of the free variables makes the body hold over the whole range, and a delta-sat answer gives free-variable values for which the body is violated by no more than delta anywhere in the range drawn in by delta (the bounds of the range are weakened together with the body). A formula that would need a quantifier negated is refused with an error.',
  ['programs', 'configurations'],
  'All formulas from an enumerated grammar with one or two free and one quantified variable, with and without local optimisation and polytope pruning.',
  'A counterexample missed for one range or one clause of the body turns into a wrong answer; tests use a few formulas.',
  ['dreal/contractor/contractor_forall.h', 'dreal/contractor/counterexample_refiner.cc', 'dreal/solver/forall_formula_evaluator.cc'],
  [('counterexample-guided pruning', 'dreal/contractor/contractor_forall.h'), ('verdict by refutation', 'dreal/solver/forall_formula_evaluator.cc')],
  ['CheckSatisfiability with forall'])

p('C37', 'Interval evaluation encloses and verdicts are right',
  'Evaluating an expression over a box gives an interval containing its value at every point of the box where it is defined. '
  'A constraint judged valid over a box holds at every point of it, one judged unsatisfiable holds at none, and the error reported for an undecided one bounds how far it can be violated within the box.',
  ['programs', 'inputs'],
  'All enumerated expressions and comparisons with both polarities on all boxes of a grid, against pointwise evaluation on a finer grid.',
  'A wrong enclosure for one operator or polarity shows only on boxes straddling a critical point.',
  ['dreal/solver/expression_evaluator.cc', 'dreal/solver/relational_formula_evaluator.cc', 'dreal/solver/formula_evaluator.cc', 'dreal/util/ibex_converter.cc'],
  [('interval visitor', 'dreal/solver/expression_evaluator.cc'), ('verdict by sign of the interval', 'dreal/solver/relational_formula_evaluator.cc')],
  ['ExpressionEvaluator::operator()', 'FormulaEvaluator::operator()'])

p('C38', 'The command-line program does what its arguments say',
  'Given a file or the standard input and documented options in any order and number, each option at most once, the command-line program runs the one reader that the format option or else the extension of the file selects, on that input, with exactly the settings the options ask for and the documented defaults for all others, and leaves with status 0. '
  'Options that a file sets afterwards change a setting only if the command line left it open, the last one in the file counting. '
  'Requests for help or the version print that and read nothing, and a command line with an unknown option, an unacceptable or missing value, a missing file, an unknown extension or more than one file runs no reader and leaves with a non-zero status and a message.',
  ['inputs', 'configurations'],
  'All sequences of documented options with several spellings and values up to a bounded length, with the file at every position, all classes of unacceptable command lines, and all sequences of options set by a file up to a bounded length, on the real program.',
  'The program is not built here and has no tests; combinations and orders of two dozen options are far beyond what tests sample.',
  ['dreal/dreal_main.cc', 'dreal/solver/config.h', 'dreal/solver/config.cc', 'dreal/solver/context_impl.cc', 'dreal/util/option_value.h', 'dreal/util/filesystem.cc'],
  [('option table and extraction', 'dreal/dreal_main.cc'), ('options of a file', 'dreal/solver/context_impl.cc SetOption')],
  ['MainProgram::Run', 'Context::SetOption', 'Context::config'])

p('C39', 'Local optimisation is given the problem the solver has',
  'Whatever sequence of objectives and constraints is set, the local optimiser works on exactly that problem: at every point its objective is the value (and its slopes the partial derivatives) of the objective term set last, at the values given for the other variables; a point within the bounds of the box is feasible if and only if it satisfies the non-strict form of every constraint added, negated ones included, equalities and inequalities within the tolerance of the precision; algorithm, bounds, starting point and limits are those requested. '
  'A constraint that is not a conjunction of inequalities and equations or negated inequalities is refused with an error and changes nothing. '
  'Refining a counterexample starts at its middle, changes only the quantified variables, to the point found, and returns the counterexample unchanged when the optimiser fails.',
  ['inputs', 'histories', 'faults'],
  'All relations between pairs of 20 terms added in six ways, all histories of eight operations to a bounded depth, all combinations of bounds and limits, and all conjunctions of up to three or four atoms refined with every order of the box and every result of the optimisation library.',
  'A wrong sign, a stale value or a mixed-up dimension shows only for particular forms, histories and orders; the answers of the solver hide it, as a bad counterexample only costs time or completeness.',
  ['dreal/optimization/nlopt_optimizer.cc', 'dreal/optimization/cached_expression.cc', 'dreal/contractor/counterexample_refiner.cc'],
  [('constraints handed over', 'dreal/optimization/nlopt_optimizer.cc AddConstraint'), ('refinement', 'dreal/contractor/counterexample_refiner.cc Refine')],
  ['NloptOptimizer::AddConstraint', 'NloptOptimizer::Optimize', 'CounterexampleRefiner::Refine'])

open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(x, ensure_ascii=False)+'\n' for x in P))
