"""Per property: the harness binaries and the level claimed for them."""
PROPS = {}
def prop(id, bins, technique, note, level='model_checking', assumptions=()):
    PROPS[id] = dict(bins=[dict(bin=b) if isinstance(b, str) else b for b in bins],
                     technique=technique, note=note, level=level, assumptions=list(assumptions))
REFSEM = 'the reference evaluator in src/ref.h (independent of dreal) defines the meaning of a program'
prop('C01', ['c01'],
     'explicit-state exploration: BFS over expression-building programs on the real library, stepwise agreement with a reference evaluator',
     'Complete for all programs within the stated alphabet and depth at the grid points; says nothing about larger programs or other constants.',
     assumptions=[REFSEM])
ES = 'explicit-state exploration: '
prop('C02', ['c02'], ES + 'all pairs and triples over the set of distinct expressions reached by BFS, order/equality/hash laws checked on each',
     'Complete over the reached term set and its pairs/triples; larger terms are not covered.', assumptions=[REFSEM])
prop('C03', ['c03'], ES + 'every history of copies, moves, compound assignments and transformations over aliasing slots to a depth, executed under AddressSanitizer; after each step every slot is compared with the same operations on fresh unshared terms, and the heap balance with the one before',
     'Complete for the stated operations, initial states and depth.')
prop('C04', ['c04'], ES + 'every (term, substitution) transition within bounds executed on the real library and compared with a reference substitution at every grid point',
     'Complete for the stated terms, replacements and grid; quantifiers are evaluated over a finite domain on both sides.', assumptions=[REFSEM])
prop('C05', ['c05'], ES + 'Expand applied to every distinct term reached by BFS; value at every grid point, idempotence, and for polynomial programs agreement with exact polynomial arithmetic and decision of equality through differences',
     'Complete for the stated alphabet, depth and coefficients at the grid points.', assumptions=[REFSEM])
prop('C06', ['c06'], ES + 'Differentiate applied with respect to each variable to every distinct term reached by BFS, first and second derivatives compared at every grid point with forward-mode automatic differentiation of the term read back',
     'Complete for the stated alphabet and depth at the grid points; tolerance 1e-7 relative.', assumptions=[REFSEM])
prop('C07', ['c07'], ES + 'BFS over formula-building programs on the real library, agreement with reference truth at every grid point',
     'Complete for the stated atoms, connectives and depth at the grid points.', assumptions=[REFSEM])
prop('C08', ['c08'], ES + 'all pairs and triples over the set of distinct formulas reached by BFS, order/equality/hash laws checked on each',
     'Complete over the reached formula set and its pairs/triples.', assumptions=[REFSEM])
prop('C10', ['c10'], ES + 'every operation history to a depth on real Variables/Environment objects, compared with std::set/std::map after each step',
     'Complete for the stated operations, registers and depth.')
prop('C20', ['c20'], ES + 'every history of operations, scopes, copies and moves to a depth on the real containers, compared with a stack of full copies',
     'Complete for the stated keys, values and depth.')
prop('C21', ['c21'], ES + 'every sequence of settings and copies to a depth on real OptionValue objects, compared with the precedence model',
     'Complete for the stated value types, values and length.')
prop('C22', ['c22', 'c22s'], 'exhaustive enumeration of input classes (all exponents, all ints, all floats, all boundary neighbourhoods) and of event histories, also under every schedule of several reporting threads within a preemption bound, on the real functions, against bit-level references',
     'Complete for the stated classes; doubles outside them (arbitrary mantissas) are not enumerated.')
prop('C23', ['c23'], ES + 'every nesting of guards, bottom action and exit path, and every timer history under a virtual clock, executed on the real code',
     'Complete for the stated nesting depth, actions and history length.')
prop('C24', ['c24'], ES + 'every name within one edit of a known one; every pair of terms and one-step assignment, access, acceptance and substitution',
     'Complete for the stated names and terms.', assumptions=[REFSEM])

prop('C12', ['c12'], ES + 'negation normal form of every formula program in bounds, shape decided on the formula read back and truth compared at every point of a grid',
     'Complete for the stated atoms, connectives and depth at the grid points.', assumptions=[REFSEM])
prop('C13', ['c13'], ES + 'clausal conversion (distributive and definitional) of every formula program in bounds; every assignment of the introduced definition variables is enumerated to decide equisatisfiability, point by point',
     'Complete for the stated atoms, connectives and depth at the grid points.', assumptions=[REFSEM])
prop('C14', ['c14'], ES + 'abstraction of every formula program (and every short sequence of abstractions on one abstractor) in bounds; the variable/atom map is replayed at every grid point',
     'Complete for the stated atoms, connectives, depth and sequence length.', assumptions=[REFSEM])
prop('C15', ['c15'], ES + 'conditional elimination of every formula program in bounds; every value of the introduced variables over the candidate values is enumerated',
     'Complete for the stated terms, connectives and depth at the grid points.', assumptions=[REFSEM])
prop('C16', ['c16'], ES + 'weakening and strengthening of every formula program in bounds by several deltas; implication, monotonicity and exact margin compared at every point of a grid refined around the boundary',
     'Complete for the stated atoms, connectives, depth and deltas at the grid points.', assumptions=[REFSEM])
prop('C09', ['c09'], ES + 'free variables, kind tests, structural queries and reassembly of every term reached by BFS compared with a walk over the accessors; evaluation with exactly the reported variables',
     'Complete for the stated alphabet, depth and derived transformations.', assumptions=[REFSEM])
prop('C11', ['c11'], ES + 'every term and formula program in bounds printed in both forms on streams in every listed formatting state; the text is read back by an independent reader and compared with the term at every grid point',
     'Complete for the stated terms, constants, streams and grid. Names with characters outside the grammar and infinite constants are not covered.', assumptions=[REFSEM])

SCHED = 'stateless exploration of the real code under a controlled scheduler: every schedule within the bound is executed (one process each), with vector-clock race detection, use-after-release, leak and deadlock checks on each'
CONC = ['sequentially consistent interleavings at synchronisation-operation granularity; weaker orders are covered through the race detector, which honours the memory orders in the code', 'accesses inside the uninstrumented C++ runtime library are seen only where they go through memcpy, memmove, memset, new and delete']
prop('C17', ['c17'], SCHED + '; results compared with the same operations alone',
     'Complete for the stated scenarios, threads and preemption bound.', assumptions=CONC)
prop('C18', ['c18'], SCHED + '; task runs, results, refusals, concurrency and worker indices checked',
     'Complete for the stated scenarios within the stated preemption and delay bounds.', assumptions=CONC)
SHIM = 'the interval library (IBEX) and the CNF/SAT and LP libraries are not installed: shim/ stands in for IBEX behind the interface the code uses, with outward-rounded interval arithmetic, forward/backward contraction and linearisation; dreal code is compiled as it is'
prop('C19', ['c19'], SCHED + '; the real parallel search (context, solver loop, per-worker contractors and evaluators) over small problems, and short histories of contexts, jobs, pools and interruptions; answers judged against grid points as in C25',
     'Complete for the stated scenarios within the stated preemption or delay bounds; busy waiting is explored under the assumption that the scheduler is fair.', assumptions=CONC + [SHIM, 'libcds is replaced in this check by a stand-in whose stack operations are one atomic step each and which reports use by a thread that is not attached'])
prop('C27', ['c27'], ES + 'every assertion form on every prior interval and variable type, and every short sequence of assertions on one box, executed on the real code; the box left is compared with the points that satisfy the assertion, at every representable neighbour of the ends',
     'Complete for the stated constants, intervals, types, forms and sequence length.', assumptions=[SHIM])
prop('C28', ['c28'], ES + 'every history of box operations over aliasing boxes to a depth, executed on the real class and compared after each step with a plain list of variables and ends; every repeated bisection down to points',
     'Complete for the stated operations, intervals, types and depth.', assumptions=[SHIM])
prop('C37', ['c37'], 'exhaustive enumeration: every expression and comparison of bounded depth evaluated over every box of a list by the real code, compared with the reference value at every grid point of the box',
     'Complete for the stated terms, relations, boxes and grid; an unsound bound between grid points is not seen.', assumptions=[SHIM, REFSEM])
prop('C29', ['c29'], ES + 'every pruning operator and composition in bounds run by the real code from every box of a list (and every branching point); solutions on a grid must survive, and the explanation of an emptied box is judged against the grid',
     'Complete for the stated constraints, compositions, boxes and grid; solutions between grid points are not seen.', assumptions=[SHIM, REFSEM])
prop('C30', ['c30'], ES + 'every history of adding formulas, checking, blocking, pushing and popping to a depth on the real engine, each followed by enumeration of all its models, compared with truth tables',
     'Complete for the stated formulas, operations, settings and depth.')
prop('C34', ['c34'], 'exhaustive enumeration: every numeral up to a length, and numerals at and beside the rounding boundaries of every binary exponent, converted by the real code and compared with exact rationals',
     'Complete for the stated strings; other long numerals are not covered.')

prop('C25', ['c25'], ES + 'every pair of asserted formulas under every bound and configuration of a list, and every triple, solved by the real code; an unsatisfiable answer is judged against every grid point, a model against the asserted formulas read by the reference',
     'Complete for the stated formulas, bounds and configurations; solutions between grid points are not seen. A model that cannot be divided any further in floating point is not judged.', assumptions=[SHIM, REFSEM])
prop('C31', ['c31'], ES + 'every pair and triple of literals over every box and configuration of a list, and every sequence of calls on one solver over changing boxes, run by the real code; explanations are judged against every grid point of the box, models against the literals',
     'Complete for the stated literals, boxes, configurations and sequences; solutions between grid points are not seen.', assumptions=[SHIM, REFSEM])

prop('C26', ['c26'], ES + 'every history of declaring, asserting, pushing, popping, changing bounds and checking to a depth on a real context; every check is judged against every grid point and the reference reading of what is in force, and the last against a fresh context',
     'Complete for the stated operations, constraints, configurations and depth; solutions between grid points are seen only through the fresh context.', assumptions=[SHIM, REFSEM])

prop('C36', ['c36'], ES + 'every body over one free and one quantified variable from a list closed under connectives, with every range, bound and configuration, alone, with other constraints, among other variables and in sequences, solved by the real code; both answers are judged on a grid of the free variable against a fine grid of the range',
     'Complete for the stated bodies, ranges, bounds and configurations; points between grid points are covered by a margin from the slope of the body for unsatisfiable answers, and not seen for models.', assumptions=[SHIM])
prop('C35', ['c35'], ES + 'every objective (and pair of objectives) under every pair of constraints, bound and configuration of a list, through every entry point and in histories of scopes, minimised by the real code and compared with the best grid point',
     'Complete for the stated objectives, constraints, bounds and configurations; better points between grid points are not seen.', assumptions=[SHIM])
prop('C32', ['c32'], ES + 'every script of one construct in every position, every history of commands to a depth, every erroneous script of a list, every numeral and value query, and every goal, executed by the real parser and driver; each printed answer, model and value is judged against the meaning of the script computed by a reference on a grid',
     'Complete for the stated constructs, commands, depth and numerals; points between grid points are covered by a margin from the slope of the formulas for unsatisfiable answers.', assumptions=[SHIM])
prop('C38', ['c38'], ES + 'every sequence of documented options (all spellings, several values) to a length, every class of unacceptable command line and every sequence of options set by a file to a length, run by the real program and context, compared with a table written from the usage text',
     'Complete for the stated options, values, lengths and positions. The library that splits the arguments is not installed; a stand-in written from its documentation takes its place.', assumptions=[SHIM])
prop('C39', ['c39'], ES + 'every relation between two terms of a list, added in every way, every history of objectives, constraints and solving to a depth, every combination of bounds and limits, and every counterexample refinement over conjunctions of a list of atoms, by the real optimiser and refiner against a recorder in place of the optimisation library; what it is handed is evaluated at every grid point and compared with hand-written references',
     'Complete for the stated terms, histories, settings and library results at the grid points. That the library finds a minimum is only sampled (7 convex problems from every grid point).', assumptions=[SHIM])
prop('C33', ['c33'], ES + 'every expression and formula of the native grammar to a depth, every function, every problem of ranges, constraints and goals from lists, and every erroneous file of a list, read and solved by the real parser and driver, against a reference that parses by the stated precedence',
     'Complete for the stated grammar fragments, depth and problems at the grid points.', assumptions=[SHIM])
