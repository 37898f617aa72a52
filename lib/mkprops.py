#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are kept)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=(),
      hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(obs), "hook_needed": hook}})


p("C01", "Expression construction preserves meaning and other live values",
  "Building an expression with the arithmetic operators (binary, compound, "
  "increment and unary forms, with copied, moved or aliased operands), the "
  "elementary functions, min/max/atan2/pow and if-then-else yields a value "
  "that, at every point where the mathematical operation is defined, evaluates "
  "to that operation applied to the values of the operands, whatever "
  "simplification the library performs. Every other expression still held by "
  "the program keeps its value, including those sharing structure with an "
  "operand updated in place.",
  ["inputs", "programs"],
  "every program of construction steps over expression variables, every "
  "ownership mode of the operands, every evaluation point",
  "Tests build a few dozen fixed expressions; simplification, canonical "
  "factories and the in-place update of uniquely owned nodes depend on the "
  "shape and sharing of both operands.",
  [S + "symbolic_expression.cc", S + "symbolic_expression_cell.cc",
   S + "symbolic_expression.h", S + "symbolic_expression_cell.h"],
  [("copy-on-write in-place operators", S + "symbolic_expression.cc"),
   ("ExpressionAddFactory / ExpressionMulFactory canonical sums and products",
    S + "symbolic_expression_cell.cc"),
   ("constant folding and identity rules in the operator functions",
    S + "symbolic_expression.cc")],
  [("ref count of a cell", "decides whether an operand may be reused in place",
    S + "symbolic_expression_cell.h")],
  ["Expression::Evaluate", "Expression::to_string", "Expression::get_kind"])

p("C02", "Substitution, partial evaluation and expansion preserve meaning",
  "Substituting expressions for real variables and formulas for Boolean "
  "variables, simultaneously, gives a result whose value at any point equals "
  "the value of the original at the point the substitution describes; partially "
  "evaluating with an environment equals evaluating in two stages; and "
  "expanding an expression never changes its value. The originals are left "
  "unchanged. (Substitutions that would capture a bound variable are not "
  "claimed.)",
  ["inputs", "programs"],
  "every expression or formula, every substitution (including ones that mention "
  "the substituted variables), every evaluation point",
  "Tests check hand-picked expressions against hand-expanded results; the "
  "visitors recurse over every node kind and rebuild through simplifying "
  "constructors.",
  [S + "symbolic_expression.cc", S + "symbolic_expression_cell.cc",
   S + "symbolic_formula.cc", S + "symbolic_formula_cell.cc"],
  [("Substitute / EvaluatePartial / Expand virtual methods of each cell",
    S + "symbolic_expression_cell.cc"),
   ("ExpandMultiplication / ExpandPow", S + "symbolic_expression_cell.cc")],
  obs=["Expression::Substitute", "Expression::EvaluatePartial",
       "Expression::Expand", "Formula::Substitute"])

p("C03", "Symbolic differentiation is the derivative",
  "Differentiating an expression with respect to a variable yields an "
  "expression whose value is the mathematical partial derivative at every point "
  "where the differentiation rules have a value; expressions that do not "
  "contain the variable have derivative zero. Kinds without a derivative "
  "(absolute value, minimum, maximum, if-then-else over the variable) may be "
  "refused with an exception.",
  ["inputs"],
  "every expression built from the supported functions, every variable and "
  "every point inside the domain of differentiability",
  "Tests compare a fixed list of derivatives; chain, product, quotient and "
  "power rules interact with the canonical sum/product maps in combinations "
  "they do not sample.",
  [S + "symbolic_expression_cell.cc", S + "symbolic_expression.cc",
   "dreal/util/differentiation.h", "dreal/symbolic/symbolic.cc"],
  [("Differentiate of each cell", S + "symbolic_expression_cell.cc")],
  obs=["Expression::Differentiate"])

p("C04", "Formula construction preserves truth and free variables",
  "Comparisons, the connectives (with copied, moved or aliased operands), "
  "conjunctions and disjunctions of collections, implication, equivalence and "
  "universal quantification build formulas whose truth value at every point is "
  "the one the logical operation prescribes, and other formulas held by the "
  "program are not affected. The free variables reported for an expression or "
  "formula are exactly the variables occurring in it that are not bound by a "
  "quantifier.",
  ["inputs", "programs"],
  "every program of formula-building steps, every truth assignment and point",
  "Tests evaluate a few formulas at a few points; flattening, deduplication, "
  "constant folding and in-place reuse depend on the operands' shape, order "
  "and sharing.",
  [S + "symbolic_formula.cc", S + "symbolic_formula_cell.cc",
   "dreal/symbolic/symbolic.cc"],
  [("make_conjunction / make_disjunction flattening",
    S + "symbolic_formula.cc"),
   ("relational operators folding constants", S + "symbolic_formula.cc"),
   ("free-variable computation in the cells' constructors",
    S + "symbolic_formula_cell.cc")],
  obs=["Formula::Evaluate", "Formula::GetFreeVariables",
       "Expression::GetVariables"])

p("C05", "Equality, hash and order on symbolic values are consistent",
  "Structural equality is an equivalence, equal values have equal hashes, and "
  "the ordering used by sorted containers is a strict total order whose "
  "incomparability relation is exactly structural equality, over all "
  "expressions and over all formulas a program can build from finite "
  "constants. Building the same value twice by the same operations, whether "
  "operands are copied or moved, gives equal results, and the two orders of "
  "the operands of a sum, product, conjunction or disjunction give equal "
  "results (products and rebuilding: in the absence of powers of powers, whose "
  "merging depends on the order).",
  ["inputs"],
  "all pairs and triples of expressions and formulas",
  "Every sum, product, conjunction and hash table relies on these laws over "
  "arbitrary pairs and triples; tests compare selected pairs.",
  [S + "symbolic_expression_cell.cc", S + "symbolic_formula_cell.cc",
   S + "symbolic_expression.cc", S + "symbolic_formula.cc",
   S + "hash.h", S + "symbolic_variable.h", S + "symbolic_variables.cc"],
  [("EqualTo / Less / GetHash of each cell", S + "symbolic_expression_cell.cc"),
   ("kind order and hash short-cut", S + "symbolic_expression.cc")],
  obs=["Expression::EqualTo", "Expression::Less", "Expression::get_hash",
       "Formula::EqualTo", "Formula::Less", "Formula::get_hash"])

p("C06", "Negation normal form is equivalent and normal",
  "Converting a formula to negation normal form, with or without replacing "
  "negated comparisons by their duals, yields a formula with the same truth "
  "value at every point in which negation is applied only to atoms (to Boolean "
  "variables and quantified formulas alone when comparisons are converted).",
  ["inputs"], "every formula, both conversion modes, every truth assignment",
  "Tests check a few shapes by structural comparison.",
  ["dreal/util/nnfizer.cc", "dreal/util/nnfizer.h"],
  [("Nnfizer visitor with polarity flag", "dreal/util/nnfizer.cc")],
  obs=["Nnfizer::Convert"])

p("C07", "Clausal conversions preserve satisfaction",
  "The naive clausal conversion yields an equivalent conjunction of clauses. "
  "The Tseitin conversion, of a formula without nested quantifiers, yields "
  "a conjunction of clauses that has exactly one extension to the auxiliary "
  "variables occurring in it for, and only for, each assignment satisfying "
  "the input, and the auxiliary-variable map it reports defines "
  "each introduced variable; conversions may be repeated on one converter "
  "without affecting each other.",
  ["inputs", "histories"],
  "every formula without and with quantifiers, every truth assignment, every "
  "sequence of conversions on one converter",
  "Tests compare output strings or solve a few instances; the guarantee is "
  "about all assignments and all auxiliary extensions.",
  ["dreal/util/naive_cnfizer.cc", "dreal/util/tseitin_cnfizer.cc"],
  [("distribution of disjunctions over conjunctions",
    "dreal/util/naive_cnfizer.cc"),
   ("Cnfize of each definition in the map", "dreal/util/tseitin_cnfizer.cc")],
  [("map_", "auxiliary variable -> definition",
    "dreal/util/tseitin_cnfizer.h")],
  ["NaiveCnfizer::Convert", "TseitinCnfizer::Convert", "TseitinCnfizer::map"])

p("C08", "If-then-else elimination is equisatisfiable and complete",
  "Eliminating if-then-else terms yields a formula without them that has, for "
  "each point satisfying the input, an extension to the reported auxiliary "
  "variables satisfying it, and none for the points falsifying the input. The "
  "reported set of introduced variables includes every variable the result has "
  "free beyond the input and none of the input's, a formula without "
  "if-then-else and quantifiers is returned unchanged by a fresh eliminator, "
  "and repeated uses of one eliminator stay correct.",
  ["inputs", "histories"],
  "every formula with nested if-then-else terms, under and outside "
  "quantifiers; every sequence of uses of one eliminator",
  "Tests check that the result contains no if-then-else and a few solver runs.",
  ["dreal/util/if_then_else_eliminator.cc"],
  [("guarded definitions added as conjuncts",
    "dreal/util/if_then_else_eliminator.cc")],
  [("added_formulas_", "definitions of the introduced variables",
    "dreal/util/if_then_else_eliminator.h"),
   ("ite_variables_", "introduced variables",
    "dreal/util/if_then_else_eliminator.h")],
  ["IfThenElseEliminator::Process", "IfThenElseEliminator::variables"])

p("C09", "Predicate abstraction is a faithful Boolean skeleton",
  "Abstracting a formula replaces each theory atom by a Boolean variable so "
  "that substituting the atoms back gives an equivalent formula; equal atoms "
  "always get the same variable and different atoms different ones, over the "
  "whole history of one abstractor, and the abstraction and concretisation "
  "lookups are inverse to each other.",
  ["inputs", "histories"],
  "every formula and every sequence of conversions on one abstractor",
  "Tests abstract two or three formulas; the map is stateful across calls.",
  ["dreal/util/predicate_abstractor.cc", "dreal/util/predicate_abstractor.h"],
  [("var_to_formula_map_ / formula_to_var_map_",
    "dreal/util/predicate_abstractor.h")],
  obs=["PredicateAbstractor::Convert", "PredicateAbstractor::operator[]"])

p("C10", "Delta-strengthening strengthens, delta-weakening weakens",
  "For every positive delta and quantifier-free formula, the "
  "delta-strengthened form of a formula implies "
  "the formula and the formula implies its delta-weakened form at every point; "
  "each comparison of the result differs from the original by exactly delta in "
  "the direction required by its polarity.",
  ["inputs"], "every formula, every delta, every point",
  "Tests compare four relational shapes structurally.",
  ["dreal/symbolic/symbolic.cc", "dreal/symbolic/symbolic.h"],
  [("DeltaStrengthenVisitor with sign flip under negation",
    "dreal/symbolic/symbolic.cc")],
  obs=["DeltaStrengthen", "DeltaWeaken"])

p("C11", "Scoped containers restore exactly on pop",
  "After any sequence of insertions and nested pushes and pops, the scoped "
  "vector, map and set hold exactly what a full copy saved at the matching push "
  "would hold, reads agree with that content, popping without a matching push "
  "is refused without effect, and copies are independent.",
  ["histories"], "every sequence of operations and every nesting of scopes",
  "Tests run a couple of scripted histories; the undo logs interact across "
  "overwritten keys and nested scopes.",
  ["dreal/util/scoped_vector.h", "dreal/util/scoped_unordered_map.h",
   "dreal/util/scoped_unordered_set.h"],
  [("undo log replayed backwards on pop", "dreal/util/scoped_unordered_map.h"),
   ("size stack", "dreal/util/scoped_vector.h")],
  [("actions_/stack_", "undo log and its scope marks",
    "dreal/util/scoped_unordered_map.h")],
  ["iteration", "operator[]", "count", "find", "size"])

p("C12", "Options obey source precedence",
  "A configuration option's value is the one set by the strongest source that "
  "has set it (explicit setting in code over command line over file over "
  "default), the latest setting winning among equal sources, independently for every option and "
  "every copy of a configuration.",
  ["histories", "configurations"],
  "every interleaving of settings of every option from every source",
  "Tests set a handful of options in fixed orders.",
  ["dreal/util/option_value.h", "dreal/solver/config.h",
   "dreal/solver/config.cc"],
  [("type tag comparison in set_from_*", "dreal/util/option_value.h")],
  [("type_", "source of the current value", "dreal/util/option_value.h")],
  ["OptionValue::get", "Config getters"])

p("C13", "Timers measure exactly the running intervals",
  "A timer reports the sum of the intervals during which it was running: "
  "starting restarts from zero, pausing stops accumulation, resuming continues "
  "it, redundant pauses and resumes change nothing, and a guard runs its timer "
  "during its own lifetime between its construction (if asked to start) and "
  "destruction, only if enabled and leaving the timer paused afterwards.",
  ["histories"], "every sequence of timer and guard operations",
  "Tests sleep once or twice with tolerance.",
  ["dreal/util/timer.h", "dreal/util/timer.cc"],
  [("last_start_/elapsed_ bookkeeping", "dreal/util/timer.cc")],
  [("running_", "whether time accumulates", "dreal/util/timer.h")],
  ["Timer::seconds", "Timer::elapsed", "Timer::is_running"])

p("C14", "The thread pool runs every accepted task exactly once",
  "Every task handed to a live thread pool is executed exactly once and its "
  "future yields its result or its exception; tasks start in submission order, "
  "at most as many run at once as there are workers, submission to a stopped "
  "pool is refused, and destroying the pool terminates after all accepted tasks "
  "have run. Worker identifiers stay within the pool's size and are unique "
  "among the workers of a pool.",
  ["schedules"], "every interleaving of submitters, workers and destruction",
  "Tests run one schedule of the machine; lost wake-ups and dropped tasks need "
  "specific interleavings.",
  ["third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h",
   "third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc"],
  [("mutex + condition variable around the queue",
    "third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h")],
  [("tasks", "queue of accepted tasks", "ThreadPool.h"),
   ("stop", "shutdown flag", "ThreadPool.h")],
  ["futures", "task side effects"])

p("C15", "Variable sets, environments and identities behave as mathematics says",
  "Variables created separately are distinct and keep their name and type; sets "
  "of variables implement union, difference, intersection, membership and "
  "inclusion exactly; environments map each variable to the value given when it "
  "was first inserted or last assigned, refuse to insert dummy variables and "
  "NaN, and none of these operations affects "
  "other live sets or environments.",
  ["histories"], "every sequence of set and environment operations",
  "Tests use three variables and fixed operations.",
  [S + "symbolic_variable.cc", S + "symbolic_variables.cc",
   S + "symbolic_environment.cc"],
  [("shared copy-on-write representation", S + "symbolic_variables.cc"),
   ("global identifier counter", S + "symbolic_variable.cc")],
  obs=["Variables operators", "Environment::insert/find/operator[]",
       "Variable::get_id"])

p("C16", "Prefix (SMT-LIB) printing round-trips",
  "The prefix form of an expression or formula is a well-formed s-expression "
  "whose SMT-LIB reading has the same value or truth at every point, with "
  "finite numeric constants printed precisely enough to be read back as the same "
  "number.",
  ["inputs"], "every expression and formula, every constant",
  "Tests compare a few printed strings.",
  ["dreal/symbolic/prefix_printer.cc"],
  [("PrefixPrinter visitor", "dreal/symbolic/prefix_printer.cc")],
  obs=["ToPrefix"])

p("C17", "SMT-LIB value types keep and classify what they were given",
  "Sorts, logics and commands round-trip: recognised names map to the intended "
  "value and print back as such, unrecognised ones are refused, commands print "
  "what they were built from. A parsed term yields an expression or a formula "
  "exactly when it holds one and keeps its value under copying and assignment; "
  "checks of a term against a sort or a variable type accept exactly the "
  "matching ones; and substituting a term for a variable of the matching kind "
  "gives a term with the meaning of the substitution.",
  ["inputs", "histories"], "every name, value and sequence of assignments",
  "Only a smoke test or none exists for these types.",
  ["dreal/smt2/sort.cc", "dreal/smt2/logic.cc", "dreal/smt2/term.cc",
   "dreal/smt2/command.cc", "dreal/smt2/command_cell.cc"],
  [("Term check and substitution", "dreal/smt2/term.cc"),
   ("parse_sort / parse_logic", "dreal/smt2/sort.cc")],
  obs=["Term::expression", "Term::formula", "Term::Substitute", "ParseSort",
       "parse_logic", "operator<<"])

p("C18", "Classification helpers tell the truth",
  "The helpers that classify or decompose formulas and expressions (kind, "
  "atomic, clause, CNF, clauses of a conjunction, differentiability, "
  "polynomial, if-then-else inside, variable-set intersection, "
  "negation of a comparison operator) answer exactly according to the shape "
  "of what they are given, and the implication/equivalence helpers "
  "denote those connectives.",
  ["inputs"], "every formula, expression and set of variables",
  "Tests try a handful of shapes per helper.",
  ["dreal/symbolic/symbolic.cc", "dreal/symbolic/symbolic.h"],
  [("is_atomic/is_clause/is_cnf/get_clauses/HaveIntersection/"
    "IsDifferentiable", "dreal/symbolic/symbolic.cc")],
  obs=["return values"])

p("C19", "Scoped guards restore the saved setting",
  "A guard for the output precision, the floating-point rounding mode or a "
  "signal handler installs its setting for its lifetime and on destruction "
  "restores the setting found at its construction, under every nesting and "
  "every way of leaving the scope; the number-conversion helpers return the "
  "exact value or refuse.",
  ["histories"], "every nesting of guards and every prior setting",
  "Tests nest at most once.",
  ["dreal/util/precision_guard.h", "dreal/util/rounding_mode_guard.h",
   "dreal/util/signal_handler_guard.cc", "dreal/util/math.cc",
   "dreal/util/interrupt.cc"],
  [("save in constructor, restore in destructor",
    "dreal/util/rounding_mode_guard.h")],
  obs=["fegetround", "stream precision", "sigaction"])

p("C20", "Satisfiability answers are right",
  "Asked for a set of constraints over bounded variables (real, integer, "
  "binary, Boolean), the solver answers unsat only if no assignment satisfies "
  "them, and otherwise gives a model: a non-empty interval inside its domain for "
  "each declared variable and no other, a single integral value for integer and "
  "Boolean variables, in which every constraint holds up to the chosen "
  "precision delta. This holds for every combination of connectives, "
  "comparisons, if-then-else terms, elementary functions where they are "
  "defined, and repeated, trivial or contradictory assertions, however far "
  "from zero the integers lie; and the search ends with an answer.",
  ["inputs"], "every set of constraints",
  "Tests ask for the answer of a few hand-written problems; nothing relates "
  "the answer to the truth of the constraints in general.",
  ["dreal/solver/context_impl.cc", "dreal/solver/theory_solver.cc",
   "dreal/solver/sat_solver.cc", "dreal/solver/icp_seq.cc"],
  [("CheckSatCore: the SAT/theory loop", "dreal/solver/context_impl.cc"),
   ("branch and prune", "dreal/solver/icp_seq.cc"),
   ("explanations", "dreal/contractor/contractor_status.cc")],
  obs=["Context::CheckSat", "Context::get_model"])

p("C21", "Scopes: push, pop and repeated checks do not change the answers",
  "At any point of a history of declarations, assertions, pushes, pops and "
  "checks, a check answers for exactly the constraints and variables that are "
  "in the open scopes: what was asserted, declared or learned in a closed "
  "scope, or by an earlier check, has no effect, and nothing of an open scope "
  "is lost.",
  ["histories"], "every history of scope operations and checks",
  "Tests push and pop once; leftovers of a closed scope only show in "
  "particular orders of operations.",
  ["dreal/solver/context_impl.cc", "dreal/solver/sat_solver.cc",
   "dreal/util/scoped_vector.h"],
  [("Push/Pop of boxes, stack and SAT solver",
    "dreal/solver/context_impl.cc"),
   ("Push/Pop", "dreal/solver/sat_solver.cc")],
  obs=["Context::CheckSat", "Context::Push", "Context::Pop"])

p("C22", "Search options, parallelism and quantifiers keep answers right",
  "Whatever search options are chosen (number of jobs, polytope contraction, "
  "worklist fixpoint, branching order, SAT phase, random seed, local "
  "optimisation, precision), and with universally quantified constraints over "
  "bounded real variables (without if-then-else terms) among the others, an "
  "unsat answer is never given where a solution exists, and a model satisfies "
  "every constraint up to the precision. Input that a mode does not support "
  "is refused, not answered.",
  ["inputs", "schedules", "histories"],
  "every problem, every combination of options, every thread schedule",
  "Options are tested one at a time on single problems.",
  ["dreal/solver/icp_parallel.cc", "dreal/contractor/contractor_forall.h",
   "dreal/solver/forall_formula_evaluator.cc"],
  [("parallel branch and prune", "dreal/solver/icp_parallel.cc"),
   ("counterexample-guided pruning", "dreal/contractor/contractor_forall.h")],
  obs=["Context::CheckSat"])

p("C23", "Pruning keeps solutions, only shrinks, and explains conflicts",
  "Every contractor (forward-backward, polytope, integer, sequence, "
  "fixpoint, worklist fixpoint, join), applied to a box, gives a box inside it "
  "that still holds every solution of its constraints; it reports every "
  "dimension it changed; when it empties the box, the constraints it reports "
  "as used have no common solution in the starting box; fixpoints stop. An "
  "evaluator answers VALID only if every point of the box satisfies the "
  "constraint and UNSAT only if none does; otherwise its error box bounds the "
  "violation.",
  ["inputs", "configurations"],
  "every constraint, box and combination of contractors",
  "Tests prune one or two boxes per contractor.",
  ["dreal/contractor/", "dreal/solver/formula_evaluator.cc"],
  [("Contractor::Prune and ContractorStatus", "dreal/contractor/contractor.h"),
   ("FormulaEvaluator", "dreal/solver/formula_evaluator.h")],
  obs=["Contractor::Prune", "Context::CheckSat"])

p("C24", "A box is a map from variables to intervals, with independent copies",
  "A box holds exactly the variables added to it, in that order, each with the "
  "interval last given to it (or the default of its type), however it is "
  "accessed (position, variable, interval vector); copies are independent of "
  "the original whatever is done to either; bisection gives two smaller boxes "
  "that cover the box and share at most the splitting point (and, for integer "
  "variables, lose no integer and share none), changing no other dimension; "
  "union gives the least box containing both; the widest dimension is the "
  "first of maximal width among those that can be bisected; equality compares "
  "variables and intervals.",
  ["histories"], "every sequence of operations on several boxes",
  "Tests check single operations on one or two boxes.",
  ["dreal/util/box.cc", "dreal/util/box.h"],
  [("Box, copy on write of the variable maps", "dreal/util/box.cc")],
  obs=["Box accessors"])

p("C25", "Bounds asserted on a variable restrict the box exactly",
  "Turning an assertion into bounds of a box never removes a solution of the "
  "assertion and never enlarges the box; the assertion is reported as absorbed "
  "only if the resulting box contains exactly its solutions (up to the "
  "floating-point grid), as unchanged only if nothing changed, and any other "
  "assertion leaves the box alone. This holds for both orientations, "
  "both polarities, strict and non-strict comparisons, exact and inexact "
  "constants, fractional bounds on integer variables, and boxes that become "
  "empty.",
  ["inputs", "histories"], "every bound, box and sequence of bounds",
  "Tests cover each comparison once, on one continuous variable.",
  ["dreal/solver/filter_assertion.cc"],
  [("UpdateLowerBound / UpdateUpperBound and their strict forms",
    "dreal/solver/filter_assertion.cc")],
  obs=["FilterAssertion"])

p("C26", "A script is answered as its commands, names and scopes mean",
  "An SMT-LIB script (declarations with bounds, functions with and without "
  "parameters, assertions with simultaneous and shadowing let, conditionals, "
  "n-ary operators, quantifiers, literals in every notation, push/pop of "
  "several scopes, options) gets the answers its translation to core formulas "
  "deserves: unsat only if there is no solution, delta-sat only with a model of "
  "the weakened problem. get-model prints exactly the declared and defined "
  "symbols with their sorts and values, get-value the values of its terms in "
  "that model, get-option the last value set; comments and information change "
  "nothing; nothing after exit is read; a script read at once is answered like "
  "its commands one by one. A .dr problem is read with the usual precedences.",
  ["inputs", "histories"], "every script",
  "Tests run a fixed list of scripts, which need the complete solver.",
  ["dreal/smt2/parser.yy", "dreal/smt2/scanner.ll", "dreal/smt2/driver.cc",
   "dreal/dr/parser.yy", "dreal/dr/scanner.ll", "dreal/dr/driver.cc"],
  [("Smt2Driver", "dreal/smt2/driver.cc"),
   ("grammar", "dreal/smt2/parser.yy")],
  obs=["dreal --in", "Smt2Driver::parse_string"])

p("C27", "Solver contexts of one program do not influence each other",
  "Contexts that are alive at the same time, each with its own options "
  "(including the number of jobs), declarations, assertions and scopes, and "
  "used alternately, each give the answers they would give alone: unsat only "
  "if the context's own constraints have no solution, and otherwise a model "
  "of its own variables that satisfies its own constraints up to its own "
  "precision.",
  ["histories", "schedules"], "every interleaving of two histories",
  "Tests use one context at a time and one worker.",
  ["dreal/solver/context_impl.cc", "dreal/solver/icp_parallel.cc",
   "third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h"],
  [("get_thread_id", "third_party/com_github_progschj_threadpool/ThreadPool/"
    "ThreadPool.h"),
   ("ctc_ready_ / contexts_ indexed by worker",
    "dreal/contractor/contractor_ibex_fwdbwd_mt.cc")],
  obs=["Context::CheckSat"])

p("C28", "Minimize and Maximize return optimal solutions",
  "After Minimize(f) or Maximize(f) a check answers delta-sat with a solution "
  "whose objective no other solution (one that satisfies the constraints with "
  "a margin) improves on by more than a few delta; with several objectives no "
  "such solution improves on all of them. Integer, binary and Boolean "
  "variables and the ends of their domains count. A problem with closed "
  "constraints on a bounded domain that has a solution is not answered unsat. "
  "The goal belongs to its scope: a pop takes it back, an outer goal stays.",
  ["inputs", "histories"], "every objective, problem and history",
  "Tests minimise a few functions of real variables, which need the complete "
  "solver.",
  ["dreal/solver/context_impl.cc", "dreal/solver/context.cc",
   "dreal/api/api.cc"],
  [("Context::Impl::Minimize", "dreal/solver/context_impl.cc"),
   ("Context::Maximize", "dreal/solver/context.cc")],
  obs=["Context::Minimize", "Context::Maximize", "dreal::Minimize"])

p("C29", "Infix printing denotes the value",
  "The infix text of an expression or a quantifier-free formula, written to a "
  "stream of full precision (17 digits), read with the conventional "
  "precedences, has the value or truth of what was printed at every point, and "
  "its numerals are read back as exactly the constants that were printed.",
  ["inputs"], "every expression and formula",
  "Tests compare a few printed strings; signs, coefficients and exponents "
  "combine in more ways.",
  ["third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
   "symbolic_expression_cell.cc",
   "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
   "symbolic_formula_cell.cc"],
  [("ExpressionAdd::Display, ExpressionMul::Display",
    "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
    "symbolic_expression_cell.cc")],
  obs=["operator<<(ostream&, Expression)", "operator<<(ostream&, Formula)"])

p("C30", "Evaluation refuses points where an operation is undefined",
  "Evaluating an expression or comparison at a point where a logarithm, square "
  "root, arc sine or cosine, division, or power of a negative base with a "
  "fractional exponent that has to be evaluated is undefined, or a needed "
  "variable has no value, ends in an exception, never in a number, NaN or a "
  "truth value; where everything needed is defined it is not refused, whether "
  "the variables get their values from an environment, by partial evaluation "
  "or by substitution (a branch of an if-then-else that is not selected is not "
  "needed).",
  ["inputs"], "every expression and every point",
  "Tests evaluate each function at one point outside its domain, alone; not at "
  "the ends of the domains, and not inside products, branches and comparisons.",
  ["third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
   "symbolic_expression_cell.cc"],
  [("check_domain, DoEvaluate, ExpressionMul::Evaluate",
    "third_party/com_github_robotlocomotion_drake/dreal/symbolic/"
    "symbolic_expression_cell.cc")],
  obs=["Expression::Evaluate", "Expression::EvaluatePartial",
       "Formula::Evaluate"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
