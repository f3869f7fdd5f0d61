#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where both are described)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), tech="", note="", hook=None):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)),
        tech=tech, note=note))


LVL = "Random exploration: the absence of a violation on the generated cases, no proof. "
CORE = ["src/Solver.cpp", "src/Conflict_analysis.cpp", "src/Trail.cpp", "src/Subsumption.cpp",
        "src/bool/Bool_theory.cpp", "src/lra/Linear_arithmetic.cpp", "src/lra/Bounds.cpp",
        "src/lra/Lra_conflict_analysis.cpp", "src/lra/Linear_constraints.h",
        "src/parser/Solver_wrapper.cpp", "src/parser/Smt2_term_parser.cpp", "src/terms/Term_manager.cpp"]

prop("C01", "QF_LRA verdicts are correct",
     "For every QF_LRA script that the solver accepts, it answers sat only if the conjunction of the assertions has a "
     "model and unsat only if it has none.",
     ["inputs"], "every set of Boolean/linear-real-arithmetic assertions in the accepted SMT-LIB fragment, of any size, "
     "with any rational constants",
     "The tests run a few fixed formulas; wrong verdicts need particular interactions of propagation, conflict analysis, "
     "learning, restarts and arithmetic bounds that no fixed list covers.",
     CORE,
     [("MCSAT loop", "src/Solver.cpp Solver::check"), ("conflict analysis", "src/Conflict_analysis.cpp"),
      ("bound maintenance and bound/inequality/disequality conflicts", "src/lra/Bounds.cpp, src/lra/Linear_arithmetic.cpp, src/lra/Lra_conflict_analysis.cpp"),
      ("clausification", "src/parser/Solver_wrapper.cpp")],
     [("trail", "decisions and propagations by level", "src/Trail.h"), ("bounds", "implied bounds of real variables", "src/lra/Bounds.h")],
     ["stdout of the smt program", "parser::Smt2_parser with a listener on the answer"],
     "property-based testing: structured SMT-LIB generators, differential oracle (exact witness evaluation, z3 as witness finder) and planted verdicts",
     LVL + "A reported wrong unsat comes with a model checked by exact evaluation; a reported wrong sat with a refutation by construction or by z3 of an instance whose printed model is also wrong. Trusts GMP and, for wrong sat on unplanted instances, z3.")

prop("C02", "QF_LRA models satisfy every assertion",
     "Whenever the solver answers sat for a QF_LRA script and the model is requested, the printed model defines every "
     "constant that occurs in the assertions with a value of its sort, and evaluating all assertions in it exactly yields true.",
     ["inputs"], "every satisfiable QF_LRA script in the accepted fragment followed by (get-model)",
     "Tests look at verdicts or at single values; whether the values fulfil the original (not the clausified) assertions depends "
     "on every simplification on the way and on the exactness of all rational arithmetic.",
     CORE + ["src/parser/Smt2_parser.cpp", "src/Yaga.cpp"],
     [("decided values respect bounds", "src/lra/Linear_arithmetic.cpp decide"), ("model extraction and printing", "src/parser/Solver_wrapper.cpp model, src/parser/Smt2_parser.cpp"),
      ("clausification", "src/parser/Solver_wrapper.cpp")],
     [("model", "values of the solver's variables", "src/Model.h")],
     ["the (get-model) output of the smt program"],
     "property-based testing: structured SMT-LIB generators, printed model parsed back and evaluated exactly over the generated assertions",
     LVL + "The oracle is an exact rational evaluator (GMP) over the harness's own AST of the script.")

prop("C03", "QF_UFLRA verdicts are correct",
     "For every QF_UFLRA script that the solver accepts, including functions with Bool arguments or results and nested "
     "applications, it answers sat only if the assertions have a model and unsat only if they have none.",
     ["inputs"], "every set of assertions over reals, Booleans and uninterpreted functions in the accepted fragment",
     "The tests contain a handful of congruence examples; the function plugin's lemmas fire in an order which depends on the "
     "trail, so that missing or wrong lemmas show only on certain histories.",
     ["src/uf/Uninterpreted_functions.cpp", "src/Theory_combination.cpp"] + CORE,
     [("functional consistency lemmas", "src/uf/Uninterpreted_functions.cpp"), ("purification of applications", "src/parser/Solver_wrapper.cpp"),
      ("order of the theories' propagation", "src/Theory_combination.cpp")],
     [("application watch lists", "which variables trigger re-evaluation of an application", "src/uf/Uninterpreted_functions.h")],
     ["stdout of the smt program", "parser::Smt2_parser with a listener on the answer"],
     "property-based testing: structured SMT-LIB generators with uninterpreted functions, differential oracle and planted verdicts",
     LVL + "Same certification of alarms as C01.")

prop("C04", "QF_UFLRA models satisfy every assertion",
     "Whenever the solver answers sat for a QF_UFLRA script and the model is requested, the printed model contains a total "
     "definition for each function that is applied and a value for each constant that occurs, and all assertions evaluate to true under it.",
     ["inputs"], "every satisfiable QF_UFLRA script in the accepted fragment followed by (get-model)",
     "Tests never evaluate a printed function definition; function tables are built from the final trail of one search.",
     ["src/uf/Uninterpreted_functions.cpp", "src/parser/Solver_wrapper.cpp", "src/parser/Smt2_parser.cpp", "src/Yaga.cpp"] + CORE[:8],
     [("function tables of the model", "src/uf/Uninterpreted_functions.cpp get_model"), ("functional consistency lemmas", "src/uf/Uninterpreted_functions.cpp"),
      ("model printing", "src/parser/Smt2_parser.cpp")],
     [("function values", "table of argument values to result", "src/uf/Uninterpreted_functions.h")],
     ["the (get-model) output of the smt program"],
     "property-based testing: structured SMT-LIB generators with uninterpreted functions, printed function tables parsed back and evaluated exactly",
     LVL + "The oracle is an exact evaluator over the harness's own AST of the script.")

prop("C05", "Answers do not depend on heuristic options",
     "For every combination of the documented command-line options (initial phase, phase caching, theory-only "
     "rational propagation, bound deduction, and so on) the verdict for a script stays correct and the printed model stays a model.",
     ["inputs", "configurations"], "every accepted script combined with every setting of the options",
     "The tests use default options only; each option reroutes decisions or propagations.",
     ["src/Options.h", "src/smt_solver.cpp", "src/Solver.cpp", "src/bool/Bool_theory.cpp", "src/lra/Linear_arithmetic.cpp", "src/Yaga.cpp"],
     [("option handling", "src/Options.h, src/Yaga.cpp"), ("phase selection", "src/bool/Bool_theory.cpp decide"),
      ("propagation of rational variables and deduced bounds", "src/lra/Linear_arithmetic.cpp")],
     [], ["stdout of the smt program run with options"],
     "property-based testing: scripts and option vectors generated together, same oracles as C01-C04",
     LVL + "Same certification of alarms as C01.")

prop("C06", "Rational and integer arithmetic is exact",
     "Every arithmetic operation, comparison, conversion and hash of the rational and integer number types gives the exact "
     "mathematical result in lowest terms for all operands, in the word-sized and in the arbitrary-precision representation alike.",
     ["inputs"], "all pairs of rationals/integers, in particular around the limits of the word-sized representation",
     "A pair of operands is one of more than 2^128; overflow and normalisation errors sit on thin boundaries.",
     ["src/lra/Long_fraction.h", "src/lra/Long_fraction.cpp", "src/lra/Fraction.h", "src/lra/Rational.h"],
     [("overflow detection and fallback to GMP", "src/lra/Long_fraction.cpp"), ("normalisation by gcd", "src/lra/Long_fraction.h, src/lra/Fraction.h")],
     [("word / mpq representation", "which of the two holds the value", "src/lra/Long_fraction.h")],
     ["Rational, Integer and Fraction operators"],
     "property-based testing: boundary-biased operand generators, differential oracle (GMP mpq/mpz) and algebraic laws",
     LVL + "GMP is the reference.")

prop("C07", "The DIMACS program answers correctly",
     "For every well-formed DIMACS CNF file the sat program prints SAT exactly when the formula is satisfiable and UNSAT exactly when it is not "
     "(with the matching exit status), whatever the layout of the file (comments, line breaks, repeated literals, tautologies, empty and duplicate clauses); "
     "a file with a malformed clause section is reported as an error and gets no verdict.",
     ["inputs"], "every CNF over any number of variables, in every layout the format allows",
     "The tests have a few fixed formulas and no malformed files; verdicts depend on the interplay of learning, restarts, subsumption and phase selection.",
     ["src/sat_solver.cpp", "src/Solver.cpp", "src/bool/Bool_theory.cpp", "src/Conflict_analysis.cpp", "src/Subsumption.cpp", "src/variable_order/Evsids.cpp", "src/Restart.h", "src/utils/Utils.cpp"],
     [("DIMACS reader", "src/sat_solver.cpp, src/utils/Utils.cpp"), ("CDCL loop", "src/Solver.cpp Solver::check")],
     [("clause database", "asserted and learned clauses", "src/Database.h")],
     ["stdout, stderr and exit status of the sat program"],
     "property-based testing: structured CNF generators and file mutations, differential oracle (DPLL written for the harness, z3 beyond its limits), planted verdicts",
     LVL + "The program's main is linked (renamed) into the harness and run in a forked worker.")

prop("C08", "The SAT core is correct in every configuration",
     "For every clause set and every combination of phase strategy, restart policy and variable order, Solver::check answers sat exactly when the clauses are "
     "satisfiable, a sat answer leaves a total model of all clauses on the trail, and asserting more clauses and checking again is answered like a fresh solver would, "
     "with counters (learned clauses, restarts) describing the last check.",
     ["inputs", "configurations", "histories"], "every clause set, configuration, and sequence of assert/check steps",
     "The tests use one configuration each and tiny formulas; errors in the learning/restart/backtracking interplay need many conflicts.",
     ["src/Solver.cpp", "src/Solver.h", "src/bool/Bool_theory.cpp", "src/Conflict_analysis.cpp", "src/Subsumption.cpp", "src/Trail.cpp", "src/Restart.h",
      "src/variable_order/Evsids.cpp", "src/variable_order/Generalized_vsids.cpp", "src/variable_order/First_unassigned.cpp"],
     [("search loop", "src/Solver.cpp Solver::check"), ("restart", "src/Solver.cpp Solver::restart"), ("reset between checks", "src/Solver.cpp Solver::init")],
     [("trail", "assignments by level", "src/Trail.h")], ["yaga::Solver::check, trail, db, counters"],
     "property-based (model-based, stateful) testing: clause-set and configuration generators, differential oracle (DPLL/z3), exact evaluation of models",
     LVL)

prop("C09", "Learned clauses are implied, false and asserting",
     "Every clause the solver learns is implied by the asserted clauses, is false on the trail when it is learned, has its literals ordered by level with exactly one "
     "literal at the highest level, contains no literal twice, and is not already subsumed by a known clause.",
     ["inputs", "configurations", "histories"], "every propositional search, at every conflict",
     "A learned clause that is too strong changes verdicts only if the search later depends on it; tests see at most a handful of conflicts.",
     ["src/Conflict_analysis.cpp", "src/Solver.cpp", "src/Subsumption.cpp", "src/bool/Bool_theory.cpp"],
     [("resolution up to the first UIP", "src/Conflict_analysis.cpp"), ("clause minimisation", "src/Subsumption.cpp minimize"), ("learning", "src/Solver.cpp Solver::learn")],
     [], ["Event_listener::on_learned_clause"],
     "property-based testing: whole searches are monitored; implication of each learned clause is decided by a DPLL written for the harness",
     LVL)

prop("C10", "Simplification of clauses keeps their meaning",
     "On restart, exactly those learned clauses which a kept learned clause subsumes are removed (asserted clauses stay), and minimising a conflict clause removes "
     "exactly literals which can be resolved away with the reasons on the trail, so that the result is still implied and no redundant literal is left.",
     ["inputs", "histories"], "every set of learned clauses, and every trail with reasons and conflict clause",
     "Which clauses meet depends on signatures, watch choices and order of learning; the tests fix two or three sets.",
     ["src/Subsumption.cpp", "src/Subsumption.h", "src/Database.h"],
     [("subsumption with signatures", "src/Subsumption.cpp"), ("recursive redundancy test", "src/Subsumption.cpp minimize, is_redundant")],
     [], ["yaga::Subsumption::on_restart, on_learned_clause, minimize; Database::learned"],
     "property-based testing against reference implementations (quadratic subsumption, recursive redundancy on the implication graph)", LVL)

prop("C11", "Trail and models record assignments faithfully",
     "After every sequence of decisions, propagations (also below the current level), backtracks, clears and resizes, the trail reports exactly the assigned variables "
     "with their level, reason, order and timestamps, the models define exactly the assigned variables with unchanged values, and literal and clause evaluation agrees with them.",
     ["histories"], "every sequence of trail operations over Boolean and rational variables",
     "Tests exercise short straight-line sequences; out-of-order propagation below the current level and backtracking past it matter.",
     ["src/Trail.h", "src/Trail.cpp", "src/Model.h", "src/Variable.h", "src/Literal.h", "src/Clause.h"],
     [("out-of-order propagation and backtracking", "src/Trail.cpp"), ("model stack", "src/Model.h")],
     [("assigned variables by level", "assignment records", "src/Trail.h")], ["yaga::Trail, yaga::Model, yaga::eval"],
     "model-based stateful property testing: random operation histories against a reference model", LVL)

prop("C12", "Variable orders always pick the best unassigned variable",
     "After every history of bumps, decays, decisions, propagations, backtracks and repeated checks, the variable orders pick an unassigned variable of maximal score "
     "(Evsids, generalised VSIDS: the score being the decayed sum of bumps; First_unassigned: the first one) and pick none only if all variables are assigned; "
     "the generalised VSIDS prefers rational variables whose bounds have come to leave a single value (--prop-rational), the best of them first; "
     "the priority queue always yields its best element.",
     ["histories"], "every history of solver events and queue operations, including those where scores are rescaled",
     "Lost heap updates or lost reinsertion show up only after particular sequences, and as slow search or incomplete models.",
     ["src/variable_order/Variable_priority_queue.cpp", "src/variable_order/Variable_priority_queue.h", "src/variable_order/Evsids.cpp", "src/variable_order/Evsids.h",
      "src/variable_order/Generalized_vsids.cpp", "src/variable_order/Generalized_vsids.h", "src/variable_order/First_unassigned.cpp"],
     [("heap operations", "src/variable_order/Variable_priority_queue.cpp"), ("bump, decay, rescale", "src/variable_order/Evsids.h, Generalized_vsids.h"),
      ("reinsertion on backtracking", "src/variable_order/Generalized_vsids.cpp on_before_backtrack")],
     [("scores", "VSIDS score per variable", "src/variable_order/Generalized_vsids.h")], ["Variable_order::pick, is_before; Variable_priority_queue"],
     "model-based stateful property testing: random event histories against reference scores in extended precision", LVL)

prop("C13", "Restart policies follow their schedules",
     "For all parameters and every history of conflicts and restarts: Luby restarts happen after exactly multiplier * luby(i) conflicts since the last one; "
     "Glucose restarts happen exactly when at least the minimal number of conflicts has passed and the fast moving average of the LBD exceeds threshold times the slow one, "
     "the averages being exponential moving averages of the LBD of the learned clauses; the policy without restarts never restarts.",
     ["histories", "configurations"], "every sequence of learned clauses and restarts, all parameters",
     "Off-by-one errors in a schedule never change a verdict, only performance (and termination guarantees).",
     ["src/Restart.h"], [("Luby sequence", "src/Restart.h Luby_restart"), ("moving averages", "src/Restart.h Glucose_restart")],
     [], ["Restart::should_restart, Luby_restart::luby, Glucose_restart::slow/fast"],
     "model-based stateful property testing: random histories against reference schedules in extended precision", LVL)

prop("C14", "Unit propagation is complete and explains itself",
     "After every propagation without conflict no clause of the database is false or unit; each propagated literal has a reason clause from the database whose other "
     "literals were all false before it; each reported conflict is a false clause of the database; existing assignments are unchanged.",
     ["inputs", "configurations", "histories"], "every point of every propositional search, including after backtracking, restarts, and learning",
     "Watch-list errors lose propagations only after particular sequences of backtracking; the verdict then usually is still right.",
     ["src/bool/Bool_theory.cpp", "src/bool/Bool_theory.h"],
     [("watched literals", "src/bool/Bool_theory.cpp propagate"), ("learned-clause handling", "src/bool/Bool_theory.cpp on_learned_clause, on_restart")],
     [("watch lists", "clauses by watched literal", "src/bool/Bool_theory.h")], ["Bool_theory::propagate through Solver::check"],
     "property-based testing: invariant monitor over every propagation of generated searches", LVL)

prop("C15", "Conflict analysis derives sound backtracking clauses",
     "For every trail and false clause, the clause derived by conflict analysis is implied by the conflict clause and the reasons on the trail, is false, ordered by level, "
     "without repeated literals and is either asserting at exactly the returned level or a semantic split whose top literals have no reason at the level below.",
     ["inputs", "histories"], "every trail (with Boolean and semantic decisions, propagations at and below the current level) and every conflict clause false in it",
     "The tests check a few fixed implication graphs.",
     ["src/Conflict_analysis.cpp", "src/Conflict_analysis.h"], [("resolution along the trail", "src/Conflict_analysis.cpp analyze, finish")],
     [("resolvent", "current clause of the resolution", "src/Conflict_analysis.h")], ["Conflict_analysis::analyze"],
     "property-based testing: random trails with reasons; implication decided by a DPLL written for the harness, structural invariants", LVL)

prop("C16", "Scripts mean what SMT-LIB says",
     "The answer and the printed model of a script depend only on the assertions it denotes, not on how it is written: parallel and nested let bindings (shadowing declared, defined and bound names), "
     "defined functions (with shadowing parameters, calls of other defined functions, any arguments), quoted and unusual symbols, declaration order and form, set-info/set-option, comments and layout "
     "have their SMT-LIB meaning, and printed models use the same symbols in valid syntax.",
     ["inputs"], "every way of writing a QF_LRA or QF_UFLRA problem in the accepted fragment",
     "Tests contain single let and define-fun examples; scoping errors need particular combinations of shadowing, nesting and instantiation.",
     ["src/parser/Smt2_term_parser.cpp", "src/parser/Parser_context.cpp", "src/parser/Parser_context.h", "src/parser/Smt2_parser.cpp", "src/parser/smt2_lexer.ll",
      "src/terms/Term_rewriter.h", "src/terms/Term_manager.cpp"],
     [("let scopes", "src/parser/Parser_context.h Let_records"), ("instantiation of defined functions", "src/parser/Parser_context.cpp resolve_defined_function, src/terms/Term_rewriter.h"),
      ("lexer", "src/parser/smt2_lexer.ll"), ("model printing", "src/parser/Smt2_parser.cpp Print_model")],
     [("binders", "current and shadowed values of local names", "src/parser/Parser_context.h")], ["stdout of the smt program"],
     "property-based testing: a plain generated problem is printed with random surface syntax; the answer is judged against the plain problem (planted verdicts, exact model evaluation, z3)",
     LVL + "Same certification of alarms as C01.")

prop("C17", "Linear arithmetic theory reasoning is sound and complete",
     "During every search, whatever the options, variable order and restarts: equal constraints get the same literal and different ones different literals; a literal propagated by the linear arithmetic theory "
     "is true in the model at the level at which its variables are assigned or, if some of them are not, is implied by the values and constraints on the trail; every conflict clause it reports is false on the trail and valid in linear real arithmetic; the value decided for a real variable "
     "satisfies all constraints that are unit in it; when it reports no conflict, every constraint whose variables are all assigned agrees with the model and every unassigned variable has a value left; "
     "every clause learned is implied by the asserted clauses; and the final answer and model are correct.",
     ["inputs", "histories"], "every set of linear constraints, Boolean structure over them, and history of decisions, propagations, conflicts, and backtracks",
     "The tests call the plugin with a few hand-made bounds and at most two levels; stale bounds, bad watches and wrong explanations need longer histories.",
     ["src/lra/Linear_arithmetic.cpp", "src/lra/Linear_arithmetic.h", "src/lra/Bounds.cpp", "src/lra/Bounds.h", "src/lra/Variable_bounds.h", "src/lra/Linear_constraint.h",
      "src/lra/Linear_constraints.h", "src/lra/Lra_conflict_analysis.cpp", "src/bool/Bool_theory.cpp", "src/Solver.cpp"],
     [("propagation and watched variables", "src/lra/Linear_arithmetic.cpp propagate, replace_watch"), ("bounds with their reasons", "src/lra/Bounds.cpp, src/lra/Variable_bounds.h"),
      ("conflict explanations", "src/lra/Lra_conflict_analysis.cpp"), ("constraint identity", "src/lra/Linear_constraints.h")],
     [("bounds", "stacks of implied bounds and inequalities, pruned lazily after backtracking", "src/lra/Bounds.h"), ("watches", "watched variables of constraints", "src/lra/Linear_arithmetic.h")],
     ["Linear_arithmetic::propagate", "Linear_arithmetic::decide", "Solver::trail()"],
     "property-based (stateful) testing: every propagation, decision, conflict and learned clause of generated searches is examined; validity decided by Fourier-Motzkin elimination written for the harness",
     LVL + "Non-implied learned clauses are reported only with an exactly checked counterexample.")

prop("C18", "Every search ends",
     "Every check-sat of a script in the accepted fragment, with any options, and every Solver::check of a clause set in any configuration of phase, variable order and restarts, ends with the answer sat or unsat: "
     "no propagation, conflict analysis, backtracking, restart, or decision step repeats forever or gives up.",
     ["inputs", "histories"], "every problem (observed on small ones, which need far less than a second) and every history of checks",
     "The tests show that a few fixed problems are answered; a cycle (a conflict that learns nothing new, a value decided again and again, a restart that undoes everything) needs a particular history.",
     ["src/Solver.cpp", "src/Conflict_analysis.cpp", "src/lra/Linear_arithmetic.cpp", "src/lra/Lra_conflict_analysis.cpp", "src/lra/Bounds.cpp", "src/uf/Uninterpreted_functions.cpp",
      "src/bool/Bool_theory.cpp", "src/Theory_combination.cpp", "src/Restart.h", "src/Subsumption.cpp", "src/variable_order/Generalized_vsids.cpp"],
     [("main loop", "src/Solver.cpp Solver::check"), ("every conflict clause is new and backtracks", "src/Conflict_analysis.cpp, src/Solver.cpp"),
      ("new constraints of the theories", "src/lra/Lra_conflict_analysis.cpp, src/uf/Uninterpreted_functions.cpp")],
     [("learned clauses", "what rules out repetition", "src/Database.h"), ("trail", "decisions and levels", "src/Trail.h")], ["Solver::check", "stdout of the smt program"],
     "property-based testing with a processor-time watchdog: generated problems, options and histories whose search needs milliseconds must be answered within 10 s (20 s and 30 s on replay)",
     LVL + "Non-termination is approximated by exceeding the normal effort by a factor of 100 or more.")

prop("C19", "Erroneous scripts are reported, not answered wrongly",
     "A script with an ill-formed, ill-sorted, undeclared, redeclared, nonlinear, unsupported or truncated part makes the solver report an error (never crash, never touch memory it does not own); "
     "commands before the error are answered as usual, and if the solver goes on, its answers are those of the script without the erroneous command.",
     ["inputs"], "every text; in particular every valid script with one error anywhere",
     "The tests contain valid scripts only; each combination of an error, its nesting and the commands around it is another input.",
     ["src/parser/Smt2_parser.cpp", "src/parser/Smt2_term_parser.cpp", "src/parser/Parser_context.cpp", "src/parser/Flex_lexer.cpp", "src/parser/smt2_lexer.ll",
      "src/terms/Term_manager.cpp", "src/parser/Solver_wrapper.cpp"],
     [("sort and arity checks", "src/terms/Term_manager.cpp, src/parser/Parser_context.cpp"), ("syntax errors", "src/parser/Smt2_term_parser.cpp, src/parser/Flex_lexer.cpp"),
      ("error reports", "src/parser/Smt2_parser.cpp")],
     [], ["stdout and stderr of the smt program"],
     "property-based testing and mutation fuzzing: injected errors, truncation and token mutations under the address sanitizer; an independent syntax, sort and arity checker as the oracle of acceptance; metamorphic comparison with the script without the error",
     LVL + "Relative to the solver's own answers on the script without the error (decided by C01, C03, C20).")

prop("C20", "Every check-sat answers for all assertions made so far",
     "In a script with several check-sat commands, each one is answered correctly for the conjunction of all assertions before it, the model printed after a sat answer satisfies them, "
     "sat never follows unsat, and get-model without a sat answer is an error message, not a model.",
     ["histories"], "every sequence of assert, check-sat, and get-model commands",
     "The tests issue one check-sat per script; state left over from a previous search (trail, bounds, watch lists, queues) matters only for the next one.",
     ["src/Solver.cpp", "src/parser/Solver_wrapper.cpp", "src/parser/Smt2_parser.cpp", "src/lra/Linear_arithmetic.cpp", "src/uf/Uninterpreted_functions.cpp",
      "src/bool/Bool_theory.cpp", "src/variable_order/Generalized_vsids.cpp"],
     [("reset between checks", "src/Solver.cpp Solver::init and the listeners' on_init")], [("trail, bounds, watches", "state carried to the next check", "src/Solver.cpp")],
     ["stdout of the smt program"],
     "property-based (stateful) testing: generated command sequences, each answer judged like a script of its own (planted verdicts, exact model evaluation, z3)",
     LVL + "Same certification of alarms as C01.")

prop("C21", "The smt program does what its command line says",
     "For every script and every combination, order and repetition of the documented options, before or after the path, the smt program prints exactly what the library answers for the file with the options meant "
     "(the last --phase counts; the phase decides which variables of a disjunction are true, derived bounds save conflicts), the counters only with --print-stats, consistent with each other, and ends with status 0; the output of a run depends only on the script and the options, not on what was run before; "
     "an unknown option, a missing path and a missing file are reported on stderr without an answer.",
     ["inputs", "histories"], "every command line and script, and every sequence of runs in one process",
     "The tests do not run the programs and never use two solver instances on the same problem.",
     ["src/smt_solver.cpp", "src/Options.h", "src/parser/Smt2_parser.cpp", "src/parser/Flex_lexer.cpp", "src/parser/Solver_wrapper.cpp", "src/Yaga.cpp", "src/Yaga.h"],
     [("argument loop", "src/smt_solver.cpp main"), ("options reach the solver", "src/parser/Smt2_parser.cpp set_options, src/parser/Solver_wrapper.cpp, src/Yaga.cpp"),
      ("counters", "src/parser/Solver_wrapper.cpp, src/Solver.cpp")],
     [("static state", "there must be none that influences a later run", "src")], ["stdout, stderr and exit status of the smt program"],
     "property-based testing: differential against the library with the options meant; repetition (metamorphic) for reproducibility; generated wrong usage",
     LVL + "Says nothing about the answers themselves (C01-C05).")

prop("C22", "The solver library can be used, checked and re-initialised through its facade",
     "For every sequence of calls of the facade class Yaga in every predefined logic and with any options (make, make_bool, make_function_application, linear_constraint, assert_clause with non-empty clauses "
     "of distinct variables, check, and init with set_logic at any point): every check answers correctly for the clauses asserted since the last initialisation; after sat the model defines every variable, every "
     "literal of a linear constraint or application has the value of what it stands for, equal arguments give equal results, and the function model covers all applications; the same constraint written in another "
     "order or scaled gives the same literal; constraints over unknown variables or in a logic without arithmetic are rejected with std::logic_error and change nothing; the options given to set_logic take effect (unconstrained variables have the value of the phase, variables with only one allowed value are decided first on request); several solver objects do not influence each other; init removes all clauses, variables and assignments.",
     ["inputs", "histories"], "every finite sequence of calls on one solver object",
     "The tests use one logic per solver object, set up once, with a single check; most of them bypass the facade.",
     ["src/Yaga.h", "src/Yaga.cpp", "src/Solver.h", "src/Solver.cpp", "src/Trail.h", "src/Trail.cpp", "src/Event_dispatcher.h", "src/Theory_combination.cpp", "src/bool/Bool_theory.cpp",
      "src/lra/Linear_arithmetic.cpp", "src/lra/Linear_constraints.h", "src/uf/Uninterpreted_functions.cpp"],
     [("predefined logics", "src/Yaga.cpp Propositional, Qf_lra, Qf_uflra"), ("re-initialisation", "src/Yaga.cpp Yaga::init, Yaga::set_logic"),
      ("variables and constraints", "src/Yaga.h linear_constraint, src/Yaga.cpp make, make_function_application")],
     [("trail and models", "values after sat", "src/Trail.h"), ("clause database", "asserted clauses", "src/Database.h")], ["return values of class Yaga and of Solver::check", "Trail::model", "Yaga::get_function_model"],
     "stateful property-based testing: random call sequences on one solver object against a reference list of clauses with their meaning, exact evaluation of models, and z3 as a witness finder for wrong unsat answers, under the address sanitizer",
     LVL + "A wrong sat is detected by the model, which is evaluated exactly.")

# MORE


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"]) + "\n")
    man = dict(version=1, setup_cmd="python3 tools/check.py --setup",
               checks=[dict(property=p["prop"]["id"],
                            quick_cmd="python3 tools/check.py " + p["prop"]["id"],
                            thorough_cmd="python3 tools/check.py %s --tier thorough" % p["prop"]["id"],
                            technique=p["tech"], level="exploration", level_note=p["note"]) for p in P],
               not_applicable=[],
               notes="No hooks: the checks compile /repo/src unchanged (with flags of their own) and link it with the harnesses in /verif/harness.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
