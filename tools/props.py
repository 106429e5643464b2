"""Source of /verif/properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ["standard output of minizinc", "exit status"], hook_needed=hook)))


FL = ["lib/flatten.cpp", "lib/flatten/", "lib/optimize.cpp", "lib/optimize_constraints.cpp"]
p("S01", "Total Boolean and integer expressions have exactly their solutions",
  "For a model built from total Boolean and integer operators (arithmetic, comparison, logic, conditionals, aggregates, array access within bounds, let), an all-solutions run emits exactly the assignments that satisfy every constraint under the language's denotational semantics, each once, then reports completeness; it reports unsatisfiability exactly when there are none. Every emitted value of a functionally defined variable is the value of its definition.",
  ["programs", "configurations"], "all models over these operators, at every optimisation level",
  "The tests run a fixed set of hand-written models and compare with stored outputs; the compiler rewrites expressions by context, shares sub-expressions and unifies variables, so an error needs a particular combination of operators, contexts and domains.",
  FL, [("flattening of operators and calls", "lib/flatten/flatten_binop.cpp, flatten_call.cpp, flatten_ite.cpp"), ("common subexpression map", "lib/flatten.cpp"), ("variable unification and constraint simplification", "lib/optimize.cpp, lib/optimize_constraints.cpp")])
p("S02", "Partial operations follow the relational semantics",
  "An undefined operation (division or modulo by zero, array access out of bounds, negative power of zero, minimum of an empty array, a local variable outside its declared domain, a failed local constraint) makes the nearest enclosing Boolean expression false, and nothing else. The emitted solutions are exactly those of the resulting total reading.",
  ["programs", "configurations"], "all models with partial operations anywhere inside Boolean, integer and array expressions",
  "Undefinedness travels through every other construct (conditionals, lets, comprehension, negation, linear cancellation); the tests cover a few dozen combinations.",
  FL, [("partiality variables", "lib/flatten/flat_exp.cpp, conj() in lib/flatten.cpp"), ("safe/partial library versions", "share/minizinc/std/stdlib/stdlib_internal.mzn")])
p("S03", "Arrays, index sets, slices and comprehensions",
  "Multi-dimensional array literals, index-set coercions, slices, concatenation, generators with conditions, and the index-set functions denote the arrays given by the language definition, for fixed and decision-variable elements alike, for every index offset and shape including empty ones. An access returns the element at exactly that index.",
  ["programs", "inputs"], "all shapes, offsets, slices and generator nests",
  "Index arithmetic with offsets and empty dimensions has many boundary cases; tests use a few fixed shapes.",
  ["lib/flatten/flatten_arrayaccess.cpp", "lib/flatten/flatten_comp.cpp", "lib/flatten/flatten_arraylit.cpp", "lib/eval_par.cpp", "lib/ast.cpp"],
  [("slice views and compressed literals", "lib/ast.cpp ArrayLit"), ("comprehension evaluation", "lib/eval_par.cpp, include/minizinc/eval_par.hh"), ("access linearisation", "lib/flatten/flatten_arrayaccess.cpp")])
p("S04", "Set expressions over fixed and decision-variable sets",
  "Union, intersection, difference, symmetric difference, cardinality, membership, inclusion, comparison, set comprehensions, array unions and set-valued conditionals denote the mathematical operations on sets of integers, and models using set variables have exactly the solutions these give.",
  ["programs"], "all models over finite sets of integers",
  "Set variables go through bound reasoning and range-list arithmetic whose errors need particular gaps and overlaps.",
  ["lib/values.cpp", "include/minizinc/values.hh", "include/minizinc/iter.hh", "lib/builtins.cpp", "share/minizinc/std/stdlib/"],
  [("range iterators", "include/minizinc/iter.hh"), ("set decompositions", "share/minizinc/std/nosets.mzn")])
p("S05", "Optional values",
  "Operations on optional integers and Booleans treat an absent argument as documented: strong operations are defined only on occurring values, comparisons and weak operators as specified, aggregates skip absent elements, and occurs, absent, default, and deopt of a value that occurs, agree with presence. Models with optional variables or variable generator conditions have exactly the resulting solutions.",
  ["programs"], "all models with optional variables and generator conditions on variables",
  "Optional values are compiled away into pairs by library code; interactions with reification and aggregates are barely tested.",
  ["share/minizinc/std/stdlib/stdlib_opt.mzn", "lib/typecheck.cpp", "lib/flatten/"], [("option type decomposition", "share/minizinc/std/stdlib")])
p("S06", "Tuples, records and enumerated types",
  "Field access, structural equality, arrays of tuples and records, and coercions between them denote the component-wise operations; enumerated types behave as ordered finite sets of distinct names with constructors, successor, predecessor and conversion functions as documented.",
  ["programs"], "all declarations and expressions over tuples, records and enumerated types",
  "Structured types are expanded during compilation and need reverse mapping for output; only sampled by tests.",
  ["lib/flatten/flatten_fieldaccess.cpp", "lib/typecheck.cpp", "lib/type.cpp", "lib/passes", "lib/output.cpp"], [("struct expansion", "lib/flatten/"), ("enum mapping", "lib/typecheck.cpp")])
p("S07", "User-defined functions, predicates, lets and declaration order",
  "A call of a user-defined function or predicate has the meaning of its body with the arguments substituted, whichever overload is chosen, for recursive definitions on fixed arguments and for reified versions supplied by the user; the order of items does not matter.",
  ["programs"], "all models with user-defined functions and predicates, called in every context and shared between calls",
  "Calls are cached, inlined, specialised per argument type and reified by name; sharing errors need the same call in two contexts.",
  ["lib/flatten/flatten_call.cpp", "lib/type_specialise.cpp", "lib/model.cpp", "lib/typecheck.cpp"],
  [("overload resolution", "lib/model.cpp"), ("type specialisation", "lib/type_specialise.cpp"), ("call caching", "lib/flatten.cpp")])
p("S08", "Fixed and variable evaluation agree",
  "Replacing decision variables by fixed parameters of the same value, or fixing them by data or by constraints, never changes the value or truth of an expression. Compile-time evaluation and the constraints posted for the solver are the same function.",
  ["programs", "inputs"], "all expressions and all assignments of their variables",
  "There are two separate implementations of every operation; the tests exercise them separately.",
  ["lib/eval_par.cpp", "lib/builtins.cpp", "lib/flatten/"], [("par evaluation", "lib/eval_par.cpp"), ("built-in functions", "lib/builtins.cpp")])
p("S09", "Integer arithmetic is exact or reported as an overflow",
  "Fixed 64-bit integer arithmetic, including the values of sets and bounds, yields the mathematically exact result or an error; it never wraps around silently.",
  ["inputs"], "all operators on all 64-bit operands",
  "The failing operands are at the limits of the representation.",
  ["include/minizinc/values.hh", "lib/values.cpp", "lib/eval_par.cpp"], [("checked arithmetic", "include/minizinc/values.hh")])
p("S10", "Compilation options do not change the solutions",
  "Optimisation levels, presolving, half-reification, chain compression, domain-change recording and re-flattening passes change neither the set of solutions nor the status of a run.",
  ["programs", "configurations"], "all models and all combinations of compiler options",
  "Tests compare options on a handful of models.",
  ["lib/flattener.cpp", "lib/passes", "lib/chain_compressor.cpp", "lib/optimize.cpp"], [("multi-pass compilation", "lib/flattener.cpp"), ("chain compression", "lib/chain_compressor.cpp")])
p("S11", "Linear encodings preserve the solutions",
  "Compiling with the linear library (as used by MIP solvers) yields a linear program whose integral solutions projected to the model's variables are exactly the model's solutions.",
  ["programs"], "all finite-domain models accepted by the linear library",
  "Big-M coefficients and indicator encodings depend on bounds; an off-by-one only shows for specific bounds.",
  ["share/minizinc/linear", "lib/MIPdomains.cpp"], [("linear library", "share/minizinc/linear"), ("domain encodings", "lib/MIPdomains.cpp")])
p("S12", "Global constraints mean what their definition says",
  "Every global constraint of the standard library, posted as a constraint, accepts exactly the tuples of its documented definition, for every shape and domain of its arguments including repeated variables, constants and empty arrays.",
  ["inputs", "programs"], "all global constraints and all argument shapes",
  "Decompositions are tested with one or two instances each.",
  ["share/minizinc/std"], [("decompositions", "share/minizinc/std/fzn_*.mzn")])
p("S13", "Reified and negated global constraints",
  "A global constraint used inside a Boolean expression (negated, implied, equated with a variable) is true exactly when its definition holds.",
  ["inputs", "programs"], "all global constraints in all Boolean contexts",
  "Reified decompositions are separate library code, rarely tested.",
  ["share/minizinc/std"], [("reified decompositions", "share/minizinc/std/fzn_*_reif.mzn")])
p("S14", "Optimisation answers",
  "An optimisation run emits solutions of the model with strictly improving objective, claims optimality only at an optimum, and reports unsatisfiability only if there is no solution; the reported objective is the objective's value in the reported solution.",
  ["programs", "configurations"], "all optimisation models",
  "Objective expressions are compiled in positive or negative context, so errors depend on their shape.",
  ["lib/flatten.cpp", "lib/solns2out.cpp", "lib/flatten/flatten_binop.cpp"], [("objective flattening", "lib/flatten.cpp"), ("objective bounds context", "lib/flatten/")])
p("S15", "Boolean sub-expressions keep their value in every context",
  "The truth value given to a Boolean expression is the same wherever it occurs: as argument of user or library predicates, array element, conditional condition, integer coercion, under negation, in implications, in the objective, or shared by several of these.",
  ["programs", "configurations"], "all placements of Boolean expressions",
  "Half-reification computes one direction only where the context allows it; a wrong context admits additional solutions only for particular assignments.",
  ["lib/flatten/flatten_call.cpp", "lib/flatten.cpp", "lib/flatten/flatten_ite.cpp"], [("context propagation", "lib/flatten/flatten_call.cpp"), ("context change on reuse", "cse_result_change_ctx in lib/flatten.cpp")])
p("S16", "Assertions, aborts and errors fire exactly when reached",
  "An assertion whose condition is false stops compilation with its message exactly when the expression is evaluated; branches not taken and elements not generated never raise errors.",
  ["programs"], "all fixed control flow around assertions and aborts",
  "Laziness depends on the evaluation path chosen by the compiler.",
  ["lib/eval_par.cpp", "lib/builtins.cpp", "lib/flatten/flatten_call.cpp"], [("lazy conditionals", "lib/eval_par.cpp"), ("assert", "lib/builtins.cpp")])
p("S17", "Built-in functions on strings, arrays and numbers",
  "The fixed built-in functions (string length, concatenation, join, show, formatting, sorting, argsort, reverse, set and array conversions, bounds and counting functions) return the documented result for all arguments.",
  ["inputs"], "all built-in functions on fixed arguments",
  "One or two examples per function are tested.",
  ["lib/builtins.cpp"], [("built-in functions", "lib/builtins.cpp")])
p("O01", "Solution streams are translated independently of how they arrive",
  "The output produced from a solver's solution stream depends only on its bytes: not on how they are split into reads, on carriage returns, comments or statistics between solutions, or on a missing final newline. Each solution is printed once, with the values the solver gave and the model's output item, in order.",
  ["schedules", "inputs"], "all splittings of all solution streams into chunks",
  "Tests run real solvers whose output arrives in one piece.",
  ["lib/solns2out.cpp", "include/minizinc/solns2out.hh", "include/minizinc/process.hh"], [("line assembly", "lib/solns2out.cpp feedRawDataChunk"), ("solution parsing", "lib/solns2out.cpp")])
p("O02", "Duplicate elimination and canonical output",
  "Unless duplicates are allowed each distinct solution is printed once, lines asked to be ignored at the head of the stream are skipped and nothing else, and canonicalised output is the sorted set of all solutions of the stream, printed once and before the final status, with the requested separators and status texts.",
  ["inputs", "configurations"], "all solution streams and all option combinations",
  "Option combinations are not tested.",
  ["lib/solns2out.cpp"], [("uniqueness and counting", "lib/solns2out.cpp")])
p("O03", "The JSON stream is well formed and complete",
  "With --json-stream every line of standard output is one JSON object of a documented kind, text is escaped so that it decodes to the original, and the sequence of solution, status, error, warning and statistics messages corresponds one to one to what the plain output reports.",
  ["inputs", "configurations"], "all models, solver outputs, messages and errors",
  "Escaping and interleaving depend on the content.",
  ["lib/solns2out.cpp", "lib/utils_savestream.cpp", "minizinc.cpp", "lib/exception.cpp"], [("json encoding", "lib/utils.cpp, lib/prettyprinter.cpp")])
p("O04", "Status and exit code reflect what the solver proved",
  "The final status line is the one implied by the solver's own status line and the solutions seen (complete, unsatisfiable, unbounded, unknown, error), a failing solver or compilation error yields a non-zero exit status and an error message, and otherwise the exit status is zero.",
  ["inputs", "fault_sequences"], "all sequences of solver outputs and exit codes",
  "Tests use well-behaved solvers only.",
  ["lib/solns2out.cpp", "lib/solver.cpp", "solvers/fzn/fzn_solverinstance.cpp"], [("status evaluation", "lib/solns2out.cpp")])
p("O05", "Printed solutions read back as the same values",
  "Output in DZN or JSON mode is accepted as data for the same declarations and denotes the same values, for all types including enumerated types, sets, optional values, strings, nested structures and unusual names.",
  ["inputs"], "all values of all types",
  "Round trips are tested on few types.",
  ["lib/output.cpp", "lib/builtins.cpp", "lib/json_parser.cpp", "lib/prettyprinter.cpp"], [("output item generation", "lib/output.cpp"), ("show functions", "lib/builtins.cpp"), ("JSON parser", "lib/json_parser.cpp")])
p("P01", "Everything the solver wrote is delivered",
  "All output a solver process writes before it exits is processed and delivered in order, whatever the timing of its writes and exit and however much it writes to standard output and standard error; the run ends only after the solver has ended.",
  ["schedules"], "all interleavings of solver writes, exit and reads",
  "Races between exit and the last read are invisible in ordinary runs.",
  ["include/minizinc/process.hh", "solvers/fzn/fzn_solverinstance.cpp"], [("reader loop", "include/minizinc/process.hh")])
p("P02", "Time limits are enforced",
  "With a time limit the run ends within the limit plus a bounded grace period even if the solver ignores termination requests; solutions received before are printed; a solver that finishes in time is not disturbed.",
  ["schedules"], "all solver timings and reactions to signals",
  "Tests have no misbehaving solvers.",
  ["include/minizinc/process.hh", "minizinc.cpp", "lib/solver.cpp"], [("timeout and kill escalation", "include/minizinc/process.hh")])
p("P03", "Interrupts stop the solver and leave no residue",
  "On an interrupt or termination signal while a solver is running the solver and its children are asked to stop and finally killed, output already received is printed, temporary files are removed, and the run ends.",
  ["crash_points", "schedules"], "signals at every point of a run",
  "No test sends signals.",
  ["include/minizinc/process.hh", "lib/file_utils.cpp", "minizinc.cpp"], [("signal handlers", "include/minizinc/process.hh"), ("temporary files", "lib/file_utils.cpp")])
p("D01", "Include files are resolved in the documented order, once",
  "An include refers to the file next to the including file, then the -I directories in order, then the solver library, then the standard library; each file is included once however it is named, and cyclic or repeated includes have no further effect.",
  ["configurations", "inputs"], "all directory layouts and include graphs",
  "Tests use one layout.",
  ["lib/parser.cpp", "lib/file_utils.cpp"], [("include search", "lib/parser.cpp")])
p("D02", "Data from several sources combine consistently",
  "Parameter values from data files (DZN, JSON), command-line data and the model are combined regardless of their order; each parameter must get exactly one value, conflicting, missing or unknown assignments are errors, and equal results come from equal data in either format.",
  ["inputs", "configurations"], "all distributions of assignments over sources",
  "Tests use single sources.",
  ["lib/parser.cpp", "lib/json_parser.cpp", "lib/typecheck.cpp", "lib/flattener.cpp"], [("assignment merging", "lib/typecheck.cpp")])
p("D03", "Data are checked against their declaration",
  "A value outside the declared domain, of the wrong type, or an array whose index sets do not match is rejected before solving; values inside are accepted unchanged, with the documented coercions.",
  ["inputs"], "all declared types and data values",
  "Boundary values are not tested systematically.",
  ["lib/flatten.cpp", "lib/typecheck.cpp", "lib/eval_par.cpp"], [("domain checks", "lib/flatten.cpp check_par_domain"), ("index set checks", "lib/flatten.cpp check_index_sets")])
p("D04", "Solver selection",
  "A solver is selected by its identifier, the last component of its identifier, its name or a tag, compared case-insensitively, or a comma-separated list of these, each with an optional version: the configuration chosen answers to all of them (a version that no configuration has is disregarded in the first of them), it is the default of the tag if the preferences name one among several candidates and otherwise the first on the search path, whatever its file is called; if nothing answers the run is refused.",
  ["configurations"], "all sets of solver configurations and queries",
  "Tests have a fixed set of configurations.",
  ["lib/solver_config.cpp"], [("configuration lookup", "lib/solver_config.cpp")])
p("D05", "Parameter files are equivalent to command lines",
  "A run driven by a parameter configuration file behaves as the run with the corresponding command line options, including repeated options, exclusions and relative paths.",
  ["configurations", "inputs"], "all parameter files",
  "Tests use few files.",
  ["lib/param_config.cpp", "minizinc.cpp"], [("parameter files", "lib/param_config.cpp")])
p("D06", "Solution options are passed to the solver as promised",
  "Options for all solutions, number of solutions, intermediate solutions, threads, seed, time limit, free search, statistics and the solver's extra flags reach a solver process, with the value given last on the command line or else in the preferences, exactly if its configuration declares them and they apply to the kind of problem; undeclared options about solutions and undeclared extra flags are refused with a message, and the others have no effect.",
  ["configurations"], "all option sets and solver configurations",
  "Tests have one solver configuration.",
  ["solvers/fzn/fzn_solverinstance.cpp", "lib/solver.cpp"], [("flag mapping", "solvers/fzn/fzn_solverfactory.cpp")])
p("D07", "Generated FlatZinc is well formed",
  "Compiled FlatZinc declares every identifier exactly once before use, uses only FlatZinc types, names only constraints the solver library leaves undefined with well-typed arguments, and annotates each variable marked as defined with one definition, acyclically.",
  ["programs"], "all models",
  "Solvers accept more than the standard and order errors depend on the model.",
  ["lib/flatten.cpp", "lib/prettyprinter.cpp"], [("old FlatZinc conversion and topological order", "lib/flatten.cpp")])
p("D08", "Compilation is deterministic",
  "The same model, data and options yield byte-identical FlatZinc, output model and output, irrespective of memory layout, working directory, environment or hash seeds.",
  ["configurations", "schedules"], "all environments",
  "Tests run once.",
  ["lib/flatten.cpp", "lib/optimize.cpp"], [("ordered traversals", "lib/optimize.cpp")])
p("D09", "Solution checkers see every solution",
  "A solution checker model is run once on every solution with exactly the solution's values, its verdict is attached to that solution, and the solution stream is otherwise unchanged.",
  ["inputs"], "all checker models and solution streams",
  "Tests run a few checkers.",
  ["lib/solns2out.cpp", "lib/solver.cpp"], [("checker runs", "lib/solns2out.cpp checkSolution")])
p("D10", "The reported model interface is the model's interface",
  "The interface report lists exactly the parameters that still need a value, with their types, the output variables, the solve method and the included globals.",
  ["programs", "inputs"], "all models and partial data",
  "Tests check few models.",
  ["lib/typecheck.cpp", "lib/solver.cpp"], [("interface output", "lib/typecheck.cpp output_model_interface")])
p("M01", "Live objects survive garbage collection",
  "After any sequence of allocations, references, locks, marks and collections every object reachable from a root is unchanged and weak references are cleared exactly when their object is collected; reused memory is never shared by two live objects.",
  ["histories"], "all sequences of heap operations",
  "Collections happen rarely in tests.",
  ["lib/gc.cpp", "include/minizinc/gc.hh"], [("mark and sweep, free lists", "lib/gc.cpp")])
p("M02", "Garbage collection is unobservable",
  "The result of compiling and solving does not depend on when collections happen.",
  ["schedules", "programs"], "all collection schedules",
  "Tests never force collections.",
  ["lib/gc.cpp", "lib/flatten.cpp"], [("roots and locks", "GCLock, KeepAlive")], hook="force a collection at chosen allocation points")
p("T01", "Printed models mean the same",
  "Printing a parsed model (with the printer that writes models to files) and parsing it again yields a model with the same meaning: operator precedence, associativity, quoting, escapes, annotations and literals are preserved; printing the result again changes nothing.",
  ["programs"], "all syntactically valid models",
  "Tests print a few models.",
  ["lib/prettyprinter.cpp", "lib/parser.yxx", "lib/lexer.lxx"], [("pretty printer", "lib/prettyprinter.cpp")])
p("T02", "Typing accepts exactly the well-typed models",
  "An expression is accepted exactly if the coercion and instantiation rules of the language give it a type, and overloads resolve to the most specific matching declaration.",
  ["programs"], "all expressions and declarations",
  "The type lattice has many combinations; tests cover selected errors.",
  ["lib/typecheck.cpp", "lib/type.cpp", "include/minizinc/type.hh", "lib/model.cpp"], [("subtype relation", "include/minizinc/type.hh"), ("overload resolution", "lib/model.cpp")])

sys.path.insert(0, os.path.join(V, "checks"))
from registry import CHECKS, META, NA
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in P]
checks = []
for i in ids:
    if i in CHECKS:
        mod, level = CHECKS[i]
        tech, note = META[i] if i in META else META[mod]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique=tech, level=level, level_note=note))
na = [dict(property=i, reason=NA.get(i, "no machinery built for it (see DESIGN.md)")) for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 lib/setup.py",
               hooks=dict(guard="MZN_VERIF", enable="lib/vf.py configures /repo's CMake build in /verif/build/mzn with -DMZN_VERIF", source_commits=["9729252"]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(checks), "not claimed", [x["property"] for x in na])
