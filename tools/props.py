HOOKS = None
TODO = "its generated-input check is not built yet"
SMT_TESTS = "The existing tests run a handful of fixed protocols through one solver and only look at the final verdict"
prop("C01", "The emitted theory of time describes exactly the execution traces",
 "For every protocol, the ordering part of the emitted problem (happens, leq/lt/gt, pred, init, the steps and the declared `order` constraints) is true in a finite structure exactly when that structure is a trace of the protocol: a finite sequence of distinct step instances starting with init, ordered strictly and totally, pred being the immediate predecessor, nothing else happening, and every declared order respected.",
 ["inputs", "programs"], "all protocols (step signatures, index types, order constraints) and all finite candidate structures",
 SMT_TESTS + "; a missing or too strong ordering axiom changes no verdict on them.",
 [C+"problem/general_assertions/order.rs", C+"smt/smt.rs", C+"parser/parser/parsable_trait.rs", C+"squirrel/converters/convert_order.rs"],
 [("ordering axioms", C+"problem/general_assertions/order.rs"), ("order declarations", C+"parser/parser/parse_step_cell_asserts"), ("step datatype and init", C+"smt/smt.rs")],
 "property-based testing: generated protocols x generated/mutated finite structures, emitted axioms evaluated against a reference definition of trace",
 "Every emitted assertion is evaluated exactly in every structure (finite domains); both directions (a trace satisfies all, a non-trace falsifies one).")
prop("C02", "The emitted goal and hypotheses mean what the input file says",
 "For every accepted input file and every world (a trace with arbitrary contents of inputs, outputs, guards and memory cells), all the assertions of the emitted problem hold there exactly when the user's asserts hold and the query fails under the language's semantics: innermost scoping, quantifiers, let, macros, if, try-find, infix operators and step macros included.",
 ["inputs", "programs"], "all well-typed input files and all worlds",
 SMT_TESTS + "; a mistranslated connective, binder or macro makes a wrong theorem provable without failing a test.",
 [C+"parser/mod.rs", C+"parser/ast/mod.rs", C+"parser/parser/parsable_trait.rs", C+"formula/manipulation", C+"smt/smt.rs", C+"problem/problem/mod.rs"],
 [("parsing of terms", C+"parser/parser/parsable_trait.rs"), ("substitution", C+"formula/manipulation/substitution"), ("evaluation axioms", C+"problem/general_assertions/evaluate.rs")],
 "property-based testing: generated files x generated worlds, emitted problem evaluated against a reference interpreter of the input language",
 "Exact truth values over finite domains; Message quantifiers are relativised to a finite universe.")
prop("C03", "Cryptographic axioms hold in every honest execution",
 "For every protocol declaring cryptographic primitives (euf-cma, uf-cma with or without hmac, int-ctxt, nonce), the emitted problem excludes no execution produced by running the protocol against a symbolic (Dolev-Yao) attacker with ideal primitives: no emitted axiom is false in it.",
 ["inputs", "programs", "histories"], "all protocols with crypto assertions, all bounded executions and attacker inputs, all option combinations",
 SMT_TESTS + "; an unsound crypto axiom only makes more goals provable.",
 [C+"problem/crypto_assumptions", C+"subterm"],
 [("instances of the crypto axioms", C+"problem/crypto_assumptions"), ("subterm search", C+"subterm/mod.rs")],
 "property-based testing: generated protocols and Dolev-Yao executions, every emitted axiom evaluated in them",
 "Runs of at most four steps over index domains of at most two; message quantifiers are sampled in the few axioms that have them (a witness found decides, otherwise the axiom counts as undecided).")
prop("C04", "Cryptographic axioms exclude forgeries",
 "For every protocol declaring euf-cma, uf-cma (with verify), int-ctxt or nonce: every execution in which a verification that occurs outside find and quantifiers succeeds on a message nobody authenticated with that key, or such a decryption succeeds on a ciphertext nobody produced with that key, while the protocol uses the key as a key only (and, for int-ctxt, draws one name per encryption), or in which the attacker sends a name that occurs in nothing sent before, makes some emitted assertion false.",
 ["inputs", "programs", "histories"], "all protocols with crypto assertions and all forging executions",
 SMT_TESTS + "; lost instances of an axiom show up only as solver timeouts.",
 [C+"problem/crypto_assumptions", C+"subterm"],
 [("instances of the crypto axioms", C+"problem/crypto_assumptions"), ("preprocessing", C+"formula/utils/formula_expander.rs")],
 "property-based testing: generated forging executions must falsify an emitted axiom",
 "Sites inside find and quantifiers of messages get no instance by design of the tool and are left out; uf-cma in hmac mode (verification is defined as equality) as well.")
prop("C05", "Memory cells and step macros unfold to what the protocol computes",
 "For every protocol with memory cells, an execution whose cell contents, outputs, guards and exec are those the protocol computes satisfies every emitted assertion, and changing the content of a cell, output, guard or exec at a step that happens falsifies one.",
 ["inputs", "programs", "histories"], "all protocols with cells and assignments, all bounded traces",
 SMT_TESTS + "; only one of the stable examples has memory cells.",
 [C+"problem/crypto_assumptions/cell.rs", C+"problem/crypto_assumptions/unfolding.rs", C+"problem/cell_dependancies", C+"problem/step.rs"],
 [("cell axioms", C+"problem/crypto_assumptions/cell.rs"), ("unfolding", C+"problem/crypto_assumptions/unfolding.rs")],
 "property-based testing: generated stateful protocols run on a reference machine, emitted axioms evaluated on the run and on mutated runs",
 "Exact truth values; runs of at most four steps over index domains of at most two.")
prop("C06", "Values are described the same way whatever the options",
 "For every protocol and every option that changes how values are described (symbolic terms with an evaluation function, legacy evaluation, skolemnisation, rewriting rules, no functions on values, no preprocessing, dialects), the emitted problem holds in the same worlds: those where evaluation gives every term the value the input language gives it. Worlds where a function, connective, if, or find has another value are excluded (for negation and quantifiers: worlds where they wrongly hold), unless functions on values are switched off.",
 ["inputs", "programs", "configurations"], "all protocols, worlds and combinations of these options",
 SMT_TESTS + ", mostly with default options.",
 [C+"problem/general_assertions/evaluate.rs", C+"formula/function/inner/evaluate.rs", C+"formula/function/inner/term_algebra", C+"formula/file_descriptior/axioms.rs", C+"smt/smt.rs", C+"cli.rs"],
 [("evaluation axioms", C+"problem/general_assertions/evaluate.rs"), ("rewriting rules and dialects", C+"smt/smt.rs"), ("options", C+"environement/environement.rs")],
 "property-based testing: generated files x options x worlds, the emitted problem evaluated with symbolic terms as values, right and perturbed evaluations against the reference interpreter",
 "Exact truth values over finite domains; terms range over inputs, outputs and their combinations in the assertions; rewriting rules are read as equalities.")
prop("C07", "Emitted problems are well-formed for their solver",
 "For every accepted input file and every option combination, the emitted problem declares every sort and symbol once and before use, is well-sorted with every variable bound, and ends with one check-sat; in the standard dialect it contains only standard SMT-LIB and z3 and cvc5 read it without an error.",
 ["inputs", "programs", "configurations"], "all well-typed input files and all supported option combinations",
 SMT_TESTS + " under default options; an ill-sorted axiom in an unexercised feature or option makes the solver reject the whole file.",
 [C+"smt/smt.rs", C+"smt/smt/display.rs", C+"formula/file_descriptior", C+"problem/general_assertions", C+"problem/crypto_assumptions"],
 [("printing", C+"smt/smt/display.rs"), ("declarations", C+"smt/smt.rs")],
 "property-based testing: generated files x options, output sort-checked by an independent checker and by z3 and cvc5",
 "Well-formedness is decided exactly per output; the space of files and options is sampled.")
prop("C08", "Meaningless input is refused with a located error, never proved",
 "For every file that does not make sense (an ill-sorted term, a wrong number of arguments, an undeclared or out-of-scope name, a name declared twice or taken from the language, a missing or second query, a cryptographic assertion over functions it cannot hold of, unbalanced brackets, and with --disallow-shadowing a variable hiding another name), every mode reports an error with a position inside the file (the place of the undeclared name, where that is the mistake), writes no output, calls no solver and does not crash; the file without the mistake is accepted.",
 ["inputs", "programs", "configurations"], "all single mistakes in all well-formed files, to-file and automatic modes",
 "Tests feed valid protocols only: a check that no longer fires changes nothing there, and a file with a mistake then proves something else than its author believes.",
 [C+"parser/parser/parsable_trait.rs", C+"parser/parser/declare.rs", C+"formula/sort/sort_proxy.rs", C+"formula/function/inner/booleans.rs", C+"parser/location.rs", C+"cli.rs"],
 [("sorts and arities", C+"parser/parser/parsable_trait.rs"), ("declarations", C+"parser/parser/declare.rs"), ("positions", C+"parser/location.rs")],
 "property-based testing: generated well-formed files with one generated mistake must be refused, and accepted without it",
 "One mistake per file; bodies of macros that are not used are not judged (the tool expands macros where they are used).")
prop("C09", "A run reports exactly what the solvers answered",
 "For every way the solvers can answer, fail, crash, time out or be missing, over all tries and all queued problems, automatic mode reports success exactly when every queued problem was proved by a solver that was called on it, and reports a failure (in the exit status and in every output format) otherwise. A satisfiable answer is never a proof, a solver that failed never counts, and a problem that was not solved is retried at most the configured number of times.",
 ["inputs", "fault_sequences", "histories", "configurations"], "all scripts of solver answers and faults, sets of available solvers, numbers of retries, lemmas, output formats",
 "Tests run real solvers on problems they prove at once; no test exercises a solver that crashes, lies about its format, disproves or times out.",
 [C+"runner/runners.rs", C+"runner/runner.rs", C+"runner/z3.rs", C+"runner/vampire.rs", C+"runner/runner_helper.rs", C+"lib.rs", C+"main.rs", C+"return_value.rs"],
 [("reading of answers", C+"runner/z3.rs"), ("combination of the solvers and retries", C+"runner/runners.rs"), ("exit status and formats", C+"main.rs")],
 "property-based testing with fault injection: generated scripts for stand-in solver executables, the report compared with a nondeterministic model of the allowed outcomes",
 "The solvers are stand-in executables playing a generated script; races between solvers are modelled as a set of allowed reports. Real vampire is not installed.")
prop("C10", "Lemmas are proved in order, each from the earlier ones only",
 "For every file with lemmas, the k-th emitted problem has the k-th lemma as goal and assumes, besides the asserts, exactly the lemmas before it; the last one has the query as goal and assumes all the lemmas; when lemmas are switched off none is proved nor assumed.",
 ["inputs", "programs", "configurations", "histories"], "all files with lemmas, to-file and automatic modes, with and without lemmas",
 SMT_TESTS + "; a lemma assumed in its own proof makes everything provable.",
 [C+"problem/problem", C+"problem/problem/pbl_iterator.rs", C+"lib.rs", C+"parser/parser/mod.rs"],
 [("queue of problems", C+"problem/problem/pbl_iterator.rs"), ("selection of the mode", C+"lib.rs")],
 "property-based testing: generated files with lemmas x worlds, every emitted problem evaluated against its reference (goal, assumed lemmas)",
 "Exact truth values over finite domains, in worlds where the lemmas have all combinations of truth values.")
prop("C11", "What is learned from a solver is used, soundly, and only once",
 "For every output of vampire that shows instances of a cryptographic assumption (in any clause, over variables, skolem constants and symbols of the problem), the next try includes the assumption for these instances: every honest execution still satisfies the problem, and a forgery at a learned place is excluded. When the output holds nothing new, or only text that is no well-formed instance, the run stops with an error instead of trying again, and never crashes.",
 ["inputs", "fault_sequences", "histories"], "all protocols, all clauses (well-formed or garbage) in a solver's output, sequences of tries",
 "vampire is not even needed by the stable tests, and no test reads an output of it.",
 [C+"runner/searcher.rs", C+"runner/tptp.rs", C+"runner/vampire.rs", C+"formula/base_formula/tmp_formula.rs", C+"problem/crypto_assumptions"],
 [("search in the output", C+"runner/searcher.rs"), ("reading of TPTP terms", C+"runner/tptp.rs"), ("instances", C+"problem/crypto_assumptions")],
 "property-based testing with fault injection: a stand-in vampire prints generated clauses, the next problem is evaluated in honest and forging executions",
 "Runs of at most four steps; clauses whose variables are messages are only judged in honest executions.")
prop("C12", "A run writes the files asked for, complete, and leaves nothing else behind",
 "For every output place, mode and fault (missing directories, existing files, links, full disks, file size limits, no temporary directory), a run that reports success has written exactly the requested files, complete and replacing what was there; a run that cannot reports an error. No other file is created, changed or lost, a refused input leaves earlier outputs alone, no solver is run on a truncated problem, the temporary directory is empty and no solver process is alive afterwards, and with --solver-file-debug every problem given to a solver is kept in that directory and nowhere else.",
 ["inputs", "configurations", "fault_sequences"], "all output places, input sources, modes, write faults, scripts of solver answers",
 "Tests write to fresh temporary files on a healthy disk and look at nothing else.",
 ["crates/cryptovampire/src/lib.rs", C+"runner/runner.rs", C+"runner/runner_helper.rs", C+"runner/runners.rs", C+"main.rs"],
 [("output files", C+"lib.rs"), ("temporary and kept files", C+"runner/runner.rs"), ("solver processes", C+"runner/runners.rs")],
 "property-based testing with fault injection: generated output places and write faults, scripted solvers, the directory tree and the process group compared before and after",
 "Faults are write errors (full device, size limit), missing places and solver failures; the tool itself is not killed half way.")
prop("C13", "Any input text ends in a report",
 "For every input text (well-formed, ill-formed, garbled, not even UTF-8) and every option, the tool ends, with either an error message and no output, or success and an output that is a well-sorted problem with one check-sat. It never panics, overflows its stack or runs forever.",
 ["inputs", "programs", "configurations"], "all texts up to a few kilobytes with terms nested at most 200 deep, all supported option combinations",
 "Tests feed a few dozen valid protocols; panics and endless recursions are on inputs nobody wrote down.",
 [C+"parser/mod.rs", "crates/cryptovampire/grammar.pest", C+"parser/ast/macros.rs", C+"parser/parser/parse_step_cell_asserts", C+"parser/parser/declare.rs", C+"parser/parser/parsable_trait.rs", C+"main.rs", C+"problem/cell_dependancies"],
 [("declarations and terms", C+"parser/parser/declare.rs"), ("macros", C+"parser/ast/macros.rs"), ("reading and reporting", C+"main.rs")],
 "fuzzing: structured mutations of generated files (terms moved to wrong places, tokens swapped, token soup, bytes), crash and well-formedness oracle",
 "Stack overflows on terms nested thousands of levels deep are not looked for; the built-in subterm relation of vampire is left out.")
prop("C14", "A goal exported by Squirrel keeps its meaning, in every system it speaks of",
 "For every goal dump in Squirrel's JSON format (actions with control flow, updates, names, operators, variables, hypotheses, tuples and projections, bi-system terms; names distinct within one scope), the tool accepts it and emits one problem per system of the goal. The runs of the exported protocol that satisfy the hypotheses and falsify the query, and only those, are models of the problem: outputs, conditions, states and inputs are those of the actions, sequential and conflicting actions are ordered and exclusive as their control flow says, and each system gets its own side of every bi-system term.",
 ["inputs", "programs", "configurations"], "all exported protocols and goals of the first-order fragment, all runs over finite domains, all systems of a goal",
 "The tests check that a handful of dumps convert; no test compares the meaning of the converted problem with that of the dump.",
 [C+"squirrel/mod.rs", C+"squirrel/converters/ast_convertion.rs", C+"squirrel/converters/top_level_converter.rs", C+"squirrel/converters/helper_functions", C+"squirrel/json"],
 [("declarations, actions and control flow", C+"squirrel/converters/top_level_converter.rs"), ("terms", C+"squirrel/converters/helper_functions/convertion_functions.rs"), ("systems", C+"squirrel/mod.rs")],
 "property-based testing: generated dumps x runs of a reference machine (and broken runs), every emitted problem evaluated against the reference meaning of its system",
 "At most four steps per run and two systems; user-defined macros with a body (globals), concrete operators and cryptographic declarations in the dump are not generated.")
