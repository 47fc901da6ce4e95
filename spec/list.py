P("P01", "The certificate checker accepts only certificates of true goals",
  "Whatever certificate a check-only session is given, it accepts it only if the goal really follows from the visible facts (or those facts are inconsistent); no sequence of certificate steps, genuine, edited, transplanted from another goal or forged, gets a false goal accepted.",
  ["programs", "inputs", "histories"],
  "Every certificate prefix of enumerated steps over the enumerated theories, every genuine certificate of one theory presented for every neighbouring invalid theory, and every one-step edit of those.",
  "Tests feed the checker a handful of bad certificates; soundness is a statement about every step sequence in every theory, and what breaks it is one rule with one side condition missing.",
  ["src/certificate_trace.rs", "src/kernel/checker.rs", "src/certificate.rs", "src/kernel/equality_graph.rs", "src/kernel/clause.rs", "src/claim_codec.rs"],
  [("trace checker rules", "src/certificate_trace.rs TraceChecker"), ("direct justification of clauses", "src/kernel/checker.rs")],
  "explicit-state breadth-first exploration of checker states over certificate steps, with a finite-model oracle on every accepted prefix",
  "exploration",
  "States are accepted certificate prefixes, transitions are steps of every rule with every premise choice from the enumerated claims; each accepted prefix's claims and each accepted certificate are checked in all finite models of the enumerated sizes. Trusts the small formula evaluator in mc/src/fol.rs.")

P("P02", "A goal reported proved is valid; proved-inconsistent facts are inconsistent",
  "Whenever proof search reports success for a goal, the goal is true in every interpretation of the visible axioms (types may be empty unless something inhabits them), and whenever it reports the assumptions inconsistent, they have no model.",
  ["programs", "inputs"],
  "Every theory of a few axioms and one goal over the small first- and higher-order signatures of the check: any proof search on it, within the activation limit.",
  "Tests assert that particular provable goals are proved and a few unprovable ones are not; no test can quantify over all theories, and unsoundness shows only on the theory that meets the faulty inference.",
  ["src/prover/mod.rs", "src/prover/active_set.rs", "src/prover/passive_set.rs", "src/kernel/clausifier.rs", "src/kernel/clause.rs", "src/kernel/checker.rs", "src/kernel/unifier.rs", "src/kernel/equality_graph.rs", "src/simplifier.rs"],
  [("saturation loop", "src/prover/mod.rs"), ("inference rules and simplification", "src/prover/active_set.rs, src/prover/passive_set.rs, src/kernel/inference.rs"), ("lowering to clauses", "src/kernel/clausifier.rs")],
  "exhaustive bounded enumeration of theories; explicit finite-model checking of every verdict",
  "exploration",
  "Every theory within the stated menus and bounds is run through the real elaborator, clausifier and prover; each positive verdict is checked against all finite models of the enumerated domain sizes. Trusts the small formula evaluator in mc/src/fol.rs.")

P("P03", "Every proof that is found can be written down and independently re-checked",
  "For every goal that search proves, a certificate can be produced, survives being written to and read from its stored form unchanged, and is accepted by a fresh check-only session that never searched.",
  ["programs", "inputs"],
  "Every theory of the enumerated signatures, axioms and goals that search proves within the activation limit.",
  "The tests replay certificates for chosen examples; the certificate writer covers each inference with separate code, so only all proofs of a theory space show which combinations it cannot express.",
  ["src/certificate_trace.rs", "src/certificate.rs", "src/processor.rs", "src/code_generator.rs", "src/kernel/checker.rs", "src/claim_codec.rs"],
  [("certificate writing", "src/certificate_trace.rs TraceWriter"), ("certificate checking", "src/certificate_trace.rs TraceChecker"), ("code generation for claims", "src/code_generator.rs")],
  "exhaustive bounded enumeration of theories; produced certificates replayed in a fresh session",
  "exploration",
  "Every theory within the stated menus is proved by the real prover and its certificate serialized, parsed and checked by a new session of the real checker. Known failures are listed by theory in known-findings.txt.")

P("P04", "Known facts are closed under congruence and unit propagation",
  "After any sequence of assertions of ground clauses, in any order, the checker accepts every ground clause that congruence closure and unit propagation derive from them and none that they do not entail, it reports a contradiction exactly when it has one, and the trace it gives for a contradiction replays from the asserted clauses.",
  ["histories", "inputs"],
  "Every sequence of assertions up to a depth from enumerated menus of ground literals and clauses over first-order, higher-order and boolean-equality signatures.",
  "Union-find with congruence, pending work and clause watching goes wrong only in particular insertion orders; tests fix a few orders.",
  ["src/kernel/equality_graph.rs", "src/kernel/checker.rs", "src/kernel/clause_set.rs"],
  [("equality graph", "src/kernel/equality_graph.rs"), ("clause checking", "src/kernel/checker.rs Checker::check_clause")],
  "explicit-state exploration of assertion histories of the real structures against a naive congruence-closure reference model",
  "exploration",
  "All histories up to the depth are executed on the real EqualityGraph and Checker; the reference closes the same facts naively (what must be accepted) and decides entailment by case split over the enumerated atoms (what may be accepted).")

P("P05", "Normalization, lowering and clause inference preserve meaning",
  "In every interpretation (types may be empty), normalizing a term or clause and lowering a formula to clauses give something equivalent and of the same type, the clauses inferred from a clause (equality resolution and factoring, injectivity, extensionality, boolean reductions) are implied by it wherever the types of eliminated variables are inhabited, and what is called a tautology or impossible is. Normalizing is idempotent, leaves every subterm normalized, and gives one result for both orientations of an equality.",
  ["inputs"],
  "Every well-typed term, closed formula and clause of one to three literals up to a size over propositional, first-order, possibly-empty-type, higher-order and relational signatures.",
  "Tests check chosen shapes; the transformations are deep case analyses (binders, polarity, if-then-else, eta, variable elimination) where one missing shift or case shows on a particular nesting only.",
  ["src/kernel/term_normalization.rs", "src/kernel/clausifier.rs", "src/kernel/clause.rs", "src/kernel/inference.rs", "src/kernel/term.rs", "src/kernel/literal.rs"],
  [("term normalization", "src/kernel/term_normalization.rs"), ("lowering", "src/kernel/clausifier.rs"), ("clause inference", "src/kernel/inference.rs, src/kernel/clause.rs")],
  "exhaustive bounded enumeration of terms, formulas and clauses, each compared in every finite model of the enumerated sizes",
  "exploration",
  "Each transformation runs on the real code for every enumerated input and both sides are evaluated in all models. Trusts the evaluator in mc/src/keval.rs.")

P("P06", "A build reports for the current sources what a build from scratch reports",
  "After any history of edits, full, partial, parallel, forced and check builds, a build's verdict and diagnostics are those of a build of the same sources without any stored certificates or manifests: nothing is skipped or accepted because of what an earlier version was. A check that never searches accepts what was just verified, accepts nothing a build would reject, and writes nothing; failed builds leave stored results alone and no build touches sources.",
  ["histories", "configurations"],
  "Every history of builds up to a depth over every combination of variants of the source files, from empty and from verified states, in a flat project and in one with a package interface.",
  "What is skipped depends on manifests left by any mix of earlier builds of other versions; tests replay a few two-step histories.",
  ["src/builder.rs", "src/build_cache.rs", "src/manifest.rs", "src/verifier.rs", "src/project.rs", "src/certificate.rs"],
  [("skipping of unchanged modules", "src/builder.rs Builder::try_skip_unchanged_module"), ("stored certificates and manifests", "src/build_cache.rs BuildCache::save_merging_old"), ("staged loading and building", "src/verifier.rs Verifier::load_and_build_streaming")],
  "explicit-state breadth-first exploration of project directories under builds by the real verifier",
  "exploration",
  "State: the stored certificates and manifests; transition: any choice of source variants, then one build by the real Verifier in a scratch directory. Oracle: a from-scratch build of the same sources, itself compared with the verdict known by construction of the menu.")

P("P07", "A build that dies or fails while storing results leaves a project that recovers",
  "If a build is interrupted at any point while it stores its results, also in the middle of writing a file, or one file operation fails, the user's files are intact and the next build reports what a build from scratch reports. A check accepts whatever that next build verified, including modules it skipped, and never accepts what a build would reject.",
  ["crash_points", "fault_sequences", "histories"],
  "Every crash point between and inside the file changes of a build, and every single failing file operation, over builds from empty and verified states of every variant of three small projects; then further builds and checks of the same, the earlier or another version.",
  "Tests never interrupt a build; whether the order of writes leaves a manifest vouching for certificates that are gone depends on the crash point and on what was stored before.",
  ["src/build_cache.rs", "src/certificate.rs", "src/manifest.rs", "src/project.rs", "src/builder.rs"],
  [("order of writes", "src/build_cache.rs BuildCache::save_merging_old"), ("certificate files", "src/certificate.rs CertificateStore::save"), ("project format version", "src/project.rs Project::write_project_format_version")],
  "exhaustive exploration of crash points and single I/O faults with an interposed file layer under the real verifier",
  "fault_enumeration",
  "File-changing system calls of the real build are recorded and replayed on a model of the disk, which must reproduce the real outcome; the disk after every prefix and torn write is then a state from which real builds and checks run. Failures and deaths are also injected into the real calls. Process death only, not power loss; one fault per history.")
P("P08", "Proof blocks: claims follow from what is in scope; finished blocks export",
  "Inside forall, if/else, match, satisfy, let and theorem proofs, every claim is its own obligation and is only proved if it holds in every model and for all values of the local names in which everything visible at that line holds. After a block exactly what it established is available, generalised over its arguments and conditions, and a claim that restates it is proved. Assumptions are called inconsistent only if no model satisfies them.",
  ["programs"],
  "Every program of about forty nesting shapes of forall, if/else, match, satisfy (constants and functions), let and theorem with by-blocks, filled from formula menus over three signatures (plain, a possibly empty type, an inductive type), with every listed axiom set; every claim of each.",
  "Scoping mistakes (a premise leaking out of a block, a witness escaping, a negated condition lost, a fact visible in the wrong branch) show only for particular combinations of blocks; unit tests hold a handful of programs and only expected verdicts.",
  ["src/elaborator/block.rs", "src/elaborator/environment/mod.rs", "src/elaborator/environment/add_statement", "src/elaborator/node.rs", "src/elaborator/lowered_module.rs"],
  [("blocks and what they export", "src/elaborator/block.rs Block"), ("visible facts of a goal", "src/processor.rs Processor::add_visible_module_facts"), ("goals", "src/elaborator/goal.rs Goal")],
  "bounded exhaustive enumeration of programs run through the real elaborator and prover, judged against all finite models and local values",
  "exploration",
  "The oracle tracks worlds (finite model plus values of local names) through the program; models have at most two elements per sort (three for the inductive type). Prover incompleteness is only judged for claims that restate something visible.")
P("P09", "Declarations state what they define, no more and no less",
  "What inductive types, structures, let and define (also with satisfy or match), typeclasses and instances add to the facts holds by construction of what they define, is conservative (every model of what came before has an extension), and is as strong as the language documents; obligations raised on the way say exactly what the definition needs. A typeclass condition, an inherited one or a theorem over the class means the same after instantiation.",
  ["programs"],
  "Every combination of a menu of declarations up to a size: inductive types by constructor shapes, structures by field types and constraints, let and define bodies, instances by condition, definition and style of writing it.",
  "Whether a generated axiom is too strong shows in no test that happens not to derive false from it; a shifted variable or a missed substitution matters only for some body inside some condition.",
  ["src/elaborator/environment/add_statement", "src/elaborator/evaluator.rs", "src/elaborator/acorn_value.rs", "src/elaborator/binding_map.rs", "src/elaborator/type_unifier.rs"],
  [("declarations", "src/elaborator/environment/add_statement"), ("substitution", "src/elaborator/acorn_value.rs AcornValue::bind_values"), ("instances", "src/elaborator/environment/add_statement (typeclass and instance statements)")],
  "bounded exhaustive enumeration of declarations run through the real elaborator, facts and obligations compared with an independent specification in all finite models",
  "exploration",
  "Facts are read off the elaborated values by mc/src/facts.rs and evaluated in every model of the enumerated sizes; declarations of types without finite models are compared with a reference set of statements instead.")
P("P10", "From source text to clauses a statement keeps its meaning",
  "Every statement, once elaborated and lowered to the clauses the prover and checker work with, says exactly what was written: as a fact its clauses are equivalent to it, also in the form modules export for checking, and as a goal they are equivalent to its negation under its hypotheses. No statement is dropped: each claim yields a goal and each fact its clauses, or the module is rejected with a diagnostic.",
  ["programs", "inputs"],
  "Every formula up to a depth along a path and with every pair of non-leaf parts, over a signature with inductive types (match, nested in every position) and one with a possibly empty type and one with a type parameter and a generic inductive type, as axiom and as theorem; and every declaration of P09.",
  "Lowering distributes conditions, cases, binders and function equations through each other; a wrong quantifier under one combination yields clauses stronger than the statement, and only that combination shows it.",
  ["src/kernel/clausifier.rs", "src/elaborator/to_term.rs", "src/elaborator/lowering.rs", "src/elaborator/lowered_module.rs", "src/elaborator/environment/mod.rs", "src/elaborator/evaluator.rs"],
  [("values to terms", "src/elaborator/to_term.rs"), ("clauses", "src/kernel/clausifier.rs"), ("lowering of a module", "src/elaborator/environment/mod.rs Environment::lower_nodes_pass")],
  "exhaustive bounded enumeration of statements through the real front end, source, elaborated value and clauses compared in every finite model",
  "exploration",
  "Reads values and clauses back with mc/src/facts.rs and mc/src/lowered.rs and evaluates all three in every model of the signature (types of two and three values; the possibly empty type of zero to two).")
P("P11", "Accepted definitions are conservative",
  "An inductive type is accepted only if it stands in no argument of a function, directly or inside another type that may use it so, and strictly positive ones are accepted. A recursive definition is accepted only if it ends on every argument (and is accepted when each call is on a part of the same argument), and nothing is ever given two definitions: names in a module, attributes and instances across all modules in view.",
  ["programs"],
  "Every constructor argument type up to a nesting depth over a menu of type constructors; every recursive body up to a depth, in six settings of the definition; every ordered pair of definition forms in five arrangements of modules.",
  "One accepted negative occurrence, non-terminating body or second definition makes everything provable, and it takes a particular nesting, argument position or import diamond.",
  ["src/elaborator/termination_checker.rs", "src/elaborator/acorn_type.rs", "src/elaborator/environment/add_statement", "src/elaborator/binding_map.rs"],
  [("positivity", "src/elaborator/environment/add_statement/datatypes.rs check_strict_positivity"), ("termination", "src/elaborator/termination_checker.rs"), ("names", "src/elaborator/binding_map.rs, src/elaborator/environment/add_statement/attributes.rs")],
  "exhaustive bounded enumeration of definitions through the real front end; accepted recursion executed on all small arguments, positivity and uniqueness judged by construction",
  "exploration",
  "Non-termination is judged by running the body (lazily, unknown functions applied to everything) on arguments up to three constructors deep.")
P("P12", "Editor sessions answer for the current contents, whatever came before",
  "After any sequence of saves, overtaken builds, unsaved changes, closes and changes on disk, reloading and building what a save affects reports the same targets, module contents, errors, diagnostics, verified ranges and goals with or without a proof as a session that has just opened the same contents. An import cycle is reported either way. The certificates a session holds in memory are those stored in the directory.",
  ["histories"],
  "Every history up to a length of actions (save any module as any of its variants, the same overtaken after k events, change without saving, close, change on disk unnoticed) over a chain of imports with errors and cycles, a package with an interface, and a project that gains a prelude.",
  "Stale state survives only in particular histories (a dependency changed behind an unchanged module, a name that failed to load before and now loads, a build overtaken half way); a test follows one.",
  ["src/project.rs", "src/builder.rs", "src/build_cache.rs", "src/loader", "src/module.rs"],
  [("open files and reloads", "src/project.rs Project::update_file_for_ide, reload_dependent_targets_by_path, close_file"), ("parallel loading", "src/project.rs ParallelProjectLoader"), ("selection", "src/project.rs Project::handle_selection"), ("merging caches", "src/project.rs Project::update_build_cache")],
  "exhaustive enumeration of bounded histories of editor actions on the real project, each compared with a session that has just opened the resulting contents",
  "exploration",
  "The loop of the language server around the project is repeated in the harness. Which of several modules of a broken package or import cycle carries the message depends on load order and is not judged.")

P("P13", "A package keeps what its interface promises, and nothing else is used",
  "A module outside a package may use only what the package's interface declares. If every module of a project verifies, each interface declaration has exactly one implementation in the package, with the same meaning, proved without relying on the interface (not even through other packages); otherwise the build reports an error or warning. Valid packages are accepted.",
  ["configurations", "programs"],
  "Every pair of interface and implementation declaration from a menu of all forms, every placement of two implementations over the files of a package, every graph of support between two packages and a module outside, same words with different meanings, and every way to name a module from every place.",
  "An interface theorem is trusted by everyone who imports it; that its proof goes round in a circle through a second package, or means something else, shows only for a particular arrangement of files.",
  ["src/project.rs", "src/syntax/statement.rs", "src/elaborator/evaluator.rs", "src/elaborator/environment/mod.rs"],
  [("package validation", "src/project.rs Project::validate_package_implementations, module_relying_on_own_interface"), ("visibility", "src/project.rs validate_import_visibility, src/elaborator/evaluator.rs"), ("signatures", "src/syntax/statement.rs Statement::package_signatures")],
  "exhaustive enumeration of package configurations, each built, checked, strictly checked and built again by the real verifier, verdict known from the construction",
  "exploration",
  "Whether a sound arrangement in which a package only touches its own interface is accepted is left open. That same words may mean different things is a known finding.")
P("P14", "Source text is read by the rules and printed so that it reads back the same",
  "Text is cut into tokens by the token rules, with positions right for an editor, and expressions are grouped by the strength of their operators. Every expression and statement, parsed or built, prints as text that reads back as the same tree. The code printed for a value (as in suggested proofs and certificates) means that value again.",
  ["inputs", "programs"],
  "Every text up to a length over the characters that matter to the scanner; every expression up to four operators with every prefix and postfix operator; every built tree with three; every pair of statement forms in every kind of block; every value up to a depth over four signatures.",
  "Precedence, associativity and parenthesising mistakes are wrong for one combination of neighbouring operators and give text with another meaning; tests print a few examples.",
  ["src/syntax/token.rs", "src/syntax/expression.rs", "src/syntax/statement", "src/code_generator.rs"],
  [("tokens", "src/syntax/token.rs Token::scan"), ("operators", "src/syntax/expression.rs Expression::parse"), ("printing values", "src/code_generator.rs CodeGenerator::value_to_expr")],
  "bounded exhaustive enumeration of texts, expressions, statements and values through the real scanner, parser and printers, against independent token and grammar rules",
  "exploration",
  "Token rules, operator table and statement forms are written a second time in mc/src/bin/p14.rs. Values are compared as elaborated values after printing and reading.")

P("P15", "Any text is answered, and an editor's questions get the right answers",
  "Whatever text a module has, loading it ends with a module or with an error that lies inside that text, and no question an editor asks at any position crashes. In an accepted module go to definition leads to where the name under the cursor is declared, also in another module, and hovering gives the type it has there. Completion offers only names that fit what was typed.",
  ["inputs", "programs"],
  "Every removal, repetition, exchange and replacement of one word and every removal or insertion of one character in small modules that together use every form of statement; every position of every accepted one; every form of declaration in every form of use, in one module and from another.",
  "An editor sends every intermediate text while a user types; a panic kills the session, and a misplaced definition range is wrong for one form of use only. Tests ask a few positions of a few texts.",
  ["src/elaborator", "src/syntax", "src/project.rs", "src/kernel/symbol_table.rs"],
  [("loading", "src/project.rs load_module_by_name"), ("hover and definition", "src/project.rs hover, definition_location, hover_for_info"), ("completion", "src/project.rs get_completions")],
  "bounded exhaustive enumeration of edits of modules and of positions through the real elaborator and editor queries, against the declarations written down separately",
  "exploration",
  "The quick tier asks at every position of a sixteenth of the accepted texts and at every seventh of the others. Not judged: where go to definition leads for fields, constructors and methods, whether there is an answer inside the condition of a satisfy statement, and the wording of documentation.")

P("P16", "Types indexed by values: proofs, transport and certificates",
  "For types indexed by values, whatever is proved is true of every value at every index, and a certificate written for such a proof is accepted by a fresh check. Transport is allowed only where the indices are proved equal and yields the value with the same fields or the same values of a function. What the definitions of such types say outright is proved.",
  ["programs"],
  "Every statement up to a depth, alone, under every simple hypothesis and with its last argument bound, in fourteen contexts over structures, constrained structures, functions and nested families indexed by one or two values; every transport between two indices from a menu under every hypothesis, in proofs and definitions, with the claims about its result.",
  "A wrong index is accepted or rejected only for one way of nesting types and binders; the tests have a few vectors. A finite standard model decides each statement.",
  ["src/elaborator/acorn_type.rs", "src/elaborator/environment/add_statement/transport.rs", "src/elaborator/evaluator.rs", "src/kernel", "src/prover"],
  [("index values in types", "src/elaborator/acorn_type.rs bind_values"), ("transport", "src/elaborator/environment/add_statement/transport.rs"), ("certificates of dependent clauses", "src/kernel/proof_step.rs PremiseMap::concretize_premises")],
  "bounded exhaustive enumeration of statements and transports, each searched by the real prover, against evaluation in a finite standard model",
  "exploration",
  "The model of the shared declarations is in mc/src/indexed.rs; declarations over the model are categorical, so a proved statement that the model refutes is unsound. Two defects of certificate writing are known findings. Transport of constrained structures may be refused.")
