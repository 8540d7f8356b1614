NOTE = ("Bounded model checking of the real code: every path of the harness within the stated bounds is executed symbolically on the LLVM IR "
        "compiled from /repo's current tree and every assertion is decided by Z3 for all values; counterexamples are replayed natively. "
        "Trusts rustc's IR generation for riscv64, the engine's IR semantics (sampled paths are re-run natively and compared) and Z3. ")
PIPE = (NOTE + "The AST is handed to the real pipeline (lowering, ownership inference, borrow and slice transformation, optimizer, code generator) through the parser hook; "
  "the emitted Rust text is run by an interpreter of the emitted Rust subset (harness/src/rsi.rs) which also rejects what rustc would reject, and compared with a reference interpreter of C (harness/src/cref.rs). "
  "Undefined C behaviour is excluded. The libclang front end is C04's. ")
FRONT = (NOTE + "The C text and the cursors and tokens that libclang would give for it are built together by harness/src/cc.rs, whose functions stand in for libclang's; the real front end (decy-parser's extraction) runs on them, followed by the whole pipeline, and the emitted Rust is run and compared as in C01. "
  "In the native replay the model's cursors are compared with those of the real libclang on the same text, and a difference invalidates the replay. Undefined C behaviour is excluded. ")
HOOKS = {"guard": "--cfg decy_verif", "enable": "RUSTFLAGS='--cfg decy_verif' (set by check.py when it builds the harness)",
         "source_commits": __import__("subprocess").run(["git","-C","/repo","log","--format=%H","--grep=^hook:"],capture_output=True,text=True).stdout.split()}
PROPS = [
 dict(id="C01", title="The emitted Rust expression has the value of the C expression",
  statement="For every C expression over int, unsigned and character operands (binary and unary operators in every grouping, casts, ternaries, calls, increments and assignments as operands, character and integer literals), the Rust that transpiling the function emits computes, for all operand values for which the C expression is defined, the value the C expression has, and evaluates the same calls in the same order; where operands have one integer type and truth values are used as such, the emitted expression is accepted by rustc.",
  over=["programs", "inputs"],
  quant="all expressions of up to three operators of the listed kinds and all operand values",
  why="The code generator's tests compare the emitted text with an expected fragment for some shapes; that the text has the C value for every operator pair, grouping, operand type and operand value is a quantified claim about its meaning.",
  files=["crates/decy-codegen/src/expr_gen/mod.rs", "crates/decy-codegen/src/expr_gen/binary_ops.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/optimize.rs", "crates/decy-core/src/lib.rs"],
  mech=[("expression generation", "crates/decy-codegen/src/expr_gen/mod.rs generate_expression_with_target_type"), ("operator lowering", "crates/decy-hir/src/lib.rs HirExpression::from_ast_expression, convert_binary_operator")],
  observe="decy_core::transpile_with_includes", note=PIPE + "Expressions to three operators; operands 32 bits wide (7 or 5 bits where * / % occur)."),
 dict(id="C02", title="The emitted Rust function follows the control flow of the C function",
  statement="For every C function built from declarations, assignments (plain and compound), if/else, while and for loops, break, continue, return, switch (every case ending in break or return) and calls, the Rust that transpiling it emits is accepted by rustc, returns the same value, performs the same calls with the same arguments in the same order, and terminates whenever the C function does, for all parameter values for which the C function is defined; a name declared in an inner block or loop does not disturb the outer one.",
  over=["programs", "inputs"],
  quant="all function bodies within the bounds (three statements, nesting two, loops up to 60 steps) and all parameter values",
  why="Tests check for fragments in the emitted text or run one input; jumps, scoping and switch dispatch must be right for every body and every path through it.",
  files=["crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/lib.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/lib.rs"],
  mech=[("statement generation", "crates/decy-codegen/src/stmt_gen.rs generate_statement_with_context"), ("statement lowering", "crates/decy-hir/src/lib.rs HirStatement::from_ast_statement")],
  observe="decy_core::transpile_with_includes", note=PIPE),
 dict(id="C22", title="Array, structure and pointer accesses reach the right memory",
  statement="For every C function that uses local int arrays, structures, pointer parameters to distinct objects, or an array parameter with its length, the Rust that transpiling it emits returns the same value, performs the same calls, and leaves every object its pointer parameters refer to with the same contents, for all contents and all in-bounds indices; a parameter the function writes through is taken by mutable reference.",
  over=["programs", "inputs"],
  quant="all bodies of up to three memory statements over such objects, all contents, all in-bounds indices",
  why="Whether a pointer becomes &T, &mut T, a slice or a raw pointer is decided by heuristics over the whole body; tests look at signatures of selected functions, not at the resulting memory for all bodies and contents.",
  files=["crates/decy-ownership/src/borrow_gen.rs", "crates/decy-ownership/src/array_slice.rs", "crates/decy-ownership/src/dataflow.rs", "crates/decy-ownership/src/inference.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/transform_gen.rs"],
  mech=[("borrow transformation", "crates/decy-ownership/src/borrow_gen.rs BorrowGenerator::transform_function"), ("array parameters to slices", "crates/decy-ownership/src/array_slice.rs ArrayParameterTransformer::transform"), ("mutability inference", "crates/decy-ownership/src/dataflow.rs")],
  observe="decy_core::transpile_with_includes", note=PIPE),
 dict(id="C04", title="The front end reads C as written, whichever way it is spelled",
  statement="For every C function, what decy emits depends only on what the function means, not on how it is spelled: with or without braces around single statements, with redundant parentheses, with any spacing and line breaks, with x = x op e written as x op= e, x++ or --x, with else-if chains, with any part of a for loop absent or a comma list, with do-while loops, with case bodies in braces or not and default first or last, with integer literals in any base and character literals in any escape, with casts, ternaries and assignments as operands and as conditions: no statement, operator, operand or literal is dropped, exchanged or regrouped, and the emitted Rust returns the value and performs the calls of the C function for all parameter values for which it is defined.",
  over=["programs", "inputs"],
  quant="all functions of the menus of C01, C02 and C22 in four styles of writing, for loops with every combination of parts, do-while loops, compound assignments to every kind of object, literals in every base and escape, and all parameter values",
  why="The parser's tests parse one program each and look at one node; that no combination of operators, statement forms and spellings loses or changes something is a claim about every program.",
  files=["crates/decy-parser/src/extract/mod.rs", "crates/decy-parser/src/extract/statements.rs", "crates/decy-parser/src/extract/expressions.rs", "crates/decy-parser/src/extract/types.rs", "crates/decy-parser/src/parser.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/lib.rs"],
  mech=[("statement extraction", "crates/decy-parser/src/extract/mod.rs visit_statement"), ("expression extraction", "crates/decy-parser/src/extract/expressions.rs visit_expression, visit_binary_operand, extract_unary_op"), ("for, if, while, switch", "crates/decy-parser/src/extract/statements.rs")],
  observe="decy_core::transpile_with_includes", note=FRONT + "Not covered: macros, headers, string literals, C++ and CUDA."),
 dict(id="C17", title="Printed text is what the C program prints",
  statement="For every call of printf or puts with a literal text (any characters, braces, quotes and escapes, adjacent literals, %%) and the conversions %d %i %u %x %X %o %c %s, with a length, a width and the flags - 0 +, and arguments of the types they ask for, the Rust that transpiling the function emits is accepted by rustc and prints the same characters in the same order as the C program, for all values of the arguments: every argument goes to its own conversion, numbers in its base and padded as asked, %c as a character, truth values as 0 or 1.",
  over=["programs", "inputs"],
  quant="all calls of up to three conversions with all flags and widths of the menu, texts around them and argument forms of the menu, in four styles of writing, and all argument values",
  why="Tests look for fragments like {:05} in the emitted macro; whether each combination of flags, width, conversion, argument type and surrounding text prints what C prints is a claim about all of them and all values.",
  files=["crates/decy-codegen/src/expr_gen/misc.rs", "crates/decy-codegen/src/expr_gen/calls.rs", "crates/decy-codegen/src/expr_gen/literals.rs", "crates/decy-parser/src/extract/expressions.rs"],
  mech=[("format conversion", "crates/decy-codegen/src/expr_gen/misc.rs convert_format_specifiers, find_string_format_positions"), ("printf and puts", "crates/decy-codegen/src/expr_gen/calls.rs gen_call_printf"), ("string literals", "crates/decy-codegen/src/expr_gen/literals.rs gen_expr_string_literal; crates/decy-parser/src/extract/expressions.rs extract_string_literal")],
  observe="decy_core::transpile_with_includes", note=FRONT + "Output is compared piece by piece: literal characters, and numbers with base, width, alignment, padding and sign. "),
 dict(id="C23", title="Programs of several functions, globals and enums behave as in C",
  statement="For every C program made of several functions (in any order, with prototypes before or after, recursive or mutually recursive), global variables (ints, unsigned, characters, arrays, structures, initialized or not), enums and structures, the file that transpiling it emits is accepted by rustc and calling a function of it returns what the C function returns, performs the same external calls with the same arguments in the same order, and leaves every global variable with the value it has in C, for all argument values: arguments reach the parameters they are meant for (by value, through pointers, as arrays with their lengths, as structures), callees change exactly what C's callees change, locals hide globals, enum constants have their C values, and names that are reserved in Rust stay usable.",
  over=["programs", "inputs"],
  quant="all programs of the menus (up to four functions, four globals, six enum constants, thirty-eight names) and all argument values",
  why="Tests look for fragments in the emitted text of single functions; whether call sites agree with the signatures emitted elsewhere, and whether state shared between functions ends up as in C, is a claim about whole programs and all values.",
  files=["crates/decy-core/src/lib.rs", "crates/decy-codegen/src/expr_gen/calls.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/func_gen.rs", "crates/decy-codegen/src/transform_gen.rs", "crates/decy-codegen/src/type_gen.rs", "crates/decy-codegen/src/expr_gen/literals.rs"],
  mech=[("program assembly", "crates/decy-core/src/lib.rs process_ast_to_rust, deduplicate_functions, build_all_function_sigs, build_slice_func_arg_mappings, generate_initialized_global_code"), ("calls", "crates/decy-codegen/src/expr_gen/calls.rs gen_call_default"), ("globals", "crates/decy-codegen/src/stmt_gen.rs generate_assignment_statement; crates/decy-codegen/src/expr_gen/literals.rs gen_expr_variable"), ("enums", "crates/decy-codegen/src/type_gen.rs generate_enum"), ("signatures", "crates/decy-codegen/src/transform_gen.rs generate_annotated_signature_with_func")],
  observe="decy_core::transpile_with_includes", note=PIPE + "Programs of up to four functions; the interpreter of the emitted text also knows statics, constants, unsafe, borrows of arguments and the rule that a binding cannot hide a static. "),
 dict(id="C03", title="The optimizer preserves the meaning of every function",
  statement="For every function in the intermediate representation, the optimised function returns the same value, performs the same calls with the same arguments in the same order, and terminates exactly when the original does, for all values of its parameters. Optimising never panics and never changes the function's signature.",
  over=["programs", "inputs"],
  quant="all functions built from integer literals (any value), variables, calls, unary/binary operators, casts, ternaries, declarations, assignments, branches and loops, and all parameter values",
  why="The optimizer's unit tests check a handful of literal shapes for their folded form; whether the fold is right for all literals, operand types, scopes and side effects is a quantified claim they do not touch.",
  files=["crates/decy-core/src/optimize.rs"],
  mech=[("constant folding", "crates/decy-core/src/optimize.rs fold_constants_expr/fold_int_binary"),
        ("dead-branch removal", "crates/decy-core/src/optimize.rs remove_dead_branches"),
        ("temporary elimination", "crates/decy-core/src/optimize.rs eliminate_temporaries")],
  observe="decy_core::optimize::optimize_function",
  note=NOTE + "Oracle: a reference interpreter of the C meaning of the intermediate representation (harness/src/cref.rs); expressions to depth 3, bodies to 3 statements, loops to 24 steps; undefined C behaviour (signed overflow, division by zero, over-wide shifts) is excluded."),
 dict(id="C12", title="The model registry keeps one sound active version through every history",
  statement="Through every sequence of registrations, rollbacks, targeted rollbacks and automatic rollbacks, the model registry accepts exactly the versions newer than the latest, activates a registered version exactly when it meets every quality threshold and is better than the active one (accuracy decides when it differs by more than 0.01, F1 otherwise), has at most one active version, which is never marked rolled back, rolls back only to the newest older version that is not itself rolled back, keeps at most the configured number of versions without dropping the active one, and records every rollback with its reason; an operation that fails changes nothing. A version's text parses back to the version and bumped versions are newer.",
  over=["histories", "inputs"],
  quant="all sequences of registry operations and all metric values within the bounds",
  why="Tests run a few fixed sequences; that the invariants survive every interleaving of registrations, rollbacks and pruning is a claim about all histories.",
  files=["crates/decy-ownership/src/model_versioning.rs"],
  mech=[("registration and pruning", "crates/decy-ownership/src/model_versioning.rs ModelVersionManager::register_version, prune_history"), ("rollback", "crates/decy-ownership/src/model_versioning.rs rollback, rollback_to, auto_rollback_if_needed")],
  observe="decy_ownership::model_versioning::ModelVersionManager", note=NOTE + "Oracle: a list model of the registry in the harness."),
 dict(id="C13", title="Retraining promotes only models that pass every gate",
  statement="For every sequence of retraining executions, a model is promoted only if there are enough samples, training succeeded, precision and recall reach the configured minima, and F1 has not dropped by more than the allowed degradation against the current model; every other outcome names the gate that failed and leaves the current version unchanged; every execution is recorded once with its outcome and sample count, the success rate is the share of promotions, and the data split is an ordered partition of the samples with the configured shares.",
  over=["histories", "inputs"],
  quant="all sequences of executions and all metrics, gate values and sample counts within the bounds",
  why="Tests drive single executions with fixed metrics; the gates and the state left behind must be right for all metrics and histories.",
  files=["crates/decy-ownership/src/retraining_pipeline.rs", "crates/decy-ownership/src/model_versioning.rs"],
  mech=[("execution", "crates/decy-ownership/src/retraining_pipeline.rs RetrainingPipeline::execute"), ("split", "crates/decy-ownership/src/retraining_pipeline.rs DataSplit::new")],
  observe="decy_ownership::retraining_pipeline::RetrainingPipeline", note=NOTE + "Oracle: the gate rules restated in the harness."),
 dict(id="C15", title="The labelling queue hands out the most uncertain samples first",
  statement="Through every sequence of enqueueing, taking samples for labelling, submitting labels and collecting labelled samples, the active-learning queue hands out pending samples in order of decreasing uncertainty (first come first among equals), never holds more than its maximum and drops only the least uncertain, numbers samples consecutively, accepts only labelled samples as labelled, and its statistics equal what happened. The learner queues a prediction exactly when its uncertainty reaches the threshold.",
  over=["histories", "inputs"],
  quant="all sequences of queue operations and all scores within the bounds",
  why="Tests enqueue a few fixed scores; order, capacity and counts must hold for all scores and interleavings.",
  files=["crates/decy-ownership/src/active_learning.rs"],
  mech=[("queue", "crates/decy-ownership/src/active_learning.rs SampleQueue::enqueue, batch_for_labeling, submit_labeled, stats"), ("learner", "crates/decy-ownership/src/active_learning.rs ActiveLearner::process_prediction")],
  observe="decy_ownership::active_learning::{SampleQueue, ActiveLearner}", note=NOTE + "Oracle: a sorted list in the harness."),
 dict(id="C05", title="The build order puts every file after the files it depends on",
  statement="For every set of files and dependencies between them, the build order succeeds exactly when the dependencies have no cycle, lists every file exactly once and every file after all files it depends on; an order read from the files' text has a dependency exactly where a line is an #include of another file of the set, however the line is spaced or commented and whichever directories it goes through.",
  over=["inputs", "programs"],
  quant="all dependency graphs on up to four files and all include lines of the listed forms",
  why="Tests build a few graphs by hand; acyclicity, completeness and order must hold for every graph, and the recognition of dependencies for every line.",
  files=["crates/decy-core/src/lib.rs"],
  mech=[("graph", "crates/decy-core/src/lib.rs DependencyGraph::topological_sort, from_files, parse_include_directives")],
  observe="decy_core::DependencyGraph", note=NOTE + "Oracle: transitive closure of the dependency relation in the harness."),
 dict(id="C06", title="The transpilation cache never returns a stale result",
  statement="Through every history of storing results, looking them up, changing, deleting or recreating the source file or its dependencies, saving and reloading the cache, a lookup returns the stored result exactly when the file and every dependency have the contents they had when it was stored, never another result and never one for a file that was not stored; saving and reloading preserves every entry, and the statistics count the entries and hits.",
  over=["histories"],
  quant="all histories of five operations over one file with two dependencies",
  why="Tests change one file once; a stale hit needs a particular order of storing, changing, deleting and reloading.",
  files=["crates/decy-core/src/lib.rs"],
  mech=[("cache", "crates/decy-core/src/lib.rs TranspilationCache::insert, get, save, load, statistics")],
  observe="decy_core::TranspilationCache", note=NOTE + "Oracle: a snapshot of the contents at the last store."),
 dict(id="C07", title="Include expansion hands the parser each included text once and in place",
  statement="For every main file and its headers, the text handed to the parser is the main text with each local #include replaced, the first time the file is reached, by the file's own expansion relative to that file's directory, and removed afterwards (also when include chains are circular or go through parent directories), with the prototypes of each known system header inserted once at its first use, and all other lines unchanged and in order; a local include that does not exist is an error.",
  over=["programs"],
  quant="all combinations of include lines within the bounds, over four headers in two directories",
  why="Tests include one or two headers; duplication, order, circular chains and directories combine in many ways.",
  files=["crates/decy-core/src/lib.rs", "crates/decy-stdlib/src/lib.rs"],
  mech=[("expansion", "crates/decy-core/src/lib.rs preprocess_includes"), ("prototypes", "crates/decy-stdlib/src/lib.rs StdlibPrototypes::inject_prototypes_for_header")],
  observe="decy_core::transpile_with_includes (text recorded by the parser hook)", note=NOTE + "Oracle: a reference expansion over the same lines."),
 dict(id="C14", title="Compile metrics equal what was recorded",
  statement="For every sequence of recorded successes, failures and resets, the totals, the success rate, the comparison with a target and the error histogram are those of the outcomes since the last reset; a failure counts under the first rustc error code in its message (or UNKNOWN), for every message; the rates of tiers, reports and equivalence records are the quotients of their counts, and 0 for no files.",
  over=["histories", "inputs"],
  quant="all sequences of six outcomes, any target, all short messages, all counters within the bounds",
  why="Tests record a few outcomes with usual messages; the counts and the code extraction must be right for every message and order.",
  files=["crates/decy-core/src/metrics.rs"],
  mech=[("metrics", "crates/decy-core/src/metrics.rs CompileMetrics, TierMetrics, ConvergenceReport, EquivalenceMetrics")],
  observe="decy_core::metrics", note=NOTE),
 dict(id="C16", title="Transpiling the same input gives the same text every time",
  statement="For every program, transpiling it again (in another process, with other hash seeds) gives the same Rust text, whichever of the transpile functions is used, and reports (the metrics in Markdown and JSON) of equal contents are equal texts: no output depends on the iteration order of a hash map.",
  over=["programs", "schedules"],
  quant="all programs of up to three functions out of the listed kinds and all iteration orders of the first three keys of any one hash map",
  why="A test run sees one iteration order per map and compares with nothing; that no order reaches the output is a claim about all orders.",
  files=["crates/decy-core/src/lib.rs", "crates/decy-core/src/metrics.rs", "crates/decy-ownership/src/lifetime_gen.rs", "crates/decy-ownership/src/inference.rs", "crates/decy-ownership/src/dataflow.rs", "crates/decy-codegen/src/lib.rs"],
  mech=[("pipeline", "crates/decy-core/src/lib.rs transpile_with_includes, transpile_with_verification, process_ast_to_rust, deduplicate_functions"), ("reports", "crates/decy-core/src/metrics.rs to_markdown, Serialize")],
  observe="decy_core::transpile*, decy_core::metrics", note=PIPE + "Hash orders: the engine makes the bucket of each key a symbolic permutation, one map per path."),
]
