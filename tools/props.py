"""The one table behind properties.jsonl and MANIFEST.json (see gen.py)."""
P = []


def p(id, title, statement, over, qtext, why, files, mech, check=None, technique=None, level="other", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  check=check, technique=technique, level=level, note=note, na=na))


AI = "abstract interpretation of the code generator's syntax trees (finite value sets, joins, uninterpreted LLVM terms)"
AIS = "abstract interpretation of the semantic analyser's syntax trees (finite value sets, joins, must-events)"

p("C01", "Operators lower to the machine operation of their operand type",
  "For every arithmetic, bitwise, shift and comparison operator and every integer, float, boolean, pointer or vector operand type, the generated code performs the operation the source operator denotes with the signedness and floatness of the operand's element type. Unsigned division, remainder, right shift and ordering never use the signed form (or the reverse), float operands never use an integer operation, and operands keep their source order.",
  ["programs", "inputs"], "all operators x all scalar and vector operand types x all operand values",
  "The tests run a few operator/type pairs; a wrong instruction for one type (unsigned vectors, 16 bit floats) needs that pair and special values to show.",
  ["src/compiler/llvm_codegen_expr.c"], [("binary operator lowering", "llvm_emit_binary"), ("unary operator lowering", "llvm_emit_unary_expr"), ("comparison lowering", "llvm_emit_comp, llvm_emit_vec_comp")])

p("C02", "Safe builds trap division and remainder by zero before dividing",
  "In a safe build every division or remainder whose divisor is not a compile-time constant is preceded, on every path to it in the generated code, by a test of that very divisor against zero whose failing side panics; for vectors the test covers every lane. In a build with safety off no such test is needed.",
  ["programs", "inputs"], "all element types (integer and float), scalar and vector, plain and compound assignment",
  "A missing or wrong guard only shows for a zero divisor of the right type; tests use a handful.",
  ["src/compiler/llvm_codegen_expr.c"], [("zero trap", "llvm_emit_binary / llvm_emit_trap_zero")])

p("C03", "Safe builds trap out-of-range shift amounts before shifting",
  "In a safe build every shift by a run-time amount is preceded, on every path in the generated code, by tests of that amount which panic when it is negative or not smaller than the bit width of the shifted type; for vectors every lane is covered. The tested amount is the full value the program supplied, not a truncation of it.",
  ["programs", "inputs"], "all shift operators x operand types x amount types x amounts",
  "Only amounts outside the range show a wrong bound, signedness or a lost high half.",
  ["src/compiler/llvm_codegen_expr.c"], [("shift trap", "llvm_emit_binary / llvm_emit_trap_invalid_shift")])

p("C04", "Safe builds bounds-check every run-time index",
  "In a safe build an index into an array, slice or vector that is not a compile-time constant is compared with the length of exactly that object before the element address is formed or the element is read, and an index below zero or at or above the length panics. The check is emitted for both front-relative and from-the-end indexing.",
  ["programs", "inputs"], "all indexable types x index types x index values x read/write/address contexts",
  "Tests index in range, or out of range for one or two shapes.",
  ["src/compiler/llvm_codegen_expr.c"], [("bounds check", "llvm_emit_subscript_addr, llvm_emit_array_bounds_check"), ("vector element read", "llvm_emit_vector_subscript")])

p("C05", "Safe builds check slice ranges and slice copies",
  "In a safe build forming a sub-slice with run-time bounds panics when the start is negative or beyond the length, the end is beyond the length, or the end precedes the start; copying between slices panics when the lengths differ. The checks dominate the creation of the slice or the copy.",
  ["programs", "inputs"], "all sliceable types x range forms (start..end, start:len, from-end) x bound values",
  "Each form needs its own failing value; tests cover a few.",
  ["src/compiler/llvm_codegen_expr.c"], [("slice checks", "llvm_emit_slice_values"), ("slice copy check", "llvm_emit_slice_copy")])

p("C06", "Safe builds reject null dereferences, null calls and bad enum casts",
  "In a safe build dereferencing a pointer that is null or not aligned for its type, calling through a null function pointer, receiving a null for a non-null parameter, and calling a dynamic method the object does not have all panic instead of proceeding. Converting an integer to an enum by ordinal panics exactly when the value is not a valid ordinal of that enum, for every integer type and enum size. The test is of the very value used and precedes the guarded use on every generated path.",
  ["programs", "inputs"], "all dereferences, indirect and dynamic calls, non-null parameters and integer to enum conversions x all values",
  "Needs a null, unaligned or out-of-range value at each kind of site.",
  ["src/compiler/llvm_codegen_expr.c", "src/compiler/llvm_codegen_function.c"], [("null and alignment check", "llvm_emit_deref"), ("call check", "llvm_emit_call_expr"), ("parameter check", "llvm_process_parameter_value"), ("enum check", "llvm_emit_enum_from_ord")])

p("C07", "Assertions are evaluated in safe and test builds and stop the program",
  "A false assertion panics in safe builds and in test builds, before the next statement runs, and the preconditions attached to a call run before it in safe builds; when assertions are not compiled in, nothing with side effects is evaluated and only facts implied by the condition are assumed. Forcing an empty optional panics in every build. A panic never returns: the code after it is unreachable in every panic mode, with a trap when panics are off in a safe build.",
  ["programs", "configurations", "inputs"], "all assertions x safe/test/fast builds x panic modes",
  "Needs failing assertions in each build mode.",
  ["src/compiler/llvm_codegen_stmt.c", "src/compiler/llvm_codegen_expr.c", "src/compiler/expr.c"], [("assert lowering", "llvm_emit_assert_stmt, llvm_emit_assume"), ("panic lowering", "llvm_emit_panic"), ("effects", "expr_is_pure")])

p("C08", "Numeric conversions pick the instruction for both types involved",
  "Every conversion between numbers, truth values, pointers, faults and typeids that the language performs at run time, on scalars and on vectors, is lowered according to the signedness and width of both types: sign extension exactly for signed sources, signed or unsigned float conversions by the integer's type, comparison with zero for truth values (all ones in a vector lane, one otherwise). Converting twice gives the result of the second conversion applied to the first, and conversions of slices, 'any', arrays and scalars to their parts, to vectors and back keep every element and length.",
  ["programs", "inputs"], "all ordered pairs of scalar types x scalar/vector x distinct types x all values; all compositions of two conversions",
  "Sign and width errors show only for negative or large values of one pair.",
  ["src/compiler/llvm_codegen_expr.c", "src/compiler/sema_casts.c"], [("conversion lowering", "cast_no_check and the conversions of llvm_emit_expr")])

p("C09", "Constant expressions that would fail at run time are compile errors",
  "For scalar integers, division or remainder by a constant zero and shifts by a constant that is negative or at least the bit width are compile errors whatever the other operand is, in plain and assigning form, and every other constant divisor or shift amount is accepted. "
  "A constant index into an array, vector or constant that lies outside it, a negative index into a slice and a constant slice range that leaves its object, has a negative length or ends before it starts are compile errors, and every index and range inside is accepted.",
  ["programs"], "all integer types x constants around zero, the width, the length and the 32, 64 and 128 bit boundaries x index, slice, from-end and length forms x targets",
  "Tests hold a few literal cases; a wrong comparison or a truncated constant shows only at a boundary of one type.",
  ["src/compiler/sema_expr.c"], [("constant checks", "sema_expr_analyse_div, sema_expr_analyse_mod, sema_expr_analyse_shift, sema_slice_index_is_in_range, sema_expr_analyse_range_internal")])

p("C10", "Constant folding applies the operator that was written",
  "When the operands are constant the folded result is the written operator applied to the left and the right operand in that order, in the arithmetic of the operand type and wrapped to that type; comparisons of numbers, strings, faults and references fold to the truth of the written predicate. "
  "Constant conversions keep the low bits, reading an element of a constant yields that element, and compile-time assignment, increment and the choice of a constant conditional do what was written.",
  ["programs", "inputs"], "all foldable operators x constant kinds x pairs of boundary values",
  "A swapped operand or a wrong helper shows only for values where the results differ.",
  ["src/compiler/sema_expr.c", "src/compiler/expr.c", "src/compiler/number.c"], [("folding", "sema_expr_analyse_add/sub/mult/div/mod/bit/shift/comp, expr_const_compare, cast_to")])

p("C11", "Implicit conversions never lose information",
  "A run-time value is implicitly converted only from integer to integer or float to float of at least the same width, integer to float, a pointer to a void pointer, and a slice or array pointer to its element pointer or slice: never from float to integer, between truth values and numbers, between pointers and integers, or between unrelated distinct, enum, struct or element types. A narrower integer or float is accepted only for a constant that fits or for an expression all of whose value-carrying operands fit, and an operation whose operands would be computed too narrow is rejected rather than widened afterwards. Everything else needs an explicit cast, and an explicit cast between a pointer and an integer needs an integer of at least pointer size.",
  ["programs"], "all ordered pairs of builtin types x kinds of expression x constants at every boundary",
  "The conversion table has over a thousand cells, times expression shapes; tests visit few.",
  ["src/compiler/sema_casts.c"], [("conversion table", "cast_rules"), ("rules", "rule_* functions"), ("narrowing and widening of operations", "recursive_may_narrow, expr_is_simple / cast_implicit")])

p("C12", "Every way out of a scope runs its pending defers",
  "Leaving a scope by falling off its end, return, break, continue, nextcase or an optional's rethrow runs exactly the defers registered in the scopes left, in reverse order of registration; error-only defers run only on error exits and success-only defers only on success exits.",
  ["programs", "histories"], "all nestings of scopes, defers and exits",
  "Each exit kind in each nesting needs its own program.",
  ["src/compiler/sema_stmts.c", "src/compiler/semantic_analyser.c", "src/compiler/llvm_codegen_stmt.c"], [("collecting defers", "context_get_defers, sema_inline_return_defers"), ("emission", "llvm_emit_break, llvm_emit_continue, llvm_emit_next_stmt, llvm_emit_return")])

p("C13", "Expanding code twice never shares or mutates the original",
  "Macro bodies, defers, generic modules, contracts and other code that is expanded more than once is copied completely before each expansion: every nested expression, statement, type and declaration of every kind of node is duplicated, and making a copy never writes to the original. Two expansions therefore never influence each other.",
  ["programs", "histories"], "all kinds of syntax nodes x all their child fields",
  "A shared child shows only if exactly that construct appears inside code expanded at least twice with different meaning.",
  ["src/compiler/copying.c"], [("copying", "copy_expr, ast_copy_deep, copy_decl, copy_type_info")])

p("C14", "Removing unused code never removes code that is used",
  "When unused declarations are stripped, everything reachable from an exported or entry declaration through any expression, statement, type, initializer, contract, attribute or dynamic dispatch stays in the output.",
  ["programs"], "all kinds of syntax nodes x all their child fields",
  "A missed reference shows only if the construct is the only use of a declaration.",
  ["src/compiler/sema_liveness.c"], [("reference tracing", "sema_trace_expr_liveness, sema_trace_stmt_liveness, sema_trace_decl_liveness, sema_trace_type_liveness")])

p("C15", "A reported error always fails the compilation",
  "Once any error has been reported, the compiler run ends with a failing exit status and neither generates code nor links nor runs anything; no part of the compiler clears or forgets reported errors, and a failing linker, assembler or other required tool also fails the run.",
  ["programs", "fault_sequences"], "all inputs with at least one error, all tool failures",
  "Tests look at the message of a few hundred errors, not at every reporting path.",
  ["src/compiler/diagnostics.c", "src/compiler/sema_passes.c", "src/compiler/compiler.c", "src/compiler/linker.c", "src/main.c"], [("error counting", "sema_verror_range, print_error_at"), ("stop before code generation", "sema_analysis_run, compiler_compile"), ("exit", "exit_compiler, main")])

p("C16", "Failed analysis steps are never ignored",
  "Whenever a parsing or analysis step reports that it failed, the step that asked for it also fails or records the failure; a failure is never turned into success and an unanalysed construct is never used as if it were valid.",
  ["programs"], "all call sites of fallible parsing and analysis steps",
  "Each site needs its own malformed program.",
  ["src/compiler/sema_expr.c", "src/compiler/sema_stmts.c", "src/compiler/sema_decls.c", "src/compiler/parse_stmt.c"], [("fallible steps", "sema_analyse_*, parse_*")])

p("C17", "Building runs external programs only with the trust that allows it",
  "Scripts and commands named by source code or project files are executed, and files outside the source are included into the program, only when the configured trust level permits it: executing needs full trust and including needs at least include trust. Without it the build stops with an error and nothing has been run.",
  ["programs", "configurations"], "all script hooks and compile-time exec/include uses x trust levels",
  "Tests cannot cover every path to process creation.",
  ["src/compiler/sema_passes.c", "src/compiler/compiler.c"], [("trust checks", "sema_... exec/include handling, execute_scripts")])

p("C18", "Unpacking an archive writes only below the destination directory",
  "Unpacking a library or SDK archive never creates or overwrites a file outside the destination directory, whatever names the archive contains, and never writes past a buffer for any header values.",
  ["inputs"], "all archive contents",
  "Tests use no hostile archive.",
  ["src/utils/unzipper.c", "src/build/libraries.c"], [("entry names", "zip_file_iterator_next, zip_file_write"), ("extraction", "resolve_libraries")])

p("C19", "Text from programs is never interpreted as a format string",
  "Names, paths, literals and messages coming from source files, project files, archives or the command line are only ever passed as data to printing functions; every format is fixed in the compiler and matches the number and types of its arguments.",
  ["inputs"], "all printing call sites x all texts",
  "Only a text with a percent sign at the right place shows it.",
  ["src/compiler/diagnostics.c", "src/utils/errors.c", "src/utils/stringutils.c"], [("formatting", "all printf-like functions")])

p("C20", "Fixed-size buffers are never overrun by program text",
  "Long names, literals, paths or lists in source files, project files or arguments never write past a fixed-size buffer in the compiler: each write into one is bounded by its size or rejected with an error.",
  ["inputs"], "all fixed-size arrays written with input-dependent indices or lengths",
  "Needs an input of exactly the overflowing length at each buffer.",
  ["src/compiler/lexer.c", "src/utils/stringutils.c", "src/compiler/sema_expr.c"], [("scratch buffer", "scratch_buffer_append*"), ("local arrays", "parsers and codegen")])

p("C21", "Parallel code generation shares no mutable state between modules",
  "Code generation tasks that run on worker threads do not write compiler state visible to other tasks, except through thread-private data or under the lock that protects it, so the output does not depend on the number of threads or their interleaving.",
  ["schedules", "programs"], "all interleavings of code generation tasks",
  "A race shows only under one interleaving of two modules.",
  ["src/compiler/compiler.c", "src/compiler/llvm_codegen.c", "src/utils/taskqueue.c"], [("task entry", "thread_compile_task_llvm"), ("queue", "taskqueue_run, taskqueue_thread")])

p("C22", "Output does not depend on time, randomness or memory addresses",
  "Compiling the same sources with the same options gives the same output: no clock, random source, process id, environment-dependent order or memory address influences what is generated, except through the features that exist to expose them.",
  ["programs", "configurations", "histories"], "all programs x repeated runs",
  "Address-dependent order shows rarely.",
  ["src/compiler"], [("sources of nondeterminism", "calls to clock, random and address-ordered iteration")])

p("C23", "Options accept exactly their documented values",
  "Every command line option that takes one of a fixed set of values maps each documented value to its own distinct setting and rejects anything else with an error; each option sets the setting it names and nothing else, and an option without its required argument is rejected.",
  ["configurations"], "all options x all values",
  "Tests run a few option combinations.",
  ["src/build/build_options.c", "src/build/builder.c"], [("option parsing", "parse_option"), ("merging", "update_build_target_from_options")])

p("C24", "Optimization and safety levels have the meaning they are named for",
  "Each optimization level given on the command line selects the optimization strength, size trade-off, safety, floating-point, debug information, backtrace and single-module defaults documented for it, and an explicit option always wins over the level's default.",
  ["configurations"], "all levels x explicit options",
  "Tests use one or two levels.",
  ["src/build/builder.c", "src/build/build_options.c"], [("level defaults", "update_build_target_from_options / update_build_target_with_opt_level")])

p("C25", "Target descriptions are internally consistent",
  "For every supported target the pointer width, type sizes and alignments, data layout family, object format, calling convention and symbol/feature names used by one part of the compiler agree with those used by every other part, and every target is either fully described or rejected by name.",
  ["configurations"], "all operating systems x architectures x environments",
  "Only the host target is run.",
  ["src/compiler/target.c", "src/compiler/linker.c", "src/compiler/abi"], [("target tables", "target_setup and helpers")])

p("C26", "Caller and callee agree on how every parameter is passed",
  "For each way a parameter or return value can be passed on a target, the code that sends it (calls) and the code that receives it (function entry, return) handle that same way, consume the same number of machine arguments and read the same parts in the same order.",
  ["programs", "configurations"], "all ABI passing modes x sides",
  "Only host modes run, and only with C counterparts for a few.",
  ["src/compiler/llvm_codegen_expr.c", "src/compiler/llvm_codegen_function.c", "src/compiler/codegen_general.c"], [("caller", "llvm_emit_parameter, llvm_emit_raw_call"), ("callee", "llvm_process_parameter_value, llvm_emit_return_abi")])

p("C27", "Exported C headers declare what the library defines",
  "The generated C header gives every exported function, type, enum and constant the C type with the same size, signedness and layout as the compiled code, for every exportable type.",
  ["programs"], "all exportable types",
  "Tests compare a few headers.",
  ["src/compiler/headers.c"], [("type mapping", "header_print_type")])

p("C28", "Machine readable output is always well formed",
  "Every string taken from a program and placed in the compiler's JSON output is escaped so that the output is valid JSON for any program.",
  ["programs", "inputs"], "all names, doc comments and literals",
  "Needs special characters in each printed field.",
  ["src/compiler/json_output.c"], [("emission", "emit_* in json_output")])

p("C29", "Private and local declarations cannot be used from outside",
  "A declaration that is private to its module or local to its file can be named only from where its visibility allows: every lookup path (unqualified, qualified, methods, generic, aliases) applies the same rule and reports an error otherwise.",
  ["programs"], "all lookup paths x visibilities",
  "Each lookup path needs its own program.",
  ["src/compiler/sema_name_resolution.c"], [("lookup", "sema_find_decl_in_modules, sema_find_path_symbol, sema_resolve_method")])

p("C30", "Tokens are recognised exactly as they are spelled",
  "Every operator, keyword, attribute and builtin has one spelling and no two share a spelling; the scanner turns each operator spelling into its own token by longest match, classifies identifiers by their letters and skips comments whole. Diagnostics print a token as it is written.",
  ["programs", "inputs"], "all tokens",
  "Tests exercise most but not all operators.",
  ["src/compiler/lexer.c", "src/compiler/tokens.c", "src/compiler/symtab.c"], [("scanner", "lexer_scan_token_inner"), ("spelling", "token_type_to_string"), ("keywords", "symtab_init")])

p("C31", "Operator precedence and meaning follow the published table",
  "Binary operators bind in the documented precedence order with the documented associativity, and every operator token maps to the operation it denotes, compound assignments to their plain operator.",
  ["programs"], "all operator pairs",
  "Pairs not combined in tests can be wrong.",
  ["src/compiler/parse_expr.c", "src/compiler/enums.h"], [("precedence", "rules table"), ("operator mapping", "binaryop_from_token, binaryop_assign_base_op")])

p("C32", "Every construct accepted by the analyser is handled by code generation",
  "For each kind of expression, statement, declaration, builtin and initializer that analysis can accept, code generation has a handler; no accepted program reaches an internal 'unreachable' stop because a kind was forgotten.",
  ["programs"], "all kinds of nodes",
  "Rare kinds in rare positions are not in the tests.",
  ["src/compiler"], [("dispatch", "switches over node kinds")])

p("C33", "Recursive definitions are diagnosed, not followed forever",
  "A definition that depends on itself (constant, type, alias, enum, struct by value, macro, module, include) is reported as an error or handled through indirection; analysis of it terminates.",
  ["programs"], "all cycles of definitions",
  "Each kind of cycle needs its own program.",
  ["src/compiler/sema_decls.c", "src/compiler/sema_types.c"], [("cycle detection", "resolve status checks in sema_analyse_decl and friends")])

p("C34", "Constants and non-addressable values cannot be modified",
  "Assigning to, incrementing, or taking a mutable address of a constant, a temporary, an 'in' parameter or other non-assignable expression is always rejected.",
  ["programs"], "all expression kinds x mutating operators",
  "Each kind of target x operator needs a program.",
  ["src/compiler/sema_expr.c"], [("lvalue check", "sema_binary_is_assignable / sema_check_assignable")])

p("C35", "Standard library locks are released on every exit",
  "Every standard library operation that takes a mutex releases it on every way out, including errors, and no operation waits while holding a second lock.",
  ["schedules", "fault_sequences"], "all paths through locking operations",
  "Error exits under contention are not in the tests.",
  ["lib/std/threads"], [("channels and pools", "buffered_channel, unbuffered_channel, pool, fixed_pool")])

p("C36", "Platform variants of the standard library offer the same interface",
  "The platform implementations of one standard library facility (threads, files, processes, sockets, directories, time) declare the same functions with the same parameters and results, so that code compiled for one platform also compiles for the others.",
  ["configurations"], "all platform facilities",
  "Tests run on one platform.",
  ["lib/std"], [("platform siblings", "os/posix, os/win32, none variants")])

p("C37", "A compile-time computed value equals the same value computed at run time",
  "For all operands, evaluating an expression at compile time gives bit for bit the result the generated code would compute.",
  ["inputs", "programs"], "all expressions and operand values",
  "Unbounded value domain.",
  ["src/compiler/bigint.c", "src/compiler/float.c"], [("arithmetic", "i128_*, float operations")],
  na="Quantifies over numeric results of multi-word arithmetic; no static argument in reach bounds them. The structural part (which operation is applied, in which order) is decided by C10 and C01.")

p("C38", "Generated programs compute what the source says",
  "End-to-end semantic preservation of every program.",
  ["programs", "inputs"], "all programs and inputs",
  "Unbounded.",
  ["src/compiler"], [("code generation", "llvm_emit_expr")],
  na="Whole-program semantic preservation quantifies over run-time behaviour; the parts visible in the compiler's code (operator and conversion selection, checks, exits, passing modes) are decided by C01 to C14 and C26.")

p("C39", "The compiler terminates and stays within memory for every input",
  "Parsing and analysis finish for every finite input.",
  ["inputs"], "all inputs",
  "Unbounded.",
  ["src/compiler"], [("recursion", "parser and analyser")],
  na="Macro evaluation makes compile-time termination undecidable and recursion depth is input-dependent; a termination measure is not visible in the code. The finite cycle-detection part is decided by C33.")

p("C40", "Standard library containers and codecs are functionally correct",
  "Hash maps, lists, encoders and formatters return the values their documentation promises for all inputs.",
  ["inputs", "histories"], "all operation sequences and inputs",
  "Unbounded value domain.",
  ["lib/std"], [("collections, encoding", "lib/std/collections, lib/std/encoding")],
  na="Functional correctness over run-time values and histories; C3 has no analysable resolved program besides the compiler itself, and the shape of the code does not bound the results.")


def claim(id, check, technique, note):
    for q in P:
        if q["id"] == id:
            q["check"], q["technique"], q["note"] = check, technique, note
            return
    raise KeyError(id)


claim("C01", "ops:c01", AI, "Every lowering function for operators is interpreted abstractly on the current source once per operator and operand type (all scalar kinds, vectors of them, pointers); the instruction term it can produce is compared with an independently written table.")
claim("C02", "ops:c02", AI, "The lowering of division and remainder is interpreted abstractly per element type with safety on; the guard on the divisor must dominate the instruction in the emitted block structure and its other side must reach the panic routine.")
claim("C03", "ops:c03", AI, "The lowering of shifts is interpreted abstractly per pair of operand and amount type with safety on; guards excluding every out-of-range value of the untruncated amount must dominate the shift instruction.")
claim("C04", "safety:c04", AI, "The lowering of every element access (read, address, assignment, compound assignment, ++/--) is interpreted abstractly for arrays, slices and vectors, both index types and both counting directions; bounds tests of exactly the index used, against the length of exactly that object, must dominate every element address, extract and insert, and may not rest on a subtraction the optimizer may assume never wraps.")
claim("C05", "safety:c05", AI, "The lowering of slicing is interpreted abstractly for every sliceable type, bound form (from the start, from the end, length, constant or run-time) and integer type with safety on; the pointer and length of the result must be the terms the source denotes and facts dominating their use must exclude every invalid bound; slice copies need an equality test of the lengths.")
claim("C13", "dup:c13", AIS, "The copier is interpreted abstractly once per kind of expression, statement, declaration, type and payload variant, entering through the public copy functions; a hand-written table of the owned children and the references of every kind says what the copy must hold: a copy of every child, references redirected through the table of copied declarations, nothing written to the original, targets registered before the code that refers to them is copied.")
claim("C14", "live:c14", AIS, "The liveness pass is interpreted abstractly from its public entry on one synthetic program per kind of run-time expression, statement, initializer, type and declaration whose children each name a declaration of their own, and per kind of root; all named declarations must come out marked. The emission loop is interpreted per declaration list, mark and strip setting: what is marked, and everything when stripping is off, must be declared and defined and its module kept.")

claim("C06", "traps:c06", AI, "The lowering of dereferences (read, write, address), calls through pointers, dynamic calls, function entry with non-null parameters and ordinal conversions (every integer type x enum sizes around every boundary) is interpreted abstractly; facts dominating each guarded use must exclude null, misalignment and invalid ordinals, and the facts of the ordinal conversion must admit every valid ordinal.")
claim("C07", "traps:c07", AI, "The lowering of assertions over nine condition shapes, of panics over all build modes, of forced unwraps and of call preconditions is interpreted abstractly; the emitted blocks are walked for every truth assignment of the condition's parts, assumed terms must follow from the condition, panics must end their block with a trap or a call, and the side-effect predicate is interpreted on every effectful kind and every nesting of one.")
claim("C08", "casts:c08", AI, "The analyser's conversion dispatcher is interpreted abstractly on a leaf of every source type and the tree it builds is handed to the interpreted code generator; the emitted instruction chain is compared with the numeric meaning of the conversion for every pair of types (scalar, vector, distinct; from values, memory and comparisons), every composition of two conversions (as functions of the source's bits) and the conversions with aggregates.")
claim("C11", "implicit:c11", AIS, "The analyser's implicit and explicit cast entry points are interpreted abstractly on an expression of every kind, source type and (for constants) boundary value against every target type; acceptance is compared with a hand-written table of the language's conversion rules, and a rejection must report an error.")
claim("C09", "bounds:c09", AIS, "The analyser's expression entry point is interpreted abstractly on synthetic operations whose operand, index or bounds are constants at every boundary of their types; acceptance, and for accepted slices the resulting start and length, are compared with independently written rules of what is in range.")
claim("C10", "fold:c10", AIS, "The analyser's expression entry point is interpreted abstractly on synthetic operations over constants whose values are symbolic terms (the multiword arithmetic helpers stay uninterpreted) or boundary values; the constant it leaves behind is compared with the term or value of the written operator.")
claim("C12", "defers:c12", AIS, "The statement analyser and the code generator are interpreted abstractly, one after the other, on synthetic bodies: every nesting of scopes (block, if, while, do, for, switch cases, else-if chains, macro bodies, trailing bodies) with plain, success-only and error-only defers around every kind of exit, conditional or not, and defer bodies with control flow of their own; the set of emitted execution paths (markers run, in order) must equal the set given by a reference semantics of the body.")

claim("C30", "tokens:c30", AIS, "The scanner is interpreted abstractly on the current source over every operator spelling followed by every continuation, every keyword, identifier class and comment shape; the token produced is compared with an independently written spelling table, and the spelling tables and the symbol table setup are compared with it as well.")
claim("C31", "prec:c31", AIS, "The expression parser's rule table and driver are interpreted abstractly on every pair of binary operators (and prefix, postfix and ternary combinations); the tree shape is compared with the published precedence table, and every operator token is followed to the operation and compound assignments to their plain operation.")
claim("C23", "options:c23", AIS, "The command line parser is interpreted abstractly on concrete argument vectors: every documented option with every documented value, undocumented values, missing arguments and repeated options; the settings written and the settings left alone are compared with an independently written table, then followed through the merge into the build target.")
claim("C24", "options:c24", AIS, "Command line parsing and the construction of the build target are interpreted abstractly for every optimization level crossed with every explicit option that overrides one of its defaults; the resulting settings are compared with the documentation of the level.")
