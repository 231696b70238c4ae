prop("P01", "Built-in pattern choices reach the engine unchanged",
     "For every combination of enabling and disabling built-in patterns on the command line, the comparison engine runs with exactly the resulting value of every pattern: a named choice overrides a choice for all patterns, disabling overrides enabling, defaults apply otherwise, and control-flow-only implies type-casts. "
     "Every name accepted on the command line controls the pattern of that name and no other, whether the engine runs in process, as a separate program, or on cached modules preprocessed in advance.",
     ["configurations"],
     "all subsets of enable/disable choices over all patterns, both engine modes",
     "Tests check a few settings of the configuration object; nothing tests that each of the twelve values survives the struct, the command line and the C++ constructor, and a swapped or dropped value only shows in a program that needs that pattern.",
     ["diffkemp/cli.py", "diffkemp/config.py", "diffkemp/simpll/simpll.py", "diffkemp/simpll/simpll_build.py", "diffkemp/simpll/library.py", "diffkemp/simpll/library/FFI.cpp", "diffkemp/simpll/SimpLL.cpp", "diffkemp/simpll/Config.h"],
     [("option choices", "diffkemp/cli.py make_argument_parser"), ("decision on conflicting choices", "diffkemp/config.py BuiltinPatterns.update_from_args"), ("struct and flags", "diffkemp/simpll/simpll.py run_simpll"), ("C++ conversion", "diffkemp/simpll/library/FFI.cpp, diffkemp/simpll/SimpLL.cpp main")],
     technique="gated-term dataflow from CLI options through Python and C++ to the engine's settings (abstract interpretation over syntax trees)",
     note="Decides all 2^n choices symbolically: each engine setting is a closed term over the options. Assumes argparse, cffi and llvm::cl transport booleans faithfully.")
prop("P02", "Every comparison option reaches the engine alike in both engine modes",
     "For any command line and any pair of compared functions, the engine gets the same input files, function names, analysed variable, cache directory, custom patterns, output and verbosity settings whether it runs in process or as a separate program, each taken from the option meant for it and never from the other side or another option. "
     "An option accepted by a command is honoured by it, and a command depends only on options it declares.",
     ["configurations"],
     "all values of all options of every command; both engine modes",
     "Tests run the in-process mode with default options almost exclusively; the other mode and most options are never exercised together.",
     ["diffkemp/cli.py", "diffkemp/config.py", "diffkemp/simpll/simpll.py", "diffkemp/simpll/library/FFI.cpp", "diffkemp/simpll/SimpLL.cpp", "diffkemp/simpll/Config.cpp"],
     [("in-process call", "diffkemp/simpll/simpll.py run_simpll, library/FFI.cpp runSimpLL, parseAndRunSimpLL"), ("external call", "diffkemp/simpll/simpll.py run_simpll, SimpLL.cpp main")],
     technique="gated-term dataflow, equality of the two derived terms per engine setting; read/declared sets of options per command",
     note="Both modes' settings are compared as terms over the same inputs; string splitting laws assume names contain no separator. The code the option then controls is not part of this property.")
prop("P03", "A stored snapshot is read back as it was built",
     "For every list of functions or sysctl options, loading a snapshot yields exactly the functions that were put into it when it was built, each with its own module file, analysed global variable, tag and group, together with the build's LLVM version, creation time, list kind and (if stored) source directory. "
     "All files needed are copied into the snapshot before it is described, and nothing is written outside of it; further definitions are then looked up by the same kind of source finder that built it.",
     ["configurations", "histories"],
     "all numbers of groups and functions, with and without modules, both list kinds, stored and omitted source directory",
     "The unit tests of the snapshot read and write two fixed YAML texts with one or two functions; a field that is lost or swapped only for some list kind or finder goes unnoticed.",
     ["diffkemp/snapshot.py", "diffkemp/llvm_ir/source_tree.py", "diffkemp/llvm_ir/llvm_module.py", "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/diffkemp.py"],
     [("writer and reader", "diffkemp/snapshot.py Snapshot.to_yaml, _from_yaml"), ("files moved into the snapshot", "diffkemp/llvm_ir/source_tree.py copy_source_files, llvm_module.py move_to_other_root_dir")],
     technique="symbolic abstract interpretation of the writer, whose result term is fed to the reader; term equality per field",
     note="Group structure is enumerated (one unnamed; one and two named groups), functions in a group are arbitrary. Assumes yaml.dump/load is the identity on plain data.")
prop("P11", "Kernel sources and working directory are restored on every exit",
     "Building a kernel snapshot and comparing snapshots temporarily edit headers of the kernel tree (and of tree copies inside snapshots); whichever way the command ends - normally, early because there is nothing to do, or by an exception - every such edit is taken back in every tree that was edited. "
     "An operation that changes the process's working directory restores it before it returns or fails.",
     ["fault_sequences", "histories"],
     "all normal and exceptional paths of every function that edits sources or changes directory",
     "Unit tests only finalise by hand on the success path; leaving the tree modified needs an error or an early return at a particular point.",
     ["diffkemp/diffkemp.py", "diffkemp/config.py", "diffkemp/snapshot.py", "diffkemp/llvm_ir/source_tree.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py"],
     [("edits and their inverse", "diffkemp/llvm_ir/kernel_llvm_source_builder.py initialize, finalize"), ("owners", "diffkemp/snapshot.py finalize, diffkemp/llvm_ir/source_tree.py finalize"), ("commands", "diffkemp/diffkemp.py build_kernel, compare; diffkemp/config.py from_args")],
     technique="interprocedural ownership (obligation) and typestate dataflow over control-flow graphs with exception edges",
     note="Exception edges come from a may-raise analysis of the repository's own functions; asynchronous interrupts are considered only at statements that may raise anyway.")
prop("P05", "A comparison that failed is never reported as equal",
     "Whenever the comparison of a function did not complete - there is no definition on one side, the engine failed or was killed or left an unreadable report, an external solver failed, was inconclusive or ran out of time - the function is listed with an unknown, timeout or error verdict, never as equal and never left out, whatever filters or statistics options are used. "
     "A function is reported equal only if every function whose behaviour it depends on, as far as the engine reports them, is equal or assumed equal, or if the user's own regular expression filter hides all of its differences. "
     "Each verdict is counted in the statistics under its own kind.",
     ["fault_sequences", "histories", "configurations"],
     "all verdict kinds of the engine and the solver, all combinations of them in one function, all failure points of an engine run",
     "Tests run comparisons that succeed; engine crashes, solver timeouts and unreadable reports occur in none of them, and verdict combination is tested on a few pairs.",
     ["diffkemp/diffkemp.py", "diffkemp/semdiff/function_diff.py", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/result.py", "diffkemp/simpll/simpll.py"],
     [("engine run and its report", "diffkemp/simpll/simpll.py run_simpll"), ("differences of a function", "diffkemp/semdiff/caching.py graph_to_fun_pair_list, reachable_from"), ("verdict of a function", "diffkemp/semdiff/function_diff.py functions_diff, _run_llreve_z3"), ("filters, output, statistics", "diffkemp/diffkemp.py compare, diffkemp/semdiff/result.py report_stat")],
     technique="abstract interpretation over the finite domain of verdict kinds, with exception-edge reachability on control-flow graphs",
     note="Lists of 0-2 differences over all kinds stand for longer ones. The correctness of the engine's own verdicts is not part of this property.")
prop("P10", "Every attribute that affects behaviour is compared",
     "With all built-in patterns disabled, two instructions, constants, types, global symbols or function signatures are found equal only if they agree in every attribute that affects behaviour: operation, types, number and order of operands and their values, flags, and what is particular to the kind (volatility, alignment, atomic ordering and scope, predicate, calling convention, tail call kind, ranges, aggregate indices, masks, address computation, assembly text and constraints, initializers, incoming values and blocks of a phi). "
     "A function body is equal only if its signature, all of its blocks and all of its phi instructions are.",
     ["programs"],
     "all kinds of instructions, constants and types supported, every attribute of them, all combinations of the others",
     "The regression tests compare a fixed set of kernel functions, most of which never use atomics, vectors, bundles or constant expressions; a dropped comparison shows only in programs differing in nothing but that attribute.",
     ["diffkemp/simpll/llvm-lib", "diffkemp/simpll/DifferentialFunctionComparator.cpp"],
     [("instructions", "FunctionComparator::cmpOperations, DifferentialFunctionComparator::cmpOperationsWithOperands"), ("constants, types", "FunctionComparator::cmpConstants, cmpTypes, cmpGEPs"), ("symbols", "DifferentialFunctionComparator::cmpGlobalValues")],
     technique="scenario enumeration over gated value terms of the comparators (abstract interpretation): each attribute assumed to differ, no outcome may be zero",
     note="One pass of each loop over parts stands for all passes; numbering of local values and isEqual-style attributes of functions and calls (ignored by design) are not covered.")
prop("P07", "A detected difference is never dropped",
     "When the engine finds any part of two instructions, operands, constants, types, blocks, signatures or functions different, the whole is reported different, and every part and every instruction of both versions is compared; the exceptions are limited to the documented ones and each of them only where its own condition holds (an instruction that may be skipped, an equal field access, reordered operands that are the same multiset, an inverse condition, relocated code, a matched custom pattern, the same macro in the source). "
     "Instructions left over on one side make the blocks different; a pair of functions is equal only if the last comparison of their bodies was, and a pair without both bodies only if the names agree, with the missing definition reported.",
     ["programs"],
     "all paths of all comparison functions and of one arbitrary step of the comparison of two blocks",
     "The regression tests contain few not-equal functions, each different in many places; a result that is dropped on one path shows only in a program whose only difference is found there.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/llvm-lib", "diffkemp/simpll/ModuleComparator.cpp"],
     [("steps over two blocks", "DifferentialFunctionComparator::cmpBasicBlocks"), ("partial results", "all cmp* functions of FunctionComparator and DifferentialFunctionComparator"), ("verdict", "ModuleComparator::compareFunctions")],
     technique="path-sensitive abstract interpretation: exhaustive enumeration of the outcomes of every comparator and of one arbitrary loop pass, with required facts per exemption",
     note="Which instructions the exemptions cover is P08 and P25. Loops are analysed for one arbitrary pass from an unknown state.")
prop("P08", "A pattern hides only changes of its own kind",
     "Each built-in pattern makes the comparison accept a difference only if the pattern is enabled and the difference is of its kind: a structure type with a changed layout (struct alignment), integer widths and signedness and casts (type casts), an added null argument or changed callee when only the control flow matters (control flow), negated conditions whose branches are swapped (inverse conditions), reordered operands of an associative and commutative operation (reordered operations), accesses of skipped local variables (grouped variables), kernel print functions (kernel prints). "
     "An instruction is skipped as insignificant, a function inlined, and a simplification made for a pattern carried out only under the same conditions. "
     "Everything a pattern is not about is compared as with the pattern disabled.",
     ["programs", "configurations"],
     "each pattern alone and all together, all kinds of compared things, every attribute of them",
     "The tests compare kernel functions under a fixed selection of patterns; a pattern which accepts too much shows only in programs that differ in just the wrongly accepted way.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/Utils.cpp", "diffkemp/simpll/ModuleAnalysis.cpp", "diffkemp/simpll/ModuleComparator.cpp"],
     [("relaxed comparison", "DifferentialFunctionComparator::cmpOperations, cmpGEPs, cmpTypes, cmpConstants, cmpAPInts, cmpGlobalValues"), ("skipped instructions", "DifferentialFunctionComparator::maySkipInstruction and helpers"), ("passes", "preprocessModule, simplifyModulesDiff")],
     technique="scenario enumeration over gated value terms of the comparators: every accepting outcome must imply the defining facts of one enabled pattern",
     note="What the steps over two blocks accept for patterns is part of P07; when a skipped or moved memory access is safe is P25.")
prop("P06", "The two compared versions are never mixed up",
     "Whatever is taken from, computed for or reported about the first (old) version - module, function, definition, variable, directory, call stack, body, file, line, statistics, missing definition - comes from the first version, and likewise for the second (new) one, in the engine, in its report, in the result graph and in every output. "
     "Pairs keep the order first, second everywhere, and a message or file about one version names that version.",
     ["programs", "configurations"],
     "all assignments, calls, constructions and report keys in which one of the versions is meant",
     "Most tests compare functions which have the same name and similar content in both versions, so that a value taken from the wrong version is rarely noticed.",
     ["diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/config.py", "diffkemp/semdiff", "diffkemp/simpll", "diffkemp/syndiff"],
     [("comparison of snapshots", "diffkemp/diffkemp.py compare_snapshots, print_syntax_diff, view"), ("result graph", "diffkemp/semdiff/caching.py ComparisonGraph"), ("engine", "ModuleComparator, DifferentialFunctionComparator, simplifyModulesDiff"), ("engine report", "diffkemp/simpll/Output.cpp")],
     technique="side typing: flow-insensitive type inference of the version a value belongs to, over Python and C++ syntax trees",
     note="Seeds of the inference are parameters, members, keys and variables which are named after a version; flows between values without such a name at either end are not seen.")
prop("P17", "Every difference found appears in every form of output",
     "Every difference the engine reports for a compared function - non-equal function, missing definition, macro, type or assembly difference - is found, with its own name, call stacks, text and definitions, in the result of that function, in the printed output, in the YAML output and, counted once per function, in the statistics, whatever other differences there are (of the same name, with the same text, without a text or without source code). "
     "Only a function without any textual difference may be left out of the printed differences, and only when the difference causing it is listed.",
     ["inputs", "configurations"],
     "every small configuration: results of 0-2 differences of all kinds, equal or distinct names and texts, groups of functions, with and without a result graph",
     "Output tests print one fixed result; differences with the same name, without a body or without a graph occur in none of them.",
     ["diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/semdiff/result.py", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/function_diff.py"],
     [("graph and pairs", "diffkemp/semdiff/caching.py vertex, graph_to_fun_pair_list"), ("result of a function", "diffkemp/semdiff/function_diff.py functions_diff; diffkemp/semdiff/result.py add_inner"), ("outputs", "diffkemp/diffkemp.py print_syntax_diff; diffkemp/output.py YamlOutput; diffkemp/semdiff/result.py report_stat")],
     technique="abstract interpretation of the reporting code on every small configuration of results",
     note="Configurations of up to two differences per function stand for larger ones. Correctness of the text of a difference (the work of diff and of the source lookup) is not covered.")
prop("P13", "Earlier results are reused only if final and of the same function",
     "A comparison is left out, or its result replaced by an earlier one, only if the earlier result is final (not assumed, not of a variant whose result is unused, not from before a missing definition was found), comes from the same pair of modules and source files, and was computed without restriction to a variable or for the same one. "
     "When results of functions with the same name are joined, the result used for a function is the one of its own last comparison, or a final one instead of an unknown or assumed one. "
     "Only pairs with such a final result are given to the engine as known, and modules kept for further comparisons are not changed by a comparison.",
     ["histories"],
     "all histories of two or three comparisons over all verdicts, source files, modules, callers and variables",
     "Unit tests compare a function once, in a fresh process; a wrongly reused result needs two functions of the same name or a particular order of comparisons.",
     ["diffkemp/diffkemp.py", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/function_diff.py", "diffkemp/simpll/simpll.py"],
     [("reuse of results", "diffkemp/semdiff/function_diff.py functions_diff"), ("joining of graphs, known pairs", "diffkemp/semdiff/caching.py absorb_graph, compare_vertex_priority, normalize, mark_uncachable_from_assumed_equal, SimpLLCache.update"), ("variables, cached modules", "diffkemp/diffkemp.py compare; diffkemp/simpll/simpll.py run_simpll")],
     technique="abstract interpretation of the comparing code over all small histories of comparisons",
     note="Histories of up to three comparisons with one function and one callee stand for longer ones. The lookup of known pairs in the engine is covered only by P07.")
prop("P09", "A failed attempt to explain a difference leaves no trace",
     "When an attempt to explain a difference of two instructions fails (code moved to another place, equal accesses to a field, reordered local variables, a skipped instruction), the comparison goes on from the same two instructions, with the same correspondence of values and the same function to be inlined as before the attempt. "
     "Code taken for moved which is found nowhere in the other version makes the functions different.",
     ["programs"],
     "all outcomes of one pass of each loop and of each function that makes such an attempt",
     "What a failed attempt leaves behind matters only for the instructions compared later; tests contain single attempts, most of them successful.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp"],
     [("moved code", "DifferentialFunctionComparator::findMatchingOpWithOffset, compare"), ("field accesses", "DifferentialFunctionComparator::cmpFieldAccess"), ("local variables, skipped instructions", "DifferentialFunctionComparator::cmpValues, cmpBasicBlocks, undoLastInstCompare")],
     technique="gated value terms of positions and maps at every failing outcome, compared with those at the beginning",
     note="Correspondences made by nested comparisons of operands (not of the two instructions themselves) are not undone by the engine after a mismatch; they are not covered.")
prop("P25", "Skipped or moved code does not interfere with the code around it",
     "A repeated load is replaced by an earlier value only if the same value is found on every path to it, no instruction in between may change the memory, and it is neither volatile nor atomic; a store is skipped only if it is to a local variable whose skipping was recorded, which is then never compared as a whole. "
     "Code is taken for moved only if neither the code it was moved over nor the first instruction following it accesses, with a store on either side, the same pointer as any of its instructions, and code with side effects stays in its basic block. "
     "A value which was skipped is equal to another one only if both are compared, and is replaced only by what it was skipped for.",
     ["programs"],
     "all outcomes of the skipping and moving functions and of one pass of each of their loops; memory accesses described by pointer, type and constant indices",
     "A wrongly skipped or moved access shows only in programs with a conflicting access at a particular place (in a loop, on another path, through another index); tests contain a few such programs.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/Utils.cpp"],
     [("repeated loads, stores", "DifferentialFunctionComparator::maySkipLoad, maySkipStore, maySkipInstruction, cmpValues, getReplacementValue"), ("moved code", "DifferentialFunctionComparator::findMatchingOpWithOffset, isDependingOnReloc, isRelocPossible, cmpBasicBlocks"), ("memory", "Utils.cpp mayStoreTo, mayAlias, getAllocaFromPtr, isDebugInfo")],
     technique="gated value terms: every accepting outcome must imply the facts which exclude interference; inductive check of one pass of the backward search",
     note="Two known findings (moving over calls, different pointers to the same memory). The size of an access through pointers of the same type is not modelled.")
prop("P21", "A custom pattern is applied only where it matches",
     "A custom pattern is applied to two compared instructions only if each version's code matches its own side of the pattern from its own start to its own end, beginning at at least one of them, and corresponding inputs of both sides are the same values; what earlier attempts matched has no influence. "
     "Only instructions and loads which a pattern matched are skipped, and the outputs it maps are equal afterwards, each to the corresponding one of the other side and no others. "
     "A pattern which cannot be read, has one side only, differs in the number of inputs or outputs, has outputs that are no instructions or values that are missing or no global pointers is never applied and does not stop the comparison.",
     ["programs", "configurations"],
     "all outcomes of the functions which read and match patterns, and of one pass of each of their loops",
     "The unit tests match a few patterns that are well formed; a wrong match needs several outputs, inputs found on one side only, or a second attempt after a failed one.",
     ["diffkemp/simpll/CustomPatternComparator.cpp", "diffkemp/simpll/CustomPatternSet.cpp", "diffkemp/simpll/InstPatternComparator.cpp", "diffkemp/simpll/ValuePatternComparator.cpp", "diffkemp/simpll/DifferentialFunctionComparator.cpp"],
     [("reading", "CustomPatternSet::addPatternFromModule, initializeInstPattern, initializeValuePattern, getPatternMetadata"), ("matching", "CustomPatternComparator::matchInstPattern, inputMappingValid, matchValuePattern; InstPatternComparator, ValuePatternComparator"), ("use of a match", "CustomPatternComparator::processPatternMatch; DifferentialFunctionComparator::createPatternMapping, isPartOfPattern")],
     technique="gated value terms: every outcome applying a pattern must imply the facts which make it a match; one pass of each loop from an arbitrary state",
     note="What a pattern means (whether the difference it describes is harmless) is the user's responsibility. Comparison of single instructions and values is covered by P10.")
prop("P23", "A function is equal only if what it calls was compared, too",
     "References to two functions in compared code are equal only if their names are (up to number suffixes), or the pattern for printing functions applies; unless they are intrinsics or abstractions made by the tool, the call is recorded in the results of both callers, and the two functions are compared, unless they already have been. "
     "Abstractions of assembly code are equal only if code and constraints are, constants only if their contents are, and symbols are assumed equal only while their own contents are compared. "
     "The result of a function which was inlined is removed, and a call stops counting, only if the caller became equal, nothing else depends on the result, and the function is not called any more; every remaining result, and each missing definition, is reported.",
     ["programs"],
     "all outcomes of the comparison of symbols, and all places which record, weaken, remove or report results",
     "A lost dependency shows only when the called function differs and a second caller, a recursion or an inlined call of the same function makes its result disappear; tests compare functions with at most one such call.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/simpll/ModuleComparator.cpp", "diffkemp/simpll/ModuleAnalysis.cpp"],
     [("references", "DifferentialFunctionComparator::cmpGlobalValues"), ("inlining", "ModuleComparator::compareFunctions, tryToInline, eraseInlinedResults"), ("report", "simplifyModulesDiff")],
     technique="gated value terms: every outcome 'equal' must imply the facts and the recorded effects; effects on results must be impossible in scenarios where something depends on them",
     note="Which of two sets of calls (before or after the inlining) a copy holds is not tracked. How the dependencies give the verdict is covered by P13.")
prop("P04", "The engine's report is understood as it was meant",
     "Every verdict, name, location, statistic, call, difference, call stack and missing definition which the engine reports is read by the tool as the same thing of the same version, whatever its value - including texts which look like values of other types, empty texts, zeros and lists left out as empty - and nothing is read which the engine does not report. "
     "The report reaches the reader complete, whatever its length, in each way of running the engine, and nothing else is written among it.",
     ["inputs", "programs"],
     "all keys, members and verdicts of the report; every subset of one omitted part, every single empty text; all functions of the engine for output",
     "Reports in tests are short and written by hand or come from a few programs; a name such as 'on', a report of a megabyte, or an omitted part needs a particular program.",
     ["diffkemp/simpll/Output.cpp", "diffkemp/simpll/library/FFI.cpp", "diffkemp/simpll/simpll.py", "diffkemp/semdiff/caching.py", "diffkemp/semdiff/result.py"],
     [("written", "Output.cpp MappingTraits, reportOutput; FFI.cpp runSimpLL; SimpLL.cpp main"), ("read", "run_simpll; ComparisonGraph.Vertex/Edge/SyntaxDiff/TypeDiff.from_yaml; Callstack.from_simpll_yaml; functions_diff (missing definitions)")],
     technique="format extracted from the writer's syntax tree, fed as abstract reports to the abstract interpretation of the reader; effect analysis of output and memory",
     note="The YAML libraries themselves are trusted to read back quoted scalars; how LLVM quotes plain scalars is taken from its headers.")
prop("P14", "One symbol without source does not stop or spoil the others",
     "When a snapshot is made from a list of functions, a symbol whose source is not found, cannot be built, or does not define a function is recorded without a module, and every other symbol of the list is recorded with the module of its own definition, as if it were alone. "
     "When it is made from a list of sysctl options, an option, handler function or data variable whose source is not found, built or loaded is left out, and all other handlers and users of data are recorded under their own option. "
     "Of several sources which may define a kernel symbol, the first one is taken which can be built and does define it.",
     ["inputs", "histories", "fault_sequences"],
     "every combination of outcomes for three functions of a list, for parts of two sysctl options, and for two candidate sources; all exceptions of the code reached for one symbol",
     "Tests make snapshots of single symbols which exist in the kernel sources; a failing symbol matters in front of others, and at one particular of several places.",
     ["diffkemp/diffkemp.py", "diffkemp/llvm_ir/source_tree.py", "diffkemp/llvm_ir/kernel_source_tree.py", "diffkemp/llvm_ir/kernel_llvm_source_builder.py", "diffkemp/snapshot.py"],
     [("lists", "generate_from_function_list, generate_from_sysctl_list"), ("sources", "SourceTree.get_module_for_symbol; KernelSourceTree.get_sysctl_module; KernelLlvmSourceBuilder.find_llvm_with_symbol_def, find_llvm_with_symbol_use")],
     technique="abstract interpretation of the creation of snapshots for every combination of outcomes; interprocedural may-raise analysis",
     note="What is raised by functions without parameters (the search database of the whole tree, the version of LLVM) concerns all symbols and may end the command. Failures of the operating system are not considered.")
prop("P15", "The compiler wrapper is transparent and records what it compiled",
     "When a project is built, each of its compiler commands is run once, first, and with its own arguments by the original compiler: if that fails the command fails, otherwise it succeeds whatever happens to LLVM IR, and its output, dependency files and preprocessing are not touched. "
     "For a command which compiles or links, IR is then made from the same inputs with the options to append and without those to drop, and the IR file, if created, is added under its absolute path to the database: as compiled (o:) or as linked from IR of objects (f:). "
     "The build gets the settings asked for by the user, and functions of the project are looked for in exactly the compiled IR files of the database.",
     ["inputs", "fault_sequences"],
     "every combination of kind of command, form and place of the output, options to add, to drop, and for dependencies, several and missing inputs, and failures of both compilers; every combination of options of the build",
     "No test runs the wrapper; a project whose Makefile uses another form of the command or has a source which does not compile is needed.",
     ["diffkemp/building/cc_wrapper.py", "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/utils.py", "diffkemp/diffkemp.py"],
     [("wrapper", "cc_wrapper.wrapper, check_call, execl"), ("reader", "WrapperBuildFinder.initialize; get_functions_from_llvm"), ("build", "build_c_project")],
     technique="abstract interpretation of the wrapper over all shapes of commands, of the reader of its database, and of the build",
     note="Names of files stand for all names; options other than those named are opaque. Clang, GCC and make themselves are trusted.")
prop("P30", "Functions reported equal behave equally",
     "Two versions of a function reported as equal return the same values and have the same effects for all inputs, except for differences covered by an enabled built-in or custom pattern.",
     ["programs"],
     "all pairs of programs",
     "Programs are unbounded; tests compare a fixed collection.",
     ["diffkemp/simpll"],
     [("comparison", "diffkemp/simpll DifferentialFunctionComparator, ModuleComparator and the preprocessing passes")],
     na="Equivalence of all programs the engine relates is a relational property of LLVM IR semantics; it needs a proof about the engine (or a solver on program pairs), not an analysis of its source. The parts which static analysis can decide are claimed as P06, P08, P09, P10, P21, P25.")
prop("P31", "Every comparison ends",
     "For all snapshots, comparing two versions ends after finite time, also for recursive functions, cyclic types and call graphs, and irreducible loops.",
     ["programs"],
     "all pairs of programs",
     "Inputs that make a comparison run forever are not known in advance.",
     ["diffkemp/simpll/ModuleComparator.cpp", "diffkemp/simpll/DifferentialFunctionComparator.cpp", "diffkemp/semdiff"],
     [("recursion and retries", "ModuleComparator::compareFunctions, tryToInline; function_diff.py functions_diff")],
     na="The loops alternate between inlining, retrying and comparing, and end because of properties of the compared program (finite call graph, shrinking sets of calls to inline); no ranking function over program-independent state exists that a static analysis in reach could find. One violation (a pattern matching no compared instruction) was found by reading and is covered by P21.")
prop("P32", "Harmless refactorings are recognised",
     "Versions that differ only in a way which an enabled built-in pattern describes (moved code, split functions, renamed or reordered fields, changed types, lines, names) are reported as equal.",
     ["programs"],
     "all program pairs related by each pattern",
     "Tests contain one program pair per pattern.",
     ["diffkemp/simpll/DifferentialFunctionComparator.cpp"],
     [("patterns", "DifferentialFunctionComparator, Config BuiltinPatterns")],
     na="Completeness quantifies over programs and is not promised by the documentation for all of them (patterns are heuristics); there is no specification of which programs must match, so a static rule would state the implementation.")
prop("P33", "The shown difference is the difference of the sources",
     "The syntax difference printed for a function is a correct difference of its two definitions: applied to the old definition it gives the new one.",
     ["inputs"],
     "all texts of functions",
     "Tests compare a few outputs with stored texts.",
     ["diffkemp/syndiff/function_syntax_diff.py"],
     [("difference", "diffkemp/syndiff/function_syntax_diff.py syntax_diff, diff; external diff")],
     na="The text is made by the external program diff and post-processed with regular expressions on its output; correctness depends on string contents at run time which no static argument in reach bounds. That every difference appears in all outputs is claimed as P17.")
prop("P34", "A verdict does not depend on the order of compared functions",
     "Comparing the functions of a snapshot in another order, or only some of them, gives each function the same verdict.",
     ["histories"],
     "all orders and subsets of the functions of a snapshot",
     "Tests compare single functions.",
     ["diffkemp/diffkemp.py", "diffkemp/semdiff/function_diff.py", "diffkemp/semdiff/caching.py", "diffkemp/simpll/SimpLL.cpp"],
     [("comparison of snapshots", "diffkemp/diffkemp.py compare_snapshots")],
     na="The set of functions linked into a module, and with it what the engine may inline or find, legitimately depends on what was compared before; order independence as a whole is therefore a property of runs over program contents. The part within reach (reuse of results gives the verdict a fresh comparison gives) is claimed as P13.")
