#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

prop("C01","Constants fold to the documented field value",
 "For every supported prime, any expression over compile-time-known values (literals, variables, template parameters, function results) built from circom's operators has exactly the value the operator documentation defines: arithmetic modulo p, integer quotient, remainder and shifts on representatives 0..p-1, signed comparison around p/2, bitwise operators reduced modulo p, and 0/1 booleans. That is the value that appears in the generated constraints and the witness. An operation with no value (division by zero) is reported as a compilation error.",
 ["inputs","configurations"],"every operator, operand pair and nesting, and each of the eight primes",
 "The only arithmetic tests are a handful of fixed operand pairs for a few operators with one field; the operand space is p^2 per operator and eight primes.",
 ["circom_algebra/src/modular_arithmetic.rs","circom_algebra/src/algebra.rs","constraint_generation/src/execute.rs","program_structure/src/utils/constants.rs"],
 [("modular arithmetic on BigInt representatives","circom_algebra/src/modular_arithmetic.rs"),("constant folding of ArithmeticExpression","circom_algebra/src/algebra.rs"),("prime table","program_structure/src/utils/constants.rs")],
 observe=["constant terms of the .r1cs constraints","exit code"])
prop("C02","Generated witness code computes operators as documented",
 "For every supported prime, every operator applied at witness-computation time to values that depend on the inputs yields the value the operator documentation defines for those operands, the same value the compiler would fold for them as constants. This holds whatever mix of constants, signals and variables the operands are.",
 ["inputs","configurations"],"every operator, every operand pair including the neighbourhoods of 0, p/2, p and of machine-word boundaries, each prime",
 "No test runs generated code at all.",
 ["code_producers/src/wasm_elements/wasm_code_generator.rs","compiler/src/intermediate_representation/compute_bucket.rs","compiler/src/intermediate_representation/translate.rs"],
 [("operator to instruction mapping","compiler/src/intermediate_representation/compute_bucket.rs"),("lowering of expressions","compiler/src/intermediate_representation/translate.rs")],
 observe=["witness file"])
prop("C03","The constraints are exactly those the program states",
 "Without simplification, the constraint system written by the compiler contains, for every instance in the component tree, one constraint for each executed `<==`, `==>` and `===` (element-wise for arrays and buses), each equivalent to the equation the program text states over that instance's signals, and no other constraint. Assignments with `<--`, `-->`, variables, asserts and logs contribute none.",
 ["programs"],"every valid program: every nesting of templates, parameters, loops, conditionals on known values, arrays, functions and component arrays",
 "The repository has no circuit in its tests; nothing compares generated constraints with program text.",
 ["constraint_generation/src/execute.rs","constraint_generation/src/execution_data/executed_template.rs","circom_algebra/src/algebra.rs","dag/src/lib.rs","dag/src/r1cs_porting.rs"],
 [("statement execution adds constraints to the node","constraint_generation/src/execute.rs"),("symbolic quadratic normal form","circom_algebra/src/algebra.rs"),("instantiation of node constraints along the tree","dag/src/lib.rs")],
 observe=[".r1cs constraints","_constraints.json"])
prop("C04","Simplification preserves the solution set",
 "For every program and every simplification option (--O1, --O2, --O2round, the old heuristics), the simplified constraint system has the same solutions as the unsimplified one when restricted to the signals that remain, and each of its solutions extends to the removed signals in exactly the way the reported substitutions say. Public inputs, outputs and signals used by custom gates are never removed.",
 ["programs","configurations"],"every constraint system and every simplification configuration",
 "Tests cover only trivial algebra helpers; the clustering, elimination order and rounds are never compared with the original system.",
 ["constraint_list/src/constraint_simplification.rs","constraint_list/src/lib.rs","circom_algebra/src/simplification_utils.rs","circom_algebra/src/algebra.rs"],
 [("equality and constant clusters","constraint_list/src/constraint_simplification.rs"),("linear elimination","circom_algebra/src/simplification_utils.rs"),("application of substitutions","constraint_list/src/constraint_simplification.rs")],
 state=[("forbidden","signals that may not be eliminated","constraint_list/src/lib.rs"),("substitutions","eliminated signal -> linear expression","constraint_list/src/constraint_simplification.rs")],
 observe=[".r1cs",".sym","_substitutions.json"])
prop("C05","Every signal gets the value the program assigns",
 "For every program and every accepted input, the computed witness gives each signal of each component the value that executing the program text on those inputs assigns to it, no matter in which order the inputs of subcomponents were provided. A subcomponent's outputs are the values its own template computes from its inputs.",
 ["programs","inputs","schedules"],"every program and input vector, and every admissible order in which component inputs become available",
 "No test computes a witness.",
 ["compiler/src/intermediate_representation/translate.rs","compiler/src/hir/merger.rs","compiler/src/circuit_design/build.rs","code_producers/src/wasm_elements/wasm_code_generator.rs","compiler/src/intermediate_representation/store_bucket.rs"],
 [("input counters trigger subcomponent execution","compiler/src/intermediate_representation/store_bucket.rs"),("address computation of signals and components","compiler/src/intermediate_representation/translate.rs"),("memory layout of component tree","compiler/src/circuit_design/build.rs")],
 state=[("pending inputs","inputs a component still waits for","code_producers/src/wasm_elements/wasm_code_generator.rs")],
 observe=["witness file mapped through .sym"])
prop("C06","An accepted witness satisfies the emitted constraints",
 "Whenever witness computation succeeds, the witness file has one value per wire of the emitted R1CS, its wire 0 is 1, and it satisfies every constraint of that R1CS, under every optimisation level and prime, provided each signal assigned with `<--` also satisfies its stated constraints. If a stated `===` does not hold for the values, witness computation fails rather than producing a witness.",
 ["programs","inputs","configurations"],"every program, input, optimisation level and prime",
 "No test links the two outputs of the compiler (constraints and witness program).",
 ["circom/src/execution_user.rs","circom/src/compilation_user.rs","compiler/src/circuit_design/build.rs","constraint_list/src/lib.rs","constraint_list/src/r1cs_porting.rs"],
 [("witness list built from the simplified constraint list","constraint_list/src/lib.rs"),("witness2signal table in the generated program","compiler/src/circuit_design/build.rs")],
 observe=["witness file",".r1cs"])
prop("C07","Only quadratic constraints over known structure are accepted",
 "A program is accepted only if each constraint it executes is quadratic (a product of two linear expressions plus a linear one) and every constraint, component instantiation, array size, template parameter and signal-array index used in a constraint depends only on compile-time-known values and conditions; any program violating this is rejected with an error, and a program respecting it is not rejected for these reasons.",
 ["programs"],"every placement of signals, variables, conditionals and loops in constraint-relevant positions",
 "No test compiles a program, accepted or rejected.",
 ["type_analysis/src/analyzers/unknown_known_analysis.rs","constraint_generation/src/execute.rs","circom_algebra/src/algebra.rs"],
 [("static known/unknown flow analysis","type_analysis/src/analyzers/unknown_known_analysis.rs"),("dynamic non-quadratic and unknown-block checks","constraint_generation/src/execute.rs")],
 observe=["exit code","absence of artifacts"])
prop("C08","Signals are assigned at most once and inputs are complete",
 "No accepted program assigns the same signal element twice on one execution path, assigns an input signal inside its own template, reads a subcomponent's output before all of that subcomponent's inputs are assigned, accesses its intermediate signals, or ends with an instantiated subcomponent whose inputs were not all assigned. Each such program is rejected with an error, and programs free of these faults are not rejected for them.",
 ["programs","histories"],"every sequence of assignments, including under unknown conditions, in loops and over arrays of components",
 "No test compiles a program; the orders of assignment are unbounded.",
 ["constraint_generation/src/assignment_utils.rs","constraint_generation/src/environment_utils/component_representation.rs","constraint_generation/src/execute.rs"],
 [("assignment state per signal element","constraint_generation/src/assignment_utils.rs"),("unassigned input bookkeeping","constraint_generation/src/environment_utils/component_representation.rs")],
 state=[("AssignmentState","NoAssigned / MightAssigned(conditions) / Assigned per signal element","constraint_generation/src/environment_utils/slice_types.rs")],
 observe=["exit code"])
prop("C09","Variables, loops and functions run alike at both stages",
 "Variables, arrays, control flow and (recursive) functions follow the documented imperative semantics, whether the compiler evaluates them because everything is known or the generated program evaluates them on input-dependent values, and mixtures of both never let a compile-time value replace one that changes at run time.",
 ["programs","inputs"],"every function body, loop nest, early return, array update and mixture of known and unknown values",
 "No test executes circom functions or generated code.",
 ["constraint_generation/src/execute.rs","constraint_generation/src/execution_data/analysis.rs","constraint_generation/src/compute_constants.rs","compiler/src/hir/merger.rs","compiler/src/intermediate_representation/translate.rs"],
 [("values computed during elaboration are joined per expression","constraint_generation/src/execution_data/analysis.rs"),("replacement of constant expressions in generated code","constraint_generation/src/compute_constants.rs")],
 observe=["witness file",".r1cs"])
prop("C10","Syntactic sugar means its documented expansion",
 "A program written with anonymous components, tuples, `_`, `==>`/`-->`, array assignments, compound assignments, `for`, or inline arrays accepts the same inputs, yields the same constraints over the named signals and the same signal values as the program with that sugar replaced by its documented expansion.",
 ["programs"],"every nesting of the sugar forms, named and positional inputs, arrays and multiple outputs",
 "No test parses a program using them.",
 ["parser/src/syntax_sugar_remover.rs","parser/src/lang.lalrpop","compiler/src/hir/sugar_cleaner.rs","program_structure/src/abstract_syntax_tree/statement_builders.rs"],
 [("anonymous component and tuple removal","parser/src/syntax_sugar_remover.rs"),("inline array lowering","compiler/src/hir/sugar_cleaner.rs")],
 observe=[".r1cs","witness file","exit code"])
prop("C11","Buses behave as their ordered fields",
 "A bus signal is the ordered collection of its fields: assigning, constraining, passing to or reading from components whole buses, arrays of buses or nested buses has exactly the effect of doing it field by field in declaration order, only between buses of the same type and parameters, and the input and output order of wires follows that layout.",
 ["programs","inputs"],"every bus definition (nested, parametrised, arrays) and access path",
 "No test contains a bus.",
 ["constraint_generation/src/environment_utils/bus_representation.rs","constraint_generation/src/execute.rs","program_structure/src/program_library/bus_data.rs","compiler/src/intermediate_representation/translate.rs"],
 [("bus slices and field access","constraint_generation/src/environment_utils/bus_representation.rs"),("bus layout in generated code","compiler/src/intermediate_representation/translate.rs")],
 observe=[".r1cs",".sym","witness file","exit code"])
prop("C12","Tags are required, propagated and valued as documented",
 "A signal passed to an input declared with a tag must carry that tag or the program is rejected; tags propagate only through `<==`, from a signal, array or bus (or whole set of array elements) carrying them, and not through `<--` or operators; main has no tagged inputs; and a tag's value is the compile-time constant given to it once before the signal is used, readable afterwards and never altered. Programs following these rules are accepted and read the values the rules give.",
 ["programs","histories"],"every order of tag declaration, value assignment, signal assignment and read",
 "No test contains a tag.",
 ["constraint_generation/src/assignment_utils.rs","constraint_generation/src/execute.rs","constraint_generation/src/environment_utils/component_representation.rs"],
 [("tag propagation and value states","constraint_generation/src/assignment_utils.rs"),("required tag check at component inputs","constraint_generation/src/environment_utils/component_representation.rs")],
 state=[("TagState","defined / value_defined per tag","constraint_generation/src/environment_utils/slice_types.rs")],
 observe=["exit code","constants in .r1cs"])
prop("C13","All artifacts describe one and the same circuit",
 "The R1CS file is well formed and its header counts equal its contents; the symbol file lists every signal exactly once with the wire it occupies or -1 if removed, consistently with the R1CS wire-to-label map and the witness; and the JSON constraint and substitution files state the same constraints and substitutions over the same numbering.",
 ["programs","configurations"],"every program under every combination of output flags, optimisation level and prime",
 "Tests never read back what a compilation wrote.",
 ["constraint_writers/src/r1cs_writer.rs","constraint_writers/src/sym_writer.rs","constraint_writers/src/json_writer.rs","constraint_list/src/r1cs_porting.rs","constraint_list/src/sym_porting.rs","constraint_list/src/json_porting.rs","dag/src/r1cs_porting.rs"],
 [("section writers","constraint_writers/src/r1cs_writer.rs"),("label/wire maps","constraint_list/src/lib.rs")],
 observe=[".r1cs",".sym","_constraints.json","_substitutions.json","witness file"])
prop("C14","Wire order and public signals follow the main component",
 "In every artifact wire 0 is the constant one, followed by main's outputs, then the inputs listed as public, then the private inputs, in declaration order of the main template with arrays and buses flattened in row-major order, and only those outputs and listed inputs are counted as public. A public list naming anything but an input of main is rejected.",
 ["programs","configurations"],"every main template interface and public list, under every optimisation level",
 "No test inspects the order of wires.",
 ["dag/src/lib.rs","constraint_generation/src/execution_data/executed_template.rs","constraint_list/src/lib.rs","type_analysis/src/check_types.rs"],
 [("signal ordering while building the DAG","constraint_generation/src/execution_data/executed_template.rs"),("main public list check","program_structure/src/program_library/program_archive.rs")],
 observe=[".r1cs header and wire map",".sym","witness file"])
prop("C15","Includes resolve once, in order, and failures are errors",
 "Each file reachable through include directives is read once whatever the number, order or cycles of includes; a relative include resolves against the including file's directory first and then against the -l directories in the order given; and a missing file, a duplicate definition across distinct files, a missing or duplicated main component or an unsupported pragma version is an error.",
 ["inputs","configurations"],"every include graph over files and library directories",
 "No test has more than one file.",
 ["parser/src/include_logic.rs","parser/src/lib.rs","program_structure/src/program_library/program_merger.rs"],
 [("include worklist with canonical paths","parser/src/include_logic.rs"),("merging of definitions","program_structure/src/program_library/program_merger.rs")],
 state=[("FileStack","files still to read and files already read","parser/src/include_logic.rs")],
 observe=["exit code","constraints contributed by the chosen file"])
prop("C16","Compilation is deterministic",
 "Compiling the same source with the same options always produces byte-identical artifacts, the same reports and the same verdict, independently of thread scheduling, hash seeds, the number of processors and previous runs in the same output directory.",
 ["schedules","configurations"],"every interleaving of the simplifier's worker threads and every hash seed",
 "Tests run once per process and never compare two compilations.",
 ["constraint_list/src/constraint_simplification.rs","circom_algebra/src/simplification_utils.rs","dag/src/map_to_constraint_list.rs"],
 [("thread pool per cluster with an order-insensitive join","constraint_list/src/constraint_simplification.rs"),("iteration over hash maps confined to order-insensitive uses","circom_algebra/src/simplification_utils.rs")],
 observe=["bytes of .r1cs, .sym, .json, .wasm, .cpp, .dat"])
prop("C17","Witness inputs are matched exactly to main's inputs",
 "Witness computation accepts an input object exactly when it gives each input signal of main the right number of values (nested or flattened arrays, bus objects or flat arrays of a whole bus), as integers in decimal or hexadecimal, reduced modulo p; a missing, surplus or unknown signal, or a wrong number of values, is an error and no witness is produced. The n-th flattened value given is the value of the n-th element of that signal.",
 ["inputs","fault_sequences"],"every input object, well formed or not",
 "No test feeds inputs to generated code.",
 ["code_producers/src/wasm_elements/common/witness_calculator.js","code_producers/src/c_elements/common/main.cpp","code_producers/src/c_elements/common/calcwit.cpp","compiler/src/ir_processing/build_inputs_info.rs"],
 [("input hash map and per-signal counters","code_producers/src/wasm_elements/wasm_code_generator.rs"),("flattening and counting in the calculators","code_producers/src/wasm_elements/common/witness_calculator.js")],
 state=[("inputSignalAssigned","inputs already provided","code_producers/src/c_elements/common/calcwit.cpp")],
 observe=["exit status of the witness calculator","witness file"])
prop("C18","Asserts hold or no witness is produced",
 "An `assert` whose condition is known and false makes compilation fail; one that depends on inputs makes witness computation fail exactly on the inputs for which it is false, and likewise for every `===` and `<==` check kept by the chosen sanity level. On all other inputs neither influences constraints or witness values.",
 ["programs","inputs","configurations"],"every assert placement (templates, functions, loops, subcomponents), input and sanity level",
 "No test runs an assert.",
 ["constraint_generation/src/execute.rs","compiler/src/intermediate_representation/translate.rs","compiler/src/intermediate_representation/assert_bucket.rs","code_producers/src/wasm_elements/wasm_code_generator.rs"],
 [("assert buckets","compiler/src/intermediate_representation/assert_bucket.rs"),("sanity check levels","compiler/src/intermediate_representation/translate.rs")],
 observe=["exit status of compiler and witness calculator","witness file"])
prop("C19","The C++ and WebAssembly witness programs agree",
 "For every program and input object, the generated C++ program and the generated WebAssembly program either both reject the input or produce byte-identical witness files and the same log output.",
 ["programs","inputs","configurations"],"every program, input and prime",
 "No test builds either program.",
 ["code_producers/src/c_elements/c_code_generator.rs","code_producers/src/wasm_elements/wasm_code_generator.rs","compiler/src/intermediate_representation"],
 [("one intermediate representation, two printers","compiler/src/intermediate_representation")],
 observe=["witness files of both programs","their exit status","their log output"])
prop("C20","Custom gates appear as declared and add no constraints",
 "With custom templates enabled, every instance of a custom template is recorded in the R1CS with its template name, parameters and the wires of its signals in declaration order, and contributes no constraint; its signals are never simplified away, and custom templates containing constraints or subcomponents, or used without the pragma, are rejected when main reaches them.",
 ["programs","configurations"],"every use of custom templates, with parameters, arrays and nesting below ordinary templates, at every optimisation level",
 "No test uses a custom template.",
 ["type_analysis/src/analyzers/custom_gate_analysis.rs","dag/src/r1cs_porting.rs","constraint_list/src/r1cs_porting.rs","constraint_writers/src/r1cs_writer.rs","constraint_generation/src/execution_data/executed_program.rs"],
 [("custom gate sections","constraint_writers/src/r1cs_writer.rs"),("forbidden signals of custom gates","constraint_list/src/lib.rs")],
 observe=[".r1cs sections 4 and 5","exit code"])
prop("C21","The exit status tells whether the requested outputs exist",
 "A compilation exits with status 0 exactly when it wrote completely every output requested by its flags, in the requested directory; any lexical, syntactic or semantic error, unreadable input, unwritable output or invalid option makes it exit non-zero with an error message and without reporting success. No source, option or output location makes the compiler crash instead of reporting an error (programs whose compile-time execution does not terminate, or recurses without bound, aside).",
 ["inputs","configurations","fault_sequences"],"every command line, source file and file system fault on inputs and outputs",
 "No test runs the command line program.",
 ["circom/src/main.rs","circom/src/input_user.rs","circom/src/execution_user.rs","circom/src/compilation_user.rs","circom/src/parser_user.rs"],
 [("phases propagate errors to the exit code","circom/src/main.rs"),("option parsing","circom/src/input_user.rs")],
 observe=["exit status","files in the output directory","stderr"])
prop("C22","Static checks reject ill-formed programs and only those",
 "A program that uses an undeclared or out-of-scope name, redeclares one in the same scope, calls with the wrong number of arguments, indexes with the wrong number of dimensions or with a known index out of bounds, mixes signals, variables, components, buses or tuples where the language forbids it, or has a function path without return, is rejected; a program free of such faults is accepted, and each name denotes its innermost visible declaration.",
 ["programs"],"every placement of declarations, blocks and uses",
 "No test compiles a program.",
 ["type_analysis/src/analyzers/symbol_analysis.rs","type_analysis/src/analyzers/type_check.rs","type_analysis/src/analyzers/functions_all_paths_with_return_statement.rs","type_analysis/src/analyzers/signal_declaration_analysis.rs","program_structure/src/utils/environment.rs"],
 [("static analysers","type_analysis/src/check_types.rs"),("scoped environments","program_structure/src/utils/environment.rs")],
 observe=["exit code","witness values of shadowed variables"])
prop("C23","--inspect reports exactly the unconstrained signals",
 "With --inspect, a warning is issued for an input or intermediate signal (or subcomponent input or output) of a template precisely when no constraint of that template mentions it and it is not explicitly marked as unused with `_ <==`, and the presence of --inspect never changes the verdict or any artifact.",
 ["programs","configurations"],"every template instance and usage pattern of its signals",
 "No test uses --inspect.",
 ["dag/src/constraint_correctness_analysis.rs","constraint_generation/src/execute.rs","dag/src/lib.rs"],
 [("per node analysis of constrained signals","dag/src/constraint_correctness_analysis.rs"),("underscored signals","constraint_generation/src/execution_data/executed_template.rs")],
 observe=["warnings on the console","artifacts"])
prop("C24","Comments, strings and layout never change what a program means, and reports point at their place",
 "Replacing the blanks, line ends and comments between the tokens of a program by any others leaves verdict, constraints, symbols and reports (by the token they point at) as they are; `//` goes to the end of its line, `/*` to the next `*/`, neither is recognised within a string, a string ends at the next quote and does not continue over a line end, and what a string contains is printed unchanged; an unterminated comment is rejected with a report at the place where it begins, and the places of all reports count lines and characters of the text as the user wrote it.",
 ["programs"],"every source text",
 "The tests of the comment preprocessor cover a dozen short texts, and no place of a report.",
 ["parser/src/parser_logic.rs","parser/src/lang.lalrpop","program_structure/src/utils/error_definition.rs","program_structure/src/utils/file_definition.rs"],
 [("comment preprocessor","parser/src/parser_logic.rs"),("labels of reports","program_structure/src/utils/error_definition.rs")],
 observe=["exit code","printed strings","r1cs, sym and JSON","places of reports"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
