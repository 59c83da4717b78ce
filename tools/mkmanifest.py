#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness/props module."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ (TLC): trace validation of compilations and witnesses against spec/%s"
T = {
 "C01": (TRACE % "Lang.tla over Field.tla; Field checked exhaustively at small primes", "Every operator on a boundary operand table and random operands, for all eight primes, folded in literals, parameters, variables, functions and nested expressions; TLC evaluates the documented semantics. Trusts the Java override of BigInt (itself cross-checked by TLC)."),
 "C02": (TRACE % "Lang.tla over Field.tla; Field checked exhaustively at small primes", "Every operator over several internal representations of its operands, on boundary and random inputs, all eight primes; each witness value is compared with TLC's. Bounded to the sampled operands."),
 "C03": (TRACE % "Lang.tla (elaboration)", "Random programs; the r1cs of --O0 is compared as a multiset of canonical polynomials with the one TLC derives from the program text. Bounded to generated program shapes."),
 "C04": (TRACE % "Simplify.tla (closure of linear consequences); the elimination machine itself checked at tiny primes", "Random and structured systems; TLC decides equivalence of the unsimplified and simplified systems modulo the reported substitutions by elimination over the real field."),
 "C05": (TRACE % "Lang.tla (execution)", "Random component trees; every signal of every component compared with TLC's execution of the program."),
 "C06": (TRACE % "Witness.tla", "Each witness evaluated by TLC on each constraint of the emitted r1cs, for every optimisation level and prime; programs with failing checks must not yield a witness."),
 "C07": (TRACE % "Lang.tla (verdicts)", "Programs mutated towards non-quadratic constraints, unknown sizes, indexes and conditions; TLC decides acceptance."),
 "C08": (TRACE % "Lang.tla (verdicts)", "Every small tree of conditionals with assignments of one signal at its leaves, the same for array elements, bus fields and component inputs in part; programs mutated towards double, missing or misplaced assignments; TLC decides acceptance."),
 "C09": (TRACE % "Lang.tla (both modes)", "Random imperative code evaluated at compile time, at run time and in mixtures; constraints, values and log lines compared with TLC's."),
 "C10": ("TLA+ (TLC): desugaring machine (Desugar.tla) and trace validation of its results against Lang.tla", "Random programs with nested anonymous components (named and positional inputs, parallel, loops), tuples, `_`, compound assignments, and misuses of them; TLC derives the program without sugar, and judges verdict, constraints, signal values and log lines of the sugared text by it. Bounded to generated programs; constraints are not compared when two components of one template cannot be told apart by their signals."),
 "C11": (TRACE % "Lang.tla (buses)", "Programs over random bus types; verdict, constraints, values and wire order compared with TLC's."),
 "C12": ("TLA+ (TLC): state machine of tags (Tags.tla) enumerated, its behaviours replayed in circom", "Every short sequence of tag operations of the model becomes a program; verdict and read values compared with the model."),
 "C13": (TRACE % "Artifacts.tla", "TLC checks the relations between r1cs, sym, JSON and witness files of random programs at every optimisation level."),
 "C14": (TRACE % "Artifacts.tla over Lang.tla (Layout)", "TLC derives the order of wires from the program and compares it with the artifacts."),
 "C15": ("TLA+ (TLC): include worklist (Include.tla) enumerated over file graphs, each replayed in circom", "All small include graphs and library orders; verdict and chosen file compared with the model."),
 "C16": ("TLA+ (TLC): thread pool model (Pool.tla) over all interleavings, and trace validation of repeated compilations", "Model: the result is a function of the clusters. Implementation: repeated runs under different thread schedules and hash seeds compared byte by byte."),
 "C17": ("TLA+ (TLC): input protocol (Inputs.tla) enumerated, each behaviour replayed in the generated programs", "All small input objects over a family of interfaces, well formed or not, plus random ones."),
 "C18": (TRACE % "Lang.tla (asserts, sanity levels)", "Random programs with asserts and constraints that fail on some inputs; TLC decides on which."),
 "C19": (TRACE % "Lang.tla, with both generated programs as the implementation", "The C++ and WebAssembly programs of the same random programs run on the same inputs; each compared with TLC's execution and with each other."),
 "C20": (TRACE % "Gates.tla", "Programs with custom templates; TLC derives sections 4 and 5 of the r1cs and the verdict."),
 "C21": ("TLA+ (TLC): command line machine (Cli.tla) enumerated, each behaviour replayed with injected faults", "All combinations of output options and faults of the model, plus mutated sources."),
 "C22": (TRACE % "Lang.tla (verdicts, scopes)", "Programs mutated towards name, arity, dimension, type and return faults; TLC decides acceptance and values of shadowed names."),
 "C23": (TRACE % "Inspect.tla over Lang.tla", "TLC derives which signals are unconstrained; the warnings of --inspect are compared, and artifacts with and without it."),
 "C24": ("TLA+ (TLC): scanner (Scan.tla) enumerated over all short texts, each replayed; TraceRuns.tla over re-laid-out programs", "All texts of up to 3 (thorough: 4) atoms of comments, strings, line ends and statements, and longer random ones; each compiled, with printed strings, sum and places of reports compared. Random programs re-laid-out: same artifacts, same reports."),
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/harness/props/%s.py" % i.lower()):
        cmd = "python3 check.py " + i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " thorough", evidence_file="evidence/%s.json" % i, technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
   notes="No hooks in /repo: every check observes the compiler and the generated programs from outside. Specifications: spec/*.tla, checked with TLC."), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
