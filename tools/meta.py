#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing the table)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe, note=note))


prop("C01", "The HIR interpreter and the MIR interpreter agree on every program",
     "For every program the compiler accepts and every input, executing it through the HIR evaluator and through the unoptimised MIR interpreter gives the same outcome: the same returned value, the same observable effects in the same order, and the same kind of runtime failure (or none). Neither executor panics or aborts the host on an accepted program.",
     ["programs", "inputs"],
     "A corpus of program templates (mined from the repository's own tests and book plus written ones), each over all values of its symbolic integers, floats, booleans and bounded choices.",
     "Tests run each program on one literal input; lowering mistakes show only for particular branch, failure and aliasing combinations, and need both executors compared on the same run.",
     ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs"],
     [("HIR evaluation", "src/eval.rs"), ("lowering to MIR", "src/emit_mir.rs"), ("MIR evaluation", "src/mir/interpreter.rs")],
     ["CompilerSession::run_entry_with_limits", "host functions called by the program"],
     "Both executors run symbolically on the same symbolic inputs; results, host-call logs and failure kinds are compared by the solver on every path.")
prop("C02", "MIR optimisation preserves what a program computes",
     "For every accepted program and every input, running it with MIR optimisation on gives the same returned value, the same observable effects in the same order and the same source-level failure as running it with optimisation off. Only resource use (fuel, call depth) may differ.",
     ["programs", "inputs"],
     "Program templates over all values of their symbolic inputs; programs include constant-folding, inlining, bounds-check, aliasing, loop and ownership shapes.",
     "Tests compare optimised output on a few literal inputs, most of which are constant-folded away entirely; a wrong rewrite shows only on the inputs or paths its guard forgot.",
     ["src/mir/pass", "src/mir/edit.rs", "src/mir/const_eval.rs"],
     [("optimisation passes", "src/mir/pass"), ("CFG edits", "src/mir/edit.rs"), ("compile-time evaluation", "src/mir/const_eval.rs")],
     ["CompilerSession::set_mir_optimization", "CompilerSession::run_entry_with_limits"],
     "Raw and optimised MIR of the same program run symbolically on the same inputs; the solver compares outcomes on every path. Programs whose constants are themselves symbolic are prepared (optimised) symbolically too.")
prop("C03", "Execution limits always stop a program, and poison the executor",
     "Whatever limits for fuel, call depth and environment cells a host sets, no guest program runs past them: every unbounded loop or recursion ends in the matching sandbox violation, in every executor. After a violation the executor refuses further guest code with the same cause, and a program that stays within the limits is never stopped.",
     ["programs", "inputs", "configurations"],
     "Loop and recursion templates, every limit value in a range, every loop count in a range, all three execution modes.",
     "Tests use a handful of limit values; off-by-one accounting and unchecked cycles depend on the exact limit and the path taken.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/execution.rs", "src/mir/pass"],
     [("fuel and depth accounting", "src/execution.rs"), ("fuel checks on cycles", "src/emit_mir.rs"), ("poisoning", "src/mir/interpreter.rs")],
     ["ExecutionLimits", "Interpreter::run_entry", "Interpreter::is_poisoned"],
     "The limit values are symbolic. A step bound in the engine turns an unchecked cycle into a reported violation.")
prop("C04", "Every value is dropped exactly once, and no storage is leaked",
     "On every path through an accepted program - normal return, early exit from loops and functions, source failure at any point - each value the program creates is dropped exactly once and never used afterwards, and all storage the program allocated is released when its result is.",
     ["programs", "inputs"],
     "Program templates with tracked values in variables, containers, closures, iterators and match arms, over all values of their branch conditions, indices and failure points.",
     "Which values are live depends on the path; tests exercise few of the failure and early-exit points, and a leak or double drop on an untested edge is silent.",
     ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs", "src/mir/pass", "src/containers.rs"],
     [("scope cleanup", "src/eval.rs"), ("drop elaboration", "src/emit_mir.rs"), ("drop and husk handling", "src/mir/interpreter.rs")],
     ["Value::drop and Value::clone of user types", "memory the interpreter allocates"],
     "The engine owns the heap: use after free, double free and unreleased allocations are exact, per path. Tracked values log creation and drop through host functions.")
prop("C05", "Integer operations compute exact two's-complement results",
     "Every integer operation of the standard library returns the mathematically specified 64-bit two's-complement result for every operand, wrapping where documented, and fails only with the documented source failure (for example division by zero), identically in every execution mode and when the compiler folds it.",
     ["inputs"],
     "All 64-bit values of each operand of each integer operation.",
     "Tests sample a few operands; the interesting ones (extremes, -1, zero, shift widths) are 2^64 wide and differ per operation.",
     ["src/std/math.rs", "src/std/core.rs", "src/mir/pass"],
     [("integer natives", "src/std/math.rs"), ("bit natives", "src/std/math.rs")],
     ["standard library functions called from a program"],
     "Every operation is run on fully symbolic operands and compared with an independent bit-vector formula.")
prop("C06", "Floats are never NaN or infinite, and follow their documented rules",
     "No operation on floats yields a NaN or an infinity: overflow saturates and undefined cases are source failures. Comparison, rounding, conversion, equality and hashing of floats are consistent with one another for every float, including both zeros and the extremes.",
     ["inputs"],
     "All finite doubles for each operand of each operation (transcendental functions under the facts the C standard promises).",
     "Tests sample ordinary floats; zeros, subnormals, extremes and overflow boundaries are where the guarantee is at risk.",
     ["src/std/math.rs", "src/std/value.rs"],
     [("float natives", "src/std/math.rs"), ("the finite float type", "src/std/math.rs")],
     ["standard library functions called from a program"],
     "Float operations are encoded in the IEEE-754 theory of the solver; queries that time out are reported as inconclusive, never as a pass.")
prop("C07", "Arrays and iterators behave like the sequences they stand for",
     "Every array operation - indexing, assignment, append, prepend, pop, insert, slice, concat, reverse, sort, search - and every iterator adaptor returns what it does on a plain mathematical sequence, for every content, length, index and internal layout. Out-of-range accesses are source failures and never touch other memory; copies are independent of the original.",
     ["inputs", "histories"],
     "Arrays of symbolic elements and lengths, symbolic indices over all integers, and symbolic short histories of operations that wrap the internal ring buffer.",
     "Arrays are ring buffers: the same content has many layouts, and mistakes show only after particular mixes of front and back operations; tests build almost every array from a literal.",
     ["src/std/array_type.rs", "src/std/prelude/array.fer", "src/std/prelude/array_type.fer"],
     [("ring buffer", "src/std/array_type.rs"), ("iterator adaptors", "src/std/prelude")],
     ["standard library functions called from a program"],
     "Every law compares the operation with an index-by-index definition inside one program run; elements and indices stay symbolic.")
prop("C08", "String operations respect Unicode and agree with their definitions",
     "Every string operation - length, slicing, searching, replacing, trimming, splitting, joining, case mapping, iteration - returns what its documentation defines for every string, never splits a character, and never panics.",
     ["inputs"],
     "All strings up to a bounded number of characters from all of Unicode's width classes, and all integer bounds.",
     "Tests use short ASCII samples; boundaries between multi-byte characters and negative or out-of-range indices are combinatorial.",
     ["src/std/string.rs"],
     [("string natives", "src/std/string.rs")],
     ["standard library functions called from a program"],
     "Strings are symbolic bytes or code points of bounded length; segmentation uses the real Unicode tables through a stated set of character classes.")
prop("C09", "Sets and maps behave like mathematical sets and maps",
     "A set contains exactly the values inserted into it and a map exactly the last value inserted for each key, whatever the order of insertion, the number of entries and hash collisions. Iteration yields each entry once, length counts them, copies are independent, and equality and hashing depend on the contents only, not on the history.",
     ["inputs", "histories"],
     "Short histories of insertions over every choice of keys from a small range (forked), symbolic values, growth through several table sizes, and keys of every kind of type.",
     "Open addressing, growth and rehashing make correctness depend on the history; tests insert a few literal keys once.",
     ["src/std/prelude/hash_collections.fer", "src/std/hash.rs"],
     [("hash tables", "src/std/prelude/hash_collections.fer"), ("hashing", "src/std/hash.rs")],
     ["set_insert", "set_contains", "map_insert", "map_get", "iteration, equality and value_hash"],
     "Laws compare each history with an integer-coded model inside the program; keys fork by the solver's choice, values stay symbolic.")
prop("C10", "Equality, ordering and hashing are lawful and consistent",
     "For every built-in and derived type equality is an equivalence, ordering is total and consistent with equality and with the comparison operators, min, max and sorting, equal values hash equal, and explicit implementations by the user are the ones used, also inside tuples, arrays and options.",
     ["inputs"],
     "All values (integers, floats, booleans unbounded; strings, arrays, tuples, records and enums up to stated sizes) of pairs and triples.",
     "The laws relate two or three values at once; tests check single literal pairs, never transitivity or agreement of hash and equality.",
     ["src/std/value.rs", "src/std/prelude/comparison.fer", "src/std/prelude/core_impls.fer", "src/std/hash.rs"],
     [("derived Value", "src/std/value.rs"), ("comparison", "src/std/prelude/comparison.fer")],
     ["operators and trait methods called from a program"],
     "Each law is a boolean function over symbolic operands; the solver must find it true on every path in every execution mode.")
prop("C11", "Values survive the round trip through text and data",
     "Formatting a value as text and parsing it back, encoding as JSON or data text and decoding, and serializing and deserializing, each give back an equal value for every value of a supported type. Malformed or mistyped input is reported as an error or a source failure, never a wrong value and never a host panic.",
     ["inputs"],
     "All integers, booleans and bounded strings over stated alphabets, forked collections and enums; symbolic malformed inputs up to a bounded length.",
     "Escapes, extremes and nesting interact; tests round-trip a few literals, and malformed inputs are unbounded.",
     ["src/std/json.rs", "src/std/data_text.rs", "src/std/serde.rs", "src/std/prelude/json.fer", "src/std/prelude/data_text.fer", "src/std/prelude/serde_impl.fer"],
     [("JSON codec", "src/std/prelude/json.fer"), ("derived serialization", "src/std/serde.rs")],
     ["json_encode/json_decode, data_text_encode/decode, serialize/deserialize, to_string/parse_*"],
     "Round trips run symbolically end to end; parsers run over symbolic characters.")
prop("C12", "The compiler survives any source text",
     "For every source text the compiler terminates with either a module or an error: it never panics or aborts, and every position it reports lies inside the source and on a character boundary.",
     ["inputs"],
     "Source templates with symbolic bytes (any byte, any character class) at positions of interest, over all their values.",
     "Tests feed well-formed programs and a few typical mistakes; the compiler's unwraps and span arithmetic are reached by inputs nobody wrote down.",
     ["src/parser", "src/compiler", "src/types", "src/desugar", "src/ide"],
     [("lexer and parser", "src/parser"), ("type inference", "src/types"), ("diagnostics", "src/compiler")],
     ["CompilerSession::compile", "the error's locations"],
     "The whole front end runs symbolically over the symbolic bytes; each path stands for every text that follows it.")

prop("C13", "A failed run leaves nothing behind in its executor",
     "An executor that has run programs which returned or ended in a source failure is as good as a new one: whatever was run on it before and wherever it failed (in a callee, closure, iterator, match arm, loop, trait method or subscript accessor), the next call gives the outcome, effects and cleanup it gives in a fresh executor with the same limits. Only a sandbox violation or a failing cleanup poisons it, and then it runs no more guest code and reports the same cause.",
     ["inputs", "histories", "configurations"],
     "Histories of 2 calls with symbolic inputs each, under every call-depth limit up to 16 or environment-cell limit up to 48, in each execution mode.",
     "A leaked frame, cell or depth count is invisible until a later call needs the last one, so it takes the exact limit and a failure at the right place before; tests reuse an executor a few times with ample limits.",
     ["src/eval.rs", "src/mir/interpreter.rs", "src/execution.rs"],
     [("unwinding in the HIR evaluator", "src/eval.rs"), ("unwinding in the MIR interpreter", "src/mir/interpreter.rs")],
     ["EvalCtx::with_limits", "Interpreter::run_entry", "is_poisoned"],
     "A shared executor and fresh ones run the same symbolic calls under the same symbolic limit; the solver compares outcome, effects and drops after every call.")
prop("C14", "Expressions evaluate in the documented order with the documented control flow",
     "Operands, arguments, fields and elements are evaluated left to right exactly once, places before the values assigned to them where documented, short-circuit operators evaluate only what they need, loops, breaks with labels and values, returns, matches and closures do what the language reference says, a source failure stops evaluation at that point, and a closure's effects (such as failing) travel through every generic function, trait implementation and iterator adaptor it is passed to.",
     ["programs", "inputs"],
     "Program templates whose every operand logs and may fail or leave, over all values of the conditions, with an independent expected log.",
     "Order shows only through effects and failures; which of several effects is lost or swapped depends on which operand fails or leaves, combinations tests do not enumerate.",
     ["src/desugar", "src/hir", "src/eval.rs", "src/emit_mir.rs", "src/types/trait_solver.rs"],
     [("desugaring", "src/desugar"), ("HIR emission", "src/hir/emit_expr.rs"), ("effects of generic code", "src/hir/emit_functions.rs")],
     ["host functions called by the program, outcome of a run"],
     "Programs carry their own oracle (the expected log computed another way) or are compared between the executors; the solver decides it on every path.")

prop("C15", "Values are independent, and places behave as declared",
     "Binding, passing, capturing, storing or returning a value copies it, so a later change through one name never shows through another; a mutable argument changes exactly the place it was given; a subscript or projection access runs its prologue once and its epilogue exactly once, however the access is left (value, break, continue, return or failure), in reverse order when nested, and means the same whether the receiver's type is known early or late; programs whose mutable accesses overlap are rejected.",
     ["programs", "inputs"],
     "Program templates over aliasing shapes (locals, fields, elements, captures, matches, nested and generic subscripts), for all values, indices and exit conditions.",
     "Aliasing and lost epilogues show only when a copy is elided or an exit is taken at a specific point; tests use a few shapes with fixed values.",
     ["src/hir/borrow_checker.rs", "src/hir/emit_subscripts.rs", "src/hir/elaboration.rs", "src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs"],
     [("borrow checking", "src/hir/borrow_checker.rs"), ("subscript emission", "src/hir/emit_subscripts.rs"), ("value dispatch", "src/hir/value_dispatch.rs"), ("accessor frames", "src/eval.rs"), ("accessor lowering", "src/emit_mir.rs")],
     ["host functions called by the program, outcome of a run, made and dropped values"],
     "Programs carry their own oracle (the expected contents, and counters kept by the accessors) or are compared between the executors; the solver decides it on every path.")

prop("C16", "A function's type says every effect calling it can have",
     "Whatever a function does when called - reading or writing its environment through the host or its captures, or failing - is named by the effects of its inferred type, through closures, higher-order arguments, trait methods, generic functions, iterator adaptors and recursion. A place that requires fewer effects than a function has rejects it. So code checked to be pure never reads, writes or fails, whatever its input.",
     ["programs", "inputs"],
     "Program templates over effectful host functions, failing operations, closures and traits, for all values of their inputs; and programs that pass an effectful function where a purer one is required.",
     "An effect missing from a type shows only on the inputs where the effect happens, and a test looks at the type or at one run, not at both for every input.",
     ["src/types/type_inference/effect_solver.rs", "src/types/type_inference/expr.rs", "src/types/effects.rs", "src/types/trait_solver.rs"],
     [("effect constraint solving", "src/types/type_inference/effect_solver.rs"), ("effects of expressions", "src/types/type_inference/expr.rs"), ("effect rows", "src/types/effects.rs"), ("effects of trait methods", "src/types/trait_solver.rs")],
     ["type of the entry function", "host functions called by the program", "outcome of a run"],
     "The entry's type, as inferred by the real compiler, is compared on every path with the reads, writes and failure the run has.")

prop("C17", "Generic code and trait dispatch compute what the specialised code would, and only well-typed programs run",
     "Calling a generic function, a trait method, an associated constant or an associated type selects the one implementation the static types determine - through nested generic implementations, wrappers, arrays, multi-parameter traits, first-class use and other modules - and computes exactly what code written for those types computes, for values of any size or ownership. A program that mixes types, lacks an implementation, overlaps or orphans one, misses a match case, or reaches a private representation is rejected.",
     ["programs", "inputs"],
     "Generic and trait-dispatching programs across modules with hand-specialised oracles, for all values of their inputs; and ill-typed programs.",
     "Dictionary passing, layouts of open types and field offsets go wrong for particular combinations of types and values; tests instantiate each generic once or twice with fixed values.",
     ["src/types/trait_solver.rs", "src/hir/elaboration.rs", "src/types/type_inference", "src/types/coherence.rs", "src/mir/pass"],
     [("trait solving", "src/types/trait_solver.rs"), ("dictionary passing", "src/hir/elaboration.rs"), ("type inference", "src/types/type_inference"), ("coherence", "src/types/coherence.rs")],
     ["CompilerSession::compile", "outcome of a run"],
     "Programs carry hand-specialised oracles decided by the solver in all executors; rejections are checked on single concrete programs.")

prop("C18", "After any history of module updates the session behaves as a fresh one",
     "Whatever sequence of successful and failing updates and runs a session went through, each module is reported fresh exactly when the last sources compile from scratch, keeps its identity, carries the diagnostics a new compilation gives, and running a fresh module - in the interpreter, as MIR or optimised - computes what a new session given only the last sources computes. No code, layout, constant, implementation or inlined body of an earlier version survives in a dependent module.",
     ["histories", "inputs"],
     "All histories of two or three operations (update of a module to one of its versions, run in an executor) over families of dependent modules, for all inputs of the entry.",
     "Tests replay a few fixed histories; outdated artifacts need a specific order of updates, failures and runs.",
     ["src/compiler/pipeline.rs", "src/compiler/session.rs", "src/compiler/artifacts.rs"],
     [("update and cascade", "src/compiler/pipeline.rs"), ("module entries", "src/compiler/session.rs"), ("executable artifacts", "src/compiler/artifacts.rs")],
     ["CompilerSession::compile", "CompilerSession::update_module_source", "CompilerSession::modules", "outcome of a run"],
     "The history is symbolic (forked choices) and the compiler itself runs inside the symbolic execution; the reference sessions are compiled from scratch.")

prop("C19", "Positions given to an editor are right",
     "Every range an editor is given - a diagnostic, the place of a run-time failure, an inferred-type annotation, a MIR source link - lies in the source on character boundaries, names the construct at fault (or the annotated binding) whatever characters precede it, and is the same place whichever position encoding (Unicode scalar values or UTF-16 code units) the editor asked for; the encoding changes nothing else. A run-time failure in the interpreter is located where it arose; a MIR run that gives a place gives the same one.",
     ["inputs"],
     "All choices of the wide, combining and surrogate-pair characters and symbolic bytes put before, between and after the constructs of each template.",
     "Tests position a few diagnostics in mostly ASCII text; a wrong conversion needs a particular width of character before a particular kind of range.",
     ["src/ide/compiler.rs", "src/ide/execution.rs", "src/ide/annotations.rs", "src/ide/diagnostics.rs", "src/ide/position_index_lookup.rs", "src/eval.rs"],
     [("position conversion", "src/ide/position_index_lookup.rs"), ("diagnostics", "src/ide/compiler.rs"), ("failure location", "src/eval.rs")],
     ["ferlium::Compiler::compile_report", "ferlium::Compiler::get_annotations", "ExecutionResult::error_content", "ferlium::Compiler::mir_text"],
     "Templates carry hand-placed marks as the oracle; positions are converted independently and compared on every explored path.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
        for id, title, statement, over, text, why, files, reason in NA:
            f.write(json.dumps(dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=title, where=files[0])]))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
    for p in P:
        m["checks"].append(dict(
            property=p["id"],
            quick_cmd=f"python3 tools/check.py check {p['id']} quick",
            thorough_cmd=f"python3 tools/check.py check {p['id']} thorough",
            technique="symbolic execution of the compiled implementation's LLVM IR, decided by Z3",
            level="model_checking",
            level_note=p["note"] + " Bounded: holds for every value within the bounds stated in DESIGN.md on the paths explored; assumes rustc's IR, the engine and Z3 are right (counterexamples are replayed natively, passing paths are sampled and cross-checked natively)."))
    for n in NA:
        m["not_applicable"].append(dict(property=n[0], reason=n[7]))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
