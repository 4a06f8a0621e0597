#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or []}})


p("C01", "The garbage collector visits every reference a live object can hold",
  "When the collector runs, every reference stored in a reachable object, stack frame, root or external handle is visited, so that whatever is still reachable keeps its memory. This holds for every kind of object and every kind of stack frame.",
  ["programs", "histories"], "all object kinds, all frame kinds, every point at which a collection may start",
  "Tests only see a missed reference if a collection happens while that reference is the last one and the memory is then reused; no test can force that for every field of every kind.",
  ["src/vm/object_support/layout.hpp", "src/vm/objects/coroutine_stack.cpp", "src/vm/heap/collector.cpp", "src/vm/root_set.cpp", "src/vm/context.cpp"],
  [("layout tracing", "src/vm/object_support/layout.hpp"), ("frame tracing", "src/vm/objects/coroutine_stack.hpp"),
   ("root tracing", "src/vm/root_set.hpp, src/vm/context.hpp, src/vm/type_system.hpp, src/vm/interpreter.hpp"),
   ("per-type dispatch", "src/vm/object_support/type_desc.hpp, src/vm/objects/value.cpp")])

p("C02", "Runtime code never uses an object that a collection may already have freed",
  "A reference that native runtime code obtains from a fresh allocation is stored in a location known to the collector before the next operation that may allocate. Consequently no object is released while runtime code still works with it.",
  ["programs", "histories"], "every allocation point (each may collect) in every runtime function",
  "The window between two allocations only shows when a collection falls exactly into it; tests run with the default threshold and hit almost none of these windows.",
  ["src/vm"], [("handles and scopes", "src/vm/handles/scope.hpp"), ("allocating constructors", "src/vm/objects")])

p("C03", "Finalizers run exactly once and before their object's memory goes away",
  "A native object's finalizer runs exactly once: when the object is found dead by a collection or when the virtual machine is destroyed, whichever comes first. It runs while the object, its type and its payload are still intact.",
  ["histories"], "all sequences of allocations, collections and shutdown",
  "Tests use a handful of native objects on one page; order of destruction across pages and large objects is never exercised.",
  ["src/vm/heap/heap.cpp", "src/vm/heap/collector.cpp", "src/vm/objects/native.cpp"],
  [("finalizer pass in sweep", "src/vm/heap/heap.cpp"), ("finalizer pass on shutdown", "src/vm/heap/heap.cpp"), ("large object finalizer", "src/vm/heap/heap.cpp")])

p("C04", "Heap usage never exceeds the limit and every chunk is accounted for",
  "Every chunk of memory the heap obtains is charged against the configured maximum before it is obtained, is given back with the same size it was charged with, and a refused or failed request leaves the accounting unchanged. A request too large to represent is refused instead of being truncated.",
  ["histories", "inputs", "fault_sequences"], "all sequences of requests, any request size, any failing allocation",
  "The accounting only drifts after failures or with sizes no test can allocate.",
  ["src/vm/heap/heap.cpp", "src/vm/heap/heap.hpp"], [("raw allocation", "src/vm/heap/heap.cpp"), ("allocation entry", "src/vm/heap/heap.cpp")])

p("C05", "Bytecode operands are verified before the virtual machine relies on them",
  "A module is only loaded after every operand of every instruction and every cross reference between its members has been checked to be in range and of the right kind. An invalid module is rejected with an error and never loaded or executed.",
  ["inputs"], "all module contents, valid or not",
  "Tests hold a few hand-written invalid modules; the property ranges over every operand of every instruction kind.",
  ["src/vm/modules/verify.cpp", "src/vm/modules/load.cpp"], [("module verifier", "src/vm/modules/verify.cpp"), ("loader", "src/vm/modules/load.cpp")])

p("C06", "Emitting and decoding an instruction agree for every opcode",
  "For every opcode, the encoder, the decoder, the verifier, the formatter and the interpreter agree on the number, order, width and kind of its operands, and every opcode is handled by all of them. Decoding never reads past the end of the code and rejects unknown opcodes.",
  ["programs", "inputs"], "all opcodes and operand values",
  "Tests execute the opcodes some scripts happen to produce; rare opcodes and operand positions are not round-tripped.",
  ["src/bytecode/writer.cpp", "src/bytecode/reader.cpp", "src/bytecode/instruction.hpp", "src/bytecode/formatting.cpp", "src/vm/interpreter.cpp"],
  [("encoder", "src/bytecode/writer.cpp"), ("decoder", "src/bytecode/reader.cpp"), ("interpreter operand reads", "src/vm/interpreter.cpp")])

p("C07", "The interpreter never uses a stale coroutine stack after it has grown",
  "When a coroutine's stack is replaced by a larger one, every frame pointer, register address and view into the old stack is re-read before it is used again. Arguments and results therefore always refer to the current stack.",
  ["programs", "histories"], "every call, push or native call that may grow the stack, at every stack depth",
  "Growth happens only at particular depths; a stale pointer usually still reads plausible data because the old stack is not reused immediately.",
  ["src/vm/interpreter.cpp", "src/vm/objects/coroutine_stack.cpp"], [("stack growth", "src/vm/interpreter.cpp"), ("frame refresh", "src/vm/interpreter.cpp")])

p("C08", "Integer arithmetic in scripts never wraps silently or becomes undefined",
  "Addition, subtraction, multiplication, division, remainder, power, negation and numeric conversions on script integers either produce the mathematically exact 64 bit result or raise an error; a shift by a negative or too large amount raises an error. No operand, including the extreme values, leads to wraparound or to an undefined machine operation.",
  ["inputs", "programs"], "all pairs of operand values",
  "2^128 operand pairs; tests sample a few and in particular do not cover all boundary values.",
  ["src/vm/math.cpp", "src/vm/objects/primitives.cpp", "src/compiler/ir_gen/const_eval.cpp"],
  [("checked helpers", "src/common/math.hpp, src/common/safe_int.hpp"), ("runtime operators", "src/vm/math.cpp")])

p("C09", "Constant folding never folds what the runtime rejects and folds to the value of the runtime",
  "For each operator the compile time evaluator guards the same failure conditions as the runtime operator (zero divisor, overflow, invalid shift, negative exponent, wrong operand type). An expression that would raise an error at run time is never folded to a value, a folded result is the value the run time would have produced, and every operator is handled on both sides.",
  ["inputs", "programs"], "all operators and operand kinds",
  "Tests fold a few literals; the two implementations are separate and must agree for every operator.",
  ["src/compiler/ir_gen/const_eval.cpp", "src/vm/math.cpp"], [("compile time operators", "src/compiler/ir_gen/const_eval.cpp"), ("runtime operators", "src/vm/math.cpp")])

p("C10", "Values that compare equal also hash equal",
  "Whenever two script values are equal, their hashes are equal, so that maps and sets treat them as the same key. Every kind of value for which equality is defined by content has a hash that depends on that content only.",
  ["inputs"], "all pairs of values that compare equal",
  "Tests compare a few values of the same kind; equality across kinds (integers and floats, strings and slices) is what breaks the contract.",
  ["src/vm/objects/value.cpp", "src/vm/hash.cpp", "src/vm/objects/string.cpp", "src/vm/objects/hash_table.cpp"],
  [("equality", "src/vm/objects/value.cpp"), ("hashing", "src/vm/objects/value.cpp, src/vm/hash.cpp")])

p("C11", "Hash tables keep their index consistent with their entries",
  "Every insertion, removal, growth and compaction of a map or set keeps the slot index, the entry storage and the element count in step: probing always moves on to the next slot, displaced entries are moved along, and a failed allocation leaves the table as it was. Keys that were inserted and not removed stay reachable.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations and all key sets, including colliding ones",
  "Only keys that collide in particular ways take the displacement paths; tests use few keys with random hashes.",
  ["src/vm/objects/hash_table.cpp"], [("index maintenance", "src/vm/objects/hash_table.cpp")])

p("C12", "No C++ exception ever crosses the C interface",
  "Every function of the C interface returns normally to its caller for every input: internal failures, including exhaustion of memory, are converted into an error object or a default result. No exception propagates out of the library through a C function or through a callback invoked by C code.",
  ["inputs", "fault_sequences"], "all API functions, all inputs, all internal failures",
  "Tests cannot make every internal operation throw.",
  ["src/api"], [("entry point wrapper", "src/api/internal.hpp"), ("C functions", "src/api/*.cpp")])

p("C13", "The C interface validates every argument before acting on it",
  "Every C function checks each handle and pointer argument for null and each value for its required type and range before it is used, and reports a bad argument instead of crashing. When an error is reported, neither the results nor the virtual machine have been changed.",
  ["inputs"], "all functions, all combinations of null and wrongly typed arguments",
  "The test suite probes some functions with some bad arguments; the rule is per argument per function.",
  ["src/api"], [("argument checks", "src/api/*.cpp")])

p("C14", "Source code with errors never yields a module",
  "If any stage of the compiler reports an error, compilation fails, no module is handed out and the error is visible in the diagnostics. Conversely later stages only run on input for which the earlier stages reported no error that they rely on.",
  ["inputs", "programs"], "all source texts and all kinds of errors",
  "Tests check a few errors per stage; the gating must hold for each of them.",
  ["src/compiler/compiler.cpp", "src/compiler/diagnostics.cpp", "src/compiler/ir_gen", "src/compiler/semantics"],
  [("stage gating", "src/compiler/compiler.cpp"), ("diagnostics", "src/compiler/diagnostics.cpp")])

p("C15", "Compiler passes account for every operand of every instruction",
  "The operand enumeration used by liveness analysis, register allocation and dead code elimination reports every value an instruction or terminator reads and writes. The code generator consumes exactly those operands, for every kind of instruction.",
  ["programs"], "all instruction kinds, all operand positions",
  "A missing operand only shows when that operand's register happens to be reused, which depends on the program.",
  ["src/compiler/ir_passes/visit.cpp", "src/compiler/bytecode_gen/func.cpp", "src/compiler/ir"],
  [("operand visitors", "src/compiler/ir_passes/visit.cpp"), ("code generator", "src/compiler/bytecode_gen/func.cpp")])

p("C16", "Optimization never removes an instruction with an observable effect",
  "Dead code elimination removes an instruction only if its kind can neither write memory, call code, publish an assignment nor raise an error. Every use of a value keeps its definition alive.",
  ["programs"], "all instruction kinds in all positions",
  "Tests only contain a few unused expressions; the classification ranges over all kinds.",
  ["src/compiler/ir_passes/dead_code_elimination.cpp"], [("effect classification", "src/compiler/ir_passes/dead_code_elimination.cpp")])

p("C17", "Compiling the same source twice gives the same module",
  "The generated module depends on the source text and options only. In particular it does not depend on addresses, on the iteration order of unordered containers, on time or on random numbers.",
  ["programs", "configurations"], "all programs, all process layouts",
  "One process run sees one iteration order; differences only show across runs.",
  ["src/compiler", "src/bytecode"], [("code generation order", "src/compiler/bytecode_gen"), ("passes", "src/compiler/ir_passes")])

p("C18", "Virtual machines and compilers are isolated from each other",
  "Two virtual machines or compilers in one process share no mutable state, so that what happens in one cannot influence the other, even from different threads. The library keeps no writable data outside of the objects it hands out.",
  ["schedules", "histories"], "all interleavings of operations on different instances",
  "Tests use one instance at a time on one thread.",
  ["src", "include"], [("absence of writable globals", "src")])

p("C19", "Modules are initialized once, after their dependencies, or not at all",
  "A module's initializer runs only after all modules it imports have been initialized successfully, and is not run again once it has succeeded, however often and in whatever order resolution is attempted and retried after failures. Import cycles are reported, and a module whose initialization failed is never marked as initialized or handed out.",
  ["histories", "programs"], "all import graphs, all failure positions, repeated attempts",
  "Tests cover one import chain and one cycle; retry after failure is not covered.",
  ["src/vm/modules/registry.cpp"], [("module resolution", "src/vm/modules/registry.cpp")])

p("C20", "Coroutines follow their life cycle and are resumed at most once per wait",
  "A coroutine only moves along its life cycle (new, started, ready, running, waiting, done), starts once, is put into the run queue only when it is runnable, and never leaves the final state. A wake-up token works at most once, and the completion callback is called exactly once.",
  ["histories", "schedules"], "all sequences of start, yield, resume and completion",
  "Tests cover straightforward sequences only; the rule concerns each transition site.",
  ["src/vm/interpreter.cpp", "src/vm/objects/coroutine.cpp", "src/vm/context.cpp"],
  [("state changes", "src/vm/interpreter.cpp, src/vm/context.cpp"), ("tokens", "src/vm/objects/coroutine.cpp")])

p("C21", "Failures inside the runtime are never silently dropped",
  "When a runtime operation can fail with a script-visible error, its caller always checks for that error before using the result, and passes the error on or handles it. A failed operation is never treated as if it had succeeded.",
  ["inputs", "programs", "fault_sequences"], "every call of a fallible operation",
  "Each call site needs its own failing input.",
  ["src/vm"], [("fallible results", "src/vm/fallible.hpp, src/vm/error_utils.hpp")])

p("C22", "Built-in functions only touch arguments that exist and have the right type",
  "A built-in function or method accesses only arguments within its declared or checked argument count, and converts an argument to a specific type only after checking that type. Any mismatch is reported as an error to the script.",
  ["inputs"], "all built-in functions with all argument lists",
  "Tests call the built-ins with valid arguments.",
  ["src/vm/builtins", "src/vm/objects"], [("registration tables", "src/vm/builtins/std.cpp, src/vm/objects/*.cpp"), ("argument casts", "src/vm/objects/*.cpp")])

p("C23", "Element access from scripts and the C interface is bounds checked",
  "Every index that originates from a script, a bytecode operand without static verification or an embedding program is compared with the size of the container before the element is read or written. An index out of range yields an error and no access.",
  ["inputs", "programs"], "all containers and all indices, including negative and huge ones",
  "Each access site needs its own out of range input.",
  ["src/vm/objects", "src/vm/interpreter.cpp", "src/api/objects.cpp", "src/vm/type_system.cpp"],
  [("checked accessors", "src/vm/objects"), ("index loads and stores", "src/vm/type_system.cpp")])

p("C24", "The lexer and literal parsers never read past the end of their input",
  "For every source text, however it is truncated, reading the current character is preceded by a test that there is one. Source text is validated to be well-formed unicode before it is decoded.",
  ["inputs"], "all source texts, in particular all prefixes of valid programs",
  "Tests use complete programs.",
  ["src/compiler/syntax/lexer.cpp", "src/compiler/syntax/grammar/literals.cpp", "src/common/text/code_point_range.hpp", "src/compiler/compiler.cpp"],
  [("character cursor", "src/common/text/code_point_range.hpp"), ("lexer", "src/compiler/syntax/lexer.cpp")])

p("C25", "Parsing terminates and builds a balanced tree for every input",
  "Every loop of the parser either consumes input or ends, and every syntax node that is opened is closed or dropped on each path. Any token sequence therefore produces a syntax tree and diagnostics instead of a hang or a malformed tree.",
  ["inputs"], "all token sequences",
  "Malformed inputs are unbounded; tests try a few.",
  ["src/compiler/syntax"], [("grammar rules", "src/compiler/syntax/grammar"), ("event stream", "src/compiler/syntax/parser.cpp")])

p("C26", "Syntax tree traversals reach every child of every node",
  "The generic read-only and rewriting traversals of the syntax tree visit every child of every node kind, in the same order. Checks and code generation based on them therefore see the whole program.",
  ["programs"], "all node kinds and all children",
  "A skipped child is only visible if a test places relevant code exactly there.",
  ["src/compiler/ast"], [("traversals", "src/compiler/ast")])

p("C27", "Sizes and indices are never silently truncated in generated code",
  "When the compiler or encoder stores a count, offset or index in a narrower field, the value is known or checked to fit; otherwise an error is reported. The generated code never refers to a truncated index.",
  ["inputs", "programs"], "all program sizes",
  "Overflowing a 32 bit field needs programs of unrealistic size for tests.",
  ["src/compiler/bytecode_gen", "src/bytecode", "src/compiler/ir", "src/vm/objects"], [("checked casts", "src/common/safe_int.hpp")])

p("C28", "Handles keep values alive exactly as long as they exist",
  "Each global or local handle created through the interface is registered as a root until it is freed or its scope ends, and freeing one handle never invalidates another. Scopes nest: leaving a scope releases exactly the roots created in it, on every exit path.",
  ["histories"], "all sequences of creating, copying and freeing handles and scopes",
  "Tests follow well-behaved sequences.",
  ["src/vm/handles", "src/api/objects.cpp"], [("root stack", "src/vm/handles/scope.hpp"), ("external storage", "src/vm/handles/external.hpp")])

p("C29", "The C++ wrapper checks every C call and owns every resource once",
  "Each wrapper operation turns a failure of the underlying C function into an exception and never drops it. Each resource obtained from the C interface is owned by exactly one wrapper object and freed exactly once.",
  ["inputs", "fault_sequences"], "every wrapper operation and every failure",
  "Tests let few of the wrapped functions fail.",
  ["include/tiropp"], [("error adapter", "include/tiropp/error.hpp"), ("resource holder", "include/tiropp/detail")])

p("C30", "Every variant of a tagged value is dispatched to its own handler",
  "Copying, moving, destroying, comparing, formatting and visiting a tagged value act on the alternative that its tag names, for every alternative; every enumerator has its own name and handler. No switch over the kinds of a closed enumeration silently ignores one.",
  ["inputs", "programs"], "all tagged types, all alternatives, all enumerations",
  "There are dozens of tagged types with many alternatives; tests build a few of them.",
  ["src/compiler/ir", "src/bytecode", "src/compiler/ast", "src/vm/object_support", "src/vm/objects"],
  [("tagged unions", "src/compiler/ir/value.cpp, src/bytecode/instruction.cpp"), ("enum switches", "src")])

p("C31", "Userdata handed to the virtual machine is released exactly once",
  "When an embedding program passes userdata together with a cleanup function, the cleanup function is called exactly once, whether the call succeeds, fails because of its arguments or fails later, and never through a null pointer.",
  ["fault_sequences", "histories"], "all API functions with cleanup callbacks, all failure points",
  "Tests only take the success path and one failure path.",
  ["src/api/functions.cpp", "src/api/vm.cpp", "src/vm/context.cpp"], [("ownership transfer", "src/api")])

p("C32", "Script panics unwind to the nearest handler and keep their cause",
  "An error raised while executing a function transfers control to the innermost enclosing handler of that function, or removes the frame and continues in the caller; deferred cleanup runs and only the outermost frame ends the coroutine with the error as its result. A frame is removed exactly once on each path.",
  ["programs", "histories"], "all raising instructions at all call depths and all handler layouts",
  "Tests exercise a few nestings.",
  ["src/vm/interpreter.cpp", "src/compiler/ir_gen"], [("unwinding", "src/vm/interpreter.cpp"), ("handlers and deferred expressions", "src/compiler/ir_gen/func.cpp, src/compiler/ir_gen/compile_stmt.cpp")])

p("C33", "A diagnosed language rule is enforced at every place it applies",
  "Constants and other immutable bindings are never assigned, control flow statements appear only where they are legal, names are resolved before use, and every place where the language allows an assignment target or jump applies these checks. Violations are reported as errors.",
  ["programs"], "all placements of assignments, jumps and names",
  "Tests check some placements.",
  ["src/compiler/semantics"], [("semantic checks", "src/compiler/semantics")])

# ---- properties this technique does not decide -------------------------------------------------------------------
p("N01", "Optimized programs compute the same results as the source prescribes",
  "For every program, the executed bytecode yields the values, side effects and evaluation order that the language prescribes. Optimization passes, register allocation and parallel copies never change them.",
  ["programs"], "all programs", "Programs are unbounded; tests hold a few hundred snippets.",
  ["src/compiler/ir_gen", "src/compiler/ir_passes", "src/compiler/bytecode_gen"], [("translation", "src/compiler")])
p("N02", "Float parsing and formatting are accurate",
  "Reading a float literal yields the closest representable number and printing a number yields text that reads back as the same number.",
  ["inputs"], "all literals and all floats", "The input space is infinite.",
  ["src/compiler/syntax/grammar/literals.cpp", "src/vm/objects/string.cpp"], [("number parsing", "src/compiler/syntax/grammar/literals.cpp")])
p("N03", "Unicode classification follows the standard",
  "Identifier and whitespace classification of every code point follows the unicode tables.",
  ["inputs"], "all code points", "Tests probe a few code points.",
  ["src/common/text/unicode.cpp", "src/common/text/unicode_data.cpp"], [("tables", "src/common/text/unicode_data.cpp")])
p("N04", "Deeply nested source code is handled without exhausting the native stack",
  "Source text of any nesting depth is either compiled or rejected with a diagnostic.",
  ["inputs"], "all nesting depths", "The depth at which the native stack ends depends on the platform.",
  ["src/compiler"], [("recursive descent", "src/compiler/syntax/grammar")])
p("N05", "Ready coroutines run in first-in first-out order and none is starved",
  "Coroutines that become ready are executed in the order in which they became ready and every one of them eventually runs.",
  ["histories", "schedules"], "all histories", "Ordering concerns whole histories.",
  ["src/vm/context.cpp"], [("ready queue", "src/vm/context.cpp")])
p("N06", "Maps and sets iterate in insertion order and implement a finite map",
  "After any history of operations, lookup, size and iteration agree with a finite map in insertion order.",
  ["histories"], "all histories", "Histories are unbounded.",
  ["src/vm/objects/hash_table.cpp"], [("entry order", "src/vm/objects/hash_table.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
