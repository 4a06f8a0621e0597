TECH = {
    "C18": ("static analysis: declaration scan and who-may-call query over the resolved program",
            "Decides the whole property as far as it concerns writable static data and process wide C library state; third party libraries are trusted."),
    "C12": ("static analysis: interprocedural may-throw effect fixpoint over every C entry point and every callback handed to C",
            "Decides the whole property; assumes that standard containers throw only where their documentation says so and that destructors do not throw."),
    "C13": ("static analysis: must-hold condition dataflow (guards on every path) for each argument use in each C function",
            "Decides null, type, state and range tests and the order of result writes; results of helper functions are followed through summaries."),
}
TECH["C05"] = ("static analysis: must-hold condition facts at the exit of each verifier function and loop, compared with the operands of the instruction records and the casts of the interpreter",
            "Decides that every operand, reference, handler and export is rejected unless in range and of the required kind; the depth of the value stack (counts of Call and containers) is not bounded by the verifier and not decided.")
TECH["C06"] = ("static analysis: symbolic comparison of reader, writer, formatter, decoder and interpreter operand sequences derived from their control flow graphs",
            "Decides the whole property: field order, width and type of every instruction on every side.")
TECH["C30"] = ("static analysis: per-case control flow graph regions of every switch over an enumeration, pairing of tags and union alternatives, static tabulation of name functions",
            "Decides dispatch, copying, comparison and naming for every enumerator of every closed enumeration of the sources.")
TECH["C15"] = ("static analysis: interprocedural must-event dataflow with argument path substitution over operand visitors, code generator, liveness and register allocation",
            "Decides that every value operand and block target of every kind is reported, emitted at its position and entered into liveness; the colouring algorithm itself is not proved.")
TECH["C16"] = ("static analysis: static evaluation of the side effect predicate for every kind of value, must-event dataflow over the marking and removal loops",
            "Decides which kinds are removable, that all roots and operands are marked and that only unmarked instructions are removed.")
TECH["C08"] = ("static analysis: interval abstract interpretation of the arithmetic instructions and the constant evaluator over a partition of all operands",
            "Decides for every class of operand pairs that the result is exact or an error and that no operation on the way is undefined.")
TECH["C09"] = ("static analysis: interval abstract interpretation of compile time evaluation and run time instruction side by side, comparison of outcome and term per operand class",
            "Decides that whatever is folded also succeeds at run time with the same value, for every operator and class of operands; accuracy of the float library is trusted.")
NOT_APPLICABLE = {
    "N01": "Semantic equivalence of source and optimized code quantifies over run time values of arbitrary programs; no sound static argument over the compiler's source is in reach (structural parts are claimed as C15 and C16).",
    "N02": "Accuracy of float conversion is a numerical result; its truth is not in the shape of the code.",
    "N03": "Agreement of generated tables with the unicode standard is a data comparison, not a property of code paths; the standard's data files needed as oracle are incomplete in this tree.",
    "N04": "The compiler is recursive by design and the bound is the size of the native stack; the property does not hold in general and no static bound on the depth exists.",
    "N05": "Ordering and fairness concern whole run time histories; only the state transition sites are decided statically (C20).",
    "N06": "Agreement with an abstract finite map over all histories is a functional correctness statement over run time contents; the structural necessary conditions are claimed as C11.",
}
TECH["C03"] = ("static analysis: must-happen-before event dataflow and guard facts over release, sweep, shutdown and registration sites of the heap",
            "Decides for every release and sweep site that finalizers precede it, run for exactly the unmarked registered objects and are dropped with their use.")
TECH["C04"] = ("static analysis: interval abstract interpretation of the size computations, guard facts and event dataflow at the exchange of memory with the host",
            "Decides the whole property for the heap's chunks: size coverage, limit test, charge and credit, failure paths.")

TECH["C10"] = ("static analysis: interval abstract interpretation of equal() and hash() over all pairs of value types and partitions of the numbers, with terms; data flow of hashes and keys in the hash table",
               "All pairs of the value types and boundary classes of numbers are decided; between boundaries the argument is by terms. Uniqueness of interned strings is assumed.")
TECH["C26"] = ("inter-procedural must-pass analysis over the control flow graphs of node traversals and semantic passes, against the child fields declared by each node class", "Decides every node class and every override of the semantic passes on all paths; children missing or already marked as erroneous are excused. Code generation from the tree is covered by C30/C33 only as far as dispatch.")
TECH["C33"] = ("path-sensitive abstract interpretation of the semantic checks for every kind of symbol, node, scope and operator", "Decides for every case of the checks whether it accepts or reports; the list of positions that need a value is part of the rule.")
TECH["C14"] = ("path-sensitive abstract interpretation of the compiler stages, the error events of the parser, the literal parsers, the tree builders and the message interface", "Decides on all paths of these functions that errors are reported and that reported errors prevent a module; loops are generalised after one iteration, so a missing report inside the string escape loop is seen only partly.")
TECH["C19"] = ("path-sensitive abstract interpretation of the module registry from every state of its resolution loop", "Modules with two members and all combinations of imports, initialised dependencies and initialiser outcomes; longer member lists follow by the loop's step.")
TECH["C20"] = ("path-sensitive abstract interpretation of the scheduler, tokens and the interpreter's coroutine loop for every coroutine state, plus a whole-program who-may-change rule", "Every state and queue shape of each scheduler operation; a queue longer than three coroutines is covered by the symbolic step of each operation.")
TECH["C32"] = ("path-sensitive abstract interpretation of the interpreter's unwinding and calls, and of the generation of handlers and deferred expressions in the compiler", "Up to three frames, scopes and deferred expressions in every combination; the order in which code is placed inside the interval of a handler follows from the handler of each block.")
TECH["C22"] = ("path-sensitive abstract interpretation of every registered built-in function for each admitted number of arguments and each outcome of its type tests", "Every entry of the registration tables with its declared number of arguments and up to two more; helper functions that receive arguments are followed. Values that are not arguments (closures of built-ins) are not part of this check.")
NOT_APPLICABLE.pop("C22", None)
TECH["C21"] = ("typestate dataflow over every value of type Fallible in the runtime and the C interface", "Every call of every operation that returns Fallible and every stored result on all paths. That a failed operation left its objects unchanged is decided by other properties (C11, C13).")
NOT_APPLICABLE.pop("C21", None)
TECH["C29"] = ("typed syntax queries, ownership flow and path-sensitive abstract interpretation of the holders of the C++ wrapper, over template instantiations of a witness", "Every function of the wrapper headers and one instantiation of each template. The operations of the holders are decided for every state of their operands, including self assignment.")
NOT_APPLICABLE.pop("C29", None)
TECH["C31"] = ("path-sensitive abstract interpretation of the functions that take a cleanup function and of each operation of the object that owns the userdata, plus may-throw effects between the steps", "All paths of these functions, with and without a cleanup function. That a stored owner is finalized exactly once is C03.")
NOT_APPLICABLE.pop("C31", None)
TECH["C11"] = ("abstract interpretation of every operation of the hash table over all valid clusters of up to three live entries and one hole (and larger clusters for insertion and rehashing) in an index of eight slots, checked against a robin hood oracle; capacities, size classes and allocation order on all paths",
               "bounded shapes: clusters of up to five entries in one index width with wrap-around; the probe loops are uniform in the table size, which is assumed and not proved; key equality and hashing are the subject of C10")
NOT_APPLICABLE.pop("C11", None)
