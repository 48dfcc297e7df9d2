p("R01", "Native line input is framed exactly, however the bytes arrive",
  "A native program reading standard input line by line receives exactly the lines of the byte stream, in order, each once, with its LF or CRLF terminator removed and nothing else changed; a last line without terminator is delivered, and end of input is reported only when no byte is left. "
  "A line that is not valid UTF-8 is reported as an encoding failure and consumes exactly that line. "
  "This holds however the operating system splits the bytes into reads, however many reads are interrupted by signals, and however long the lines are.",
  ["inputs", "schedules", "fault_sequences"], "every byte stream, every split of it into reads, every placement of interrupted reads, every position relative to the internal buffer",
  "The unit tests feed a handful of one-byte-at-a-time scripts into an internal closure; the real read path, its buffer refills and their interaction with interruptions are never executed.",
  [RT, "crates/tribute-passes/src/native/io.rs"], [("line framing loop", RT + " read_line_with"), ("per-thread refill buffer", RT + " StdinBuffer")], ["descriptor returned by the read-line entry point"], False)
p("R02", "A failed read is reported once, faithfully, and input continues after it",
  "When the operating system fails a read of standard input with an error other than an interruption, the line read in progress returns a system failure carrying exactly that error code and a non-empty message, and performs no further read in that call. "
  "A failure loses at most the bytes of the line in progress: every later line that arrives complete is delivered unchanged by the following calls. "
  "An interruption is never reported to the program.",
  ["fault_sequences", "histories"], "every sequence of read errors, interruptions, partial reads and ends of input around every line boundary",
  "Tests inject one error into an internal closure; no test continues reading after a failure or fails the real system call.",
  [RT], [("errno classification and error descriptor", RT + " __tribute_io_read_line / read_line_with")], ["descriptor returned by the read-line entry point"], False)
p("R03", "Native output reaches standard output exactly once, in order",
  "Every print operation of a native program delivers all its bytes to standard output exactly once and in program order, although the operating system may accept only part of a write or interrupt it any number of times. "
  "If standard output fails for good (an error or no progress), the operation terminates without looping and what was delivered for it contains no duplicated, reordered or invented bytes. "
  "Operations after a transient failure deliver their bytes normally.",
  ["fault_sequences", "histories"], "every sequence of print operations of every kind and every sequence of short writes, interruptions, zero-progress writes and errors",
  "Tests drive the internal retry loop with three scripted results; no print entry point is executed against a short or failing write.",
  [RT], [("retry loop", RT + " write_all_with"), ("print entry points", RT + " __tribute_print_* / __tribute_io_write / __tribute_bytes_print")], ["bytes accepted by the write system call"], False)
p("R04", "Per-thread runtime state is initialised once and never shared or lost",
  "Whatever the interleaving of threads that initialise and use the native runtime, initialisation happens once, every caller returns with a usable runtime, and no thread waits forever. "
  "Within one thread no two handler tags are ever equal, and no thread's tags or buffered input are affected by another thread. "
  "When a thread ends, its state is released exactly once.",
  ["schedules", "fault_sequences"], "every interleaving at every basic block and memory access of the runtime, any number of threads, any thread start/exit order, failures of thread-local storage calls",
  "Tests run on whatever schedule the OS picks; the initialisation race window is a few instructions wide.",
  [TLS, RT], [("one-time key creation with spin wait", TLS + " tls_init"), ("lazy per-thread state", TLS + " thread_state"), ("release at thread exit", TLS + " destroy_thread_state")], ["return values of the tag generator and of line reads per thread"], False)
p("R05", "Handler evidence is persistent and the innermost handler wins",
  "After any sequence of handler installations, looking up an ability through an evidence value yields exactly the most recently installed handler for that ability on the path that built that value, with all of its fields. "
  "Installing a handler never changes what any previously obtained evidence value answers, even while other threads extend or query the same value.",
  ["histories", "schedules"], "every tree of extensions over every set of ability identities (including negative and extreme ones), every interleaving of readers and extenders",
  "Tests install at most a few handlers in one order on one thread and never re-query old evidence after crossing the inline-storage limit.",
  [RT], [("sorted persistent marker array", RT + " Evidence::extend / Evidence::lookup"), ("lookup entry points", RT + " __tribute_evidence_lookup*")], ["lookup results"], False)
p("R06", "Running out of memory stops the program cleanly at any allocation",
  "If memory cannot be obtained for any allocation made by the native runtime or by a compiled program, the process aborts at that allocation: it never continues with a null, overlapping, undersized or misaligned block, and never returns a partial value. "
  "Everything printed before is a prefix of what the program would have printed with enough memory. "
  "Blocks handed out are aligned, disjoint from all live blocks, fully usable and released exactly once to the system.",
  ["crash_points", "fault_sequences", "histories"], "failure injected at every allocation index of every workload, in normal and sanitizer mode",
  "No test fails an allocation; the failing path of each call site is never executed.",
  [RT, ASAN, TLS], [("allocation entry points", RT + " __tribute_alloc / __tribute_dealloc"), ("abort on exhaustion", RT + " oom_abort")], ["process outcome, stdout prefix, allocator call history"], False)
p("R07", "Sanitizer mode catches corrupting writes and never raises a false alarm",
  "In sanitizer mode a stray write to any byte within 32 bytes before or after a heap block, to any value different from the one it held, is reported on standard error and aborts the program when that block is released. "
  "Programs that stay within their blocks are never reported and see ordinary allocation behaviour. "
  "A released block is overwritten and kept from reuse until later releases push the total of blocks held back over one mebibyte; then the oldest blocks leave first, and never more than one mebibyte is held back.",
  ["fault_sequences", "histories"], "every history of allocations and releases, every corrupted byte position and value, every block size and release order",
  "Tests corrupt one or two fixed offsets of one size; the quarantine accounting is checked for one short history.",
  [ASAN], [("red zones and check at release", ASAN + " alloc / dealloc / check_redzone"), ("quarantine", ASAN + " quarantine_push")], ["stderr, abort, memory contents, allocator call history"], False)
p("R08", "Byte-string values keep their contents and owners through any history",
  "After any history of concatenating, slicing, comparing and measuring native byte strings, every value holds exactly the bytes the operations define, independent of what happens to the values it was made from as long as ownership rules are respected. "
  "A slice keeps the storage it shares alive, an out-of-range slice aborts instead of exposing other memory, and operands are never modified. "
  "Every block an operation allocates is reachable from its result, so no operation leaks.",
  ["histories", "fault_sequences"], "every operation history over a pool of shared values incl. empty and aliasing operands, extreme lengths and ranges, failing allocations, concurrent readers",
  "Tests apply single operations to fresh operands; no test chains slices of concatenations or releases operands while a slice lives.",
  [RT, "crates/tribute-rc/src/lib.rs"], [("byte-string operations", RT + " __tribute_bytes_*"), ("reference-count header", "crates/tribute-rc/src/lib.rs RcBox")], ["contents, reference counts, allocator history"], False)
PIPE = "src/pipeline.rs"
FRONT = "crates/tribute-front/src"
PASSES = "crates/tribute-passes/src"
NAT = "crates/tribute-passes/src/native"
p("N01", "A native executable behaves as its source program says, in any environment",
  "For every well-typed program the compiler accepts, the native build prints exactly the output, consumes exactly the input lines and ends the way (normally, or by the panic) that the source text defines under call-by-value, left-to-right evaluation with the documented pattern-matching and arithmetic rules. "
  "This stays true whatever the operating system does around it: short or interrupted reads and writes, read errors between lines, a standard output that fails for good (what was written before is then a prefix), or memory running out (the program then aborts and its output is a prefix). "
  "A well-typed program is compiled, not refused and not met with an internal compiler failure.",
  ["programs", "inputs", "fault_sequences"], "every well-typed program (records, enums, tuples, lists, closures, generics, recursion, pattern matching, strings, bytes, numbers, standard-library calls, input and output), every input text and every environment behaviour",
  "The end-to-end tests need a linker and a real process, so in the reliable suite compiled code is never executed; the rest compare intermediate texts of a few fixed programs.",
  [PIPE, FRONT, PASSES, "crates/trunk-ir-cranelift-backend/src", "lib/std/prelude.trb"],
  [("name and type resolution decide what is called", FRONT + "/tdnr, typeck"), ("lowering of expressions, patterns and closures", FRONT + "/ast_to_ir"), ("shared and native passes", PASSES + ", " + NAT), ("standard library in the language itself", "lib/std/prelude.trb")],
  ["bytes delivered to standard output, lines consumed, way of ending"], False)
p("N02", "Effect handlers run operations and resumptions as the language defines",
  "An operation performed anywhere in a computation runs the arm of the innermost enclosing handler of its ability with the operation's arguments; resuming continues the computation right after the operation with the given value, an arm that does not resume abandons it, and the handler's completion clause sees the computation's final value exactly once. "
  "Everything between the operation and the handler (other handlers, pending calls, effect-polymorphic functions, closures) is preserved across the resumption, and each output and input happens exactly once and in that order, also when standard output fails in between. "
  "Operations reaching no longer active handlers, or handlers of other abilities, never happen.",
  ["programs", "histories", "fault_sequences"], "every nesting of handlers and abilities (with and without parameters, function-like and resumable operations), every sequence of performs, resumptions and aborts, through calls, closures and recursion",
  "Existing tests inspect the shape of the intermediate code for single handlers; no nested, recursive or re-handled computation is executed in the reliable suite.",
  [FRONT + "/ast_to_ir/lower/handle.rs", FRONT + "/ast_to_ir/lower/control.rs", PASSES, "crates/tribute-runtime/src/lib.rs"],
  [("handler and resumption lowering", FRONT + "/ast_to_ir/lower/handle.rs, control.rs"), ("evidence passing", PASSES + "/evidence*, resolve_evidence*"), ("operation dispatch", PASSES + "/native, crates/tribute-runtime/src/lib.rs")],
  ["order and contents of output, results"], False)
p("N03", "Compiled programs never touch memory they do not own",
  "While a native program built from a well-typed source runs, every read and write stays inside a block that is currently allocated, no block is released twice or while it is still needed, and every block is released with the size it was allocated with. "
  "If any allocation fails, the program stops at that allocation: it never continues with a null or partial object, and what it printed before is a prefix of its normal output.",
  ["programs", "crash_points", "fault_sequences"], "every well-typed program and every allocation index at which memory can run out",
  "Reference-count insertion and its optimisations are tested on hand-written intermediate code by comparing text; no compiled program runs under a memory checker or with failing allocations.",
  [NAT, "crates/tribute-rc/src/lib.rs", "crates/tribute-runtime/src/lib.rs"],
  [("retain and release insertion and optimisation", NAT + " rc insertion, paired elimination, borrowed parameters, temporary borrows"), ("object layout and release functions", NAT + " adt layout, rtti, release glue"), ("allocation", "crates/tribute-runtime/src/lib.rs")],
  ["memory accesses of the compiled code, allocator call history, process outcome"], False)
p("N05", "Optimisation and sanitizer settings never change what a program does",
  "For every well-typed program, the builds with all, some or none of the optimisations, and with or without the address-sanitizer mode, all print the same output for the same input, end the same way, and are all correct. "
  "Optimised builds release what unoptimised builds release: they do not leave a growing number of objects behind. "
  "The sanitizer build reports nothing for such a program.",
  ["programs", "configurations", "inputs"], "every well-typed program under every combination of the optimisation switches and the sanitizer switch",
  "Tests compare intermediate texts of a few fixed functions before and after each optimisation; the combinations are not executed.",
  [PIPE, NAT], [("optimisation switches", PIPE + " OptimizationOptions"), ("reference-count optimisations", NAT), ("continuation sharing", FRONT + "/ast_to_ir AstToIrOptions")],
  ["output, way of ending, objects left at the end per configuration"], False)
p("C03", "Compiling the same source gives the same result, byte for byte",
  "For every source text, well-typed or not, and every target and option set, the compiler produces byte for byte the same native object or WebAssembly module, or the same diagnostics in the same order, every time it is run. "
  "The result does not depend on hash seeds, on memory layout, on the order in which names were first seen, on what the same process compiled before, or on whether earlier compilations failed.",
  ["programs", "histories", "configurations"], "every source text (also ill-typed and ill-formed ones), every target and option set, every hash seed, memory layout, interning order and history of earlier compilations in the process",
  "Tests compile each text once in one process with one hash seed; a result that depends on iteration order passes them.",
  [PIPE, FRONT, PASSES, "crates/trunk-ir/src", "crates/trunk-ir-cranelift-backend/src", "crates/trunk-ir-wasm-backend/src"],
  [("symbols ordered and hashed by content", "crates/trunk-ir/src/symbol.rs"), ("passes over whole modules", PASSES), ("numbering of functions, types and data in the artefact", "crates/trunk-ir-cranelift-backend/src, crates/trunk-ir-wasm-backend/src"), ("order of diagnostics", PIPE + " compare_diagnostics")],
  ["bytes of the artefact, text and order of diagnostics"], False)
p("C06", "After any edits the compiler answers as if started afresh",
  "In a session that keeps its caches between requests (editor or watch use), after any sequence of edits, undos, requests for diagnostics or artefacts, and requests abandoned or torn down midway, the answer for the current text is exactly the one a fresh compiler gives for it: the same artefact bytes, the same diagnostics. "
  "A torn-down request never leaves behind a state that changes or prevents a later answer.",
  ["histories", "fault_sequences", "crash_points"], "every sequence of texts (well-typed, ill-typed, ill-formed), requests between edits, and points at which a request is torn down",
  "Tests build a fresh database for each text; edit histories and abandoned requests are not exercised.",
  [PIPE, FRONT + "/query.rs", FRONT + "/source_file.rs"], [("tracked queries", PIPE + ", " + FRONT + "/query.rs"), ("source input with text and tree", FRONT + " SourceCst")],
  ["artefact bytes and diagnostics after a history, against those of a fresh start"], False)
TIR = "crates/trunk-ir/src"
p("C01", "Names and IR built on several threads at once mean the same on all of them",
  "However threads interleave while they create, look up, compare, hash and print interned names, equal texts always give equal names with equal hashes, different texts different names, and every name prints exactly the text it was made from, on every thread and for the life of the process. "
  "Block identities handed out concurrently are never handed out twice, and modules parsed, transformed and printed on different threads come out exactly as they would alone. "
  "No interleaving deadlocks or panics.",
  ["schedules", "histories"], "every interleaving of 2..5 threads at basic-block and memory-access granularity, including names resolved while a name is being resolved",
  "The tests intern names from one thread; a race between a lookup and an insertion needs a particular preemption.",
  [TIR + "/symbol.rs", TIR + "/refs.rs", TIR + "/parser", TIR + "/printer.rs"], [("global interner", TIR + "/symbol.rs"), ("block identities", TIR + "/location.rs, refs.rs"), ("lazily built registries", TIR + "/op_interface.rs")],
  ["texts, equality, hashes and ordering of names; printed modules"], False)
p("C04", "Every list in the IR agrees with every other after any history of edits",
  "After any sequence of creating, cloning, moving, detaching and erasing operations, blocks and regions, and of changing operands, uses, arguments and types, each value's use list holds exactly the operand positions that refer to it, every operation, block and region names the parent that lists it and the other way round, and results, arguments and types are the ones last given. "
  "A clone is equal to its original with its own identities, and refers to the mapped values; equal types have one identity. "
  "A call that would break this (attaching twice, erasing something in use) is refused, and the IR is then as it was before the call.",
  ["histories", "fault_sequences"], "every edit history over nested regions, repeated operands, self-references and pre-mapped clones, with refused calls in between",
  "Tests apply each edit once to a small fresh function; agreement after a long mixed history is not examined.",
  [TIR + "/context.rs", TIR + "/ir_mapping.rs", TIR + "/types.rs"], [("edits and use chains", TIR + "/context.rs"), ("cloning", TIR + "/ir_mapping.rs, context.rs"), ("type identity", TIR + "/types.rs")],
  ["operands, uses, parents, results, arguments and types after every step against a model"], False)
p("C05", "Passes run in order on every present target and stop at the first failure",
  "For every tree of pass managers and every module, each registered pass runs exactly once, in registration order, on each target that was there when its manager started and has not been erased or turned into something else since, nested managers after their parent's passes; hooks and verifiers see every completed pass, the nearest installed one winning. "
  "The first failing pass or verifier ends the run with an error that names that pass and carries its cause, nothing runs after it, and the manager and the IR stay usable for another run.",
  ["histories", "fault_sequences"], "every manager tree and module tree, every sequence of passes erasing, retagging or adding targets (their own or others), every point at which a pass or verifier fails, repeated runs",
  "Tests use one or two managers and passes that do at most one thing; erasure of a target still waiting in an outer or sibling manager is not exercised.",
  [TIR + "/pass.rs", TIR + "/walk.rs"], [("dispatch and failure", TIR + "/pass.rs PassManager"), ("target search", TIR + "/walk.rs")],
  ["order of pass, hook and verifier calls; error; module afterwards"], False)
WB = "crates/trunk-ir-wasm-backend/src"
p("W01", "WebAssembly programs compute the same and deliver their output whole",
  "A program made of functions, recursion, naturals, integers, booleans, strings and enums that is compiled for WebAssembly yields a module every engine accepts and prints exactly the bytes the program's meaning prescribes, in order and exactly once, however the host splits or interrupts its writes and however long a line is. "
  "When the host refuses further output or further memory, what was delivered until then is a prefix of that output, and the program ends (with a trap if memory is refused) and never writes outside its memory or hangs.",
  ["inputs", "histories", "fault_sequences"], "every such program, every sequence of complete, short, interrupted, refused and stalled host writes, every output length and memory limit",
  "Tests inspect the module text or run one program on a host that accepts every write at once.",
  [WB, "crates/tribute-passes/src/wasm"], [("write loop and memory growth", "crates/tribute-passes/src/wasm/io.rs"), ("lowering", WB + "/passes"), ("emission", WB + "/emit.rs, emit/")],
  ["bytes accepted by the host, order, end of the program"], False)
p("C02", "Optimising and lowering passes keep a program's meaning, in any order",
  "For every valid IR module of functions with arithmetic, structured and unstructured control flow, direct, indirect and recursive calls, any sequence of the canonicalisation, dead-code, dead-function, inlining and control-flow lowering passes, whole-module or per function, leaves valid IR that lowers to native code making exactly the same host calls with the same arguments in the same order and returning the same value as the original; host calls already made when the process is killed are a prefix of these. "
  "Stopping the compiler between any two passes and restarting it from the printed IR changes nothing, and printing what was read back gives the same text.",
  ["inputs", "histories", "crash_points"], "every module of the stated operations, every order, repetition and configuration of the passes, every point between passes at which the compiler stops and restarts from text",
  "Each pass is tested on small hand-written functions and by comparing IR text; orders of passes, their interaction and the behaviour of the emitted code are not.",
  [TIR + "/transforms", TIR + "/rewrite", TIR + "/conversion", "crates/trunk-ir-cranelift-backend/src"],
  [("passes", TIR + "/transforms"), ("rewriting and conversion", TIR + "/rewrite, conversion"), ("native lowering", "crates/trunk-ir-cranelift-backend/src/passes, function.rs"), ("text form", TIR + "/printer.rs, parser")],
  ["host calls with arguments in order, returned value, validity of the IR, printed text"], False)
p("W02", "IR lowered to WebAssembly computes what the IR says",
  "For every valid IR module of functions with integer and floating-point arithmetic, conversions, structured conditionals and direct, indirect, recursive and tail calls, the WebAssembly lowering and emission yield a module that engines accept and that makes exactly the host calls, in order and with the arguments, and returns the value the IR prescribes, with or without any sequence of optimising passes before it and with the compiler restarted from printed IR between them. "
  "When the host ends the program at a call, the calls made until then are a prefix of these.",
  ["inputs", "histories", "crash_points"], "every module of the stated operations, every order of the passes before the lowering, every restart from text, every host call at which the program is ended",
  "Tests compare the text of lowered IR or validate one module; no test executes arithmetic, conversions or indirect calls of the WebAssembly target.",
  [WB, "crates/tribute-passes/src/wasm"], [("lowering", WB + "/passes"), ("emission", WB + "/emit.rs, emit/")],
  ["host calls with arguments in order, returned value, acceptance by the engine"], False)
p("C07", "IR written as text is read back as the same IR; torn text is refused",
  "Every module, whatever its types, attributes (numbers of any size, non-finite floats, strings, bytes and symbols of any content, nested lists), nested modules, functions, lambdas, regions, blocks and successors, is written as text that a compiler started afresh accepts and reads back as the same module, and reading and writing again settles on text that no longer changes; the text does not depend on what the writing process did before. "
  "Text cut short after the module was opened is always refused, and text damaged in any other way is refused or read, never a crash or a hang.",
  ["inputs", "histories", "crash_points"], "every module whose values are defined before they are used in textual order and whose functions lie directly in modules; every point at which the text is torn, every lost, doubled, swapped or overwritten part",
  "Tests write and read back a dozen hand-made modules; combinations of types, names, attributes and layout, and damaged text, are not covered.",
  [TIR + "/printer.rs", TIR + "/parser", "crates/tribute-ir/src/dialect/closure.rs", "crates/tribute-ir/src/dialect/tribute_control.rs"],
  [("writing", TIR + "/printer.rs"), ("reading", TIR + "/parser/raw.rs, builder.rs"), ("own formats", TIR + "/dialect/func.rs; crates/tribute-ir/src/dialect closure.rs, tribute_control.rs")],
  ["structure of the module read back, text, acceptance"], False)
p("C08", "The IR verifier reports damaged IR wherever it is, and never sound IR",
  "For every module and every history of edits and damage, the verifier reports each operand that refers to a value not visible at its place (naming function, operation and position), some error whenever a use list and the operands disagree, and every comparison, conditional, loop, switch or indirect tail call whose own contract is broken; calls passing a number of arguments other than their callee declares are each warned about. "
  "It reports nothing where none of these is the case, sees damage at any nesting depth, in nested modules and in any block, and never crashes on damaged IR.",
  ["inputs", "histories", "fault_sequences"], "every module of functions, nested modules, structured control flow and calls; every sequence of lost, moved or foreign operations, blocks, regions and values, use lists out of step, missing or wrong attributes, wrong numbers of operands, results, blocks and regions",
  "Tests present the verifier with one hand-made error at the top of one function; several errors at once, depth, other blocks and the absence of false reports are not examined.",
  [TIR + "/validation.rs", TIR + "/walk.rs"], [("values, use lists, operations, calls", TIR + "/validation.rs")],
  ["errors and warnings reported after every step against an independent reading of the contract"], False)
p("C09", "Rewriting does what patterns and target say; boundaries let nothing through",
  "For every module, list of patterns and legality target, rewriting leaves exactly the module that applying, in each round, the first matching pattern to each operation present at its start and not legal yields, with every use of a replaced result redirected, types of arguments and operands converted once where asked for, nothing inside recursively legal operations or outside the chosen function touched, and rounds ending when nothing changes or the limit is reached, which is reported. "
  "A conversion boundary succeeds only if no illegal operation (for a full conversion: no operation not known to be legal) remains, and otherwise names exactly the ones that do.",
  ["inputs", "histories", "fault_sequences"], "every module with nested regions, every set of patterns including ones that insert, forward, outline, erase neighbours or give up half-way, every precedence of static, dynamic and recursive legality rules, every limit on rounds",
  "Tests apply one or two patterns to a few operations; interplay of nesting, legality precedence, type conversion, limits and neighbours erased by a pattern is not examined.",
  [TIR + "/rewrite"], [("rounds and casts", TIR + "/rewrite/applicator.rs"), ("replacement", TIR + "/rewrite/rewriter.rs"), ("legality and boundaries", TIR + "/rewrite/conversion_target.rs"), ("types", TIR + "/rewrite/type_converter.rs")],
  ["module afterwards, use lists, rounds and changes reported, verdict of the boundary with the operations it names"], False)
