TODO = "no discharged contract yet in this revision of the framework"

prop("P01", "Arithmetic is exact or raises; it never wraps, traps or is undefined",
     "For every pair of integer operands, the language's arithmetic operators yield the mathematically exact 64 bit result (division truncates, the remainder has the dividend's sign, negative powers truncate) or raise an exception when the result is undefined or does not fit. Operations with a float operand yield the IEEE 754 result of the operands converted to double and never raise. Operands that are not numbers raise.",
     ["inputs"], "all pairs of 64 bit integers and doubles, in every internal representation, for + - * / % ** ~ and unary + -",
     "Unit tests sample a handful of operand pairs; overflow boundaries, INT64_MIN and the square-and-multiply power loop span 2^128 pairs.",
     ["src/vm/math.cpp", "src/common/math.hpp", "src/vm/objects/primitives.cpp", "src/vm/context.cpp"],
     [("checked arithmetic", "src/common/math.hpp: checked_add, checked_sub, checked_mul"), ("operators", "src/vm/math.cpp: binary_op, add_op .. pow_op, unary_minus"), ("integer representation", "src/vm/context.cpp: get_integer; src/vm/objects/primitives.hpp: SmallInteger")],
     observe=["result or exception of the operator"],
     note="Proof for all operands except: the power loop is decided with checked_mul replaced by its contract (proved by math_mul) for |base| >= 2, and for bases 0, 1, -1 with exponents below 32; libm's pow and fmod are uninterpreted.")
prop("P02", "Constant folding computes what the program would compute at run time",
     "Whenever the compiler evaluates an operator on constant operands, the folded value is the value, with the same type and sign, that executing the operator at run time yields; operators that raise at run time are not folded away. Constants are shared only when they are indistinguishable at run time.",
     ["inputs"], "all operator and constant operand combinations: integers, floats, null, true, false, strings, symbols",
     "Tests check single operator/operand examples of either side; agreement is a relation over all operands of two independent implementations.",
     ["src/compiler/ir_gen/const_eval.cpp", "src/common/safe_int.hpp", "src/vm/math.cpp", "src/vm/objects/value.cpp", "src/bytecode/module.cpp"],
     [("compile time evaluator", "src/compiler/ir_gen/const_eval.cpp: eval_binary_operation, eval_unary_operation"), ("run time operators", "src/vm/math.cpp, src/vm/objects/value.cpp: equal")],
     observe=["folded constant", "result or exception of the run time operator"],
     note="Proof for all operands of + - * / % unary + - ~ ! == != < <= > >= (the shifts and binary bit operators have no run time counterpart in the interpreter and are checked against their definition). Folding of ** is compared for |base| >= 2 through the contract of checked_mul. String formatting of constants and the value numbering table of the IR generator are not under contract.")
prop("P03", "Equality, hashing and ordering of values are coherent",
     "Two values are equal exactly when they denote the same number, the same text, the same symbol or the same object, independent of how they are represented; equality is symmetric, and reflexive except for NaN. Equal values always have equal hashes. Comparison orders integers exactly and floats as IEEE 754 does, places null below everything, is antisymmetric, and raises for values without an order.",
     ["inputs"], "all pairs of values: integers in either representation, floats including NaN, infinities and signed zero, strings, slices, symbols, booleans, null, reference objects",
     "The relation quantifies over pairs of representations (small/boxed integer, float, string/slice); tests compare a few literals.",
     ["src/vm/objects/value.cpp", "src/vm/hash.cpp", "src/vm/math.cpp", "src/vm/objects/string.cpp", "src/vm/objects/primitives.cpp"],
     [("equality", "src/vm/objects/value.cpp: equal, int_float_equal"), ("hash", "src/vm/objects/value.cpp: hash; src/vm/hash.cpp"), ("order", "src/vm/math.cpp: compare")],
     observe=["results of ==, <, hash"],
     note="Proof for all numbers; text values range over all contents up to the stated lengths of c_strings, here over four fixed texts in both representations.")
prop("P04", "Maps and sets behave as mathematical maps and sets keyed by value equality",
     "After any sequence of insertions, overwrites, removals and clears, a lookup finds the most recent value stored for an equal key and nothing for any other key, the size is the number of distinct keys, and iteration visits each entry exactly once in insertion order. Growing, rehashing and compaction never change the contents.",
     ["histories", "inputs"], "all operation sequences and keys, in particular colliding hashes and sequences that cross a resize of the table",
     "Tests run a few sequences; probing, backward shift deletion and compaction depend on the collision pattern.",
     ["src/vm/objects/hash_table.cpp", "src/vm/objects/hash_table.hpp", "src/vm/objects/set.cpp"],
     [("robin hood table", "src/vm/objects/hash_table.cpp: set_impl, find_impl, remove_impl"), ("growth and compaction", "src/vm/objects/hash_table.cpp: grow, compact")],
     observe=["results of every map and set operation", "iteration order"],
     note="Bounded. Every table state of the first size (8 buckets) with up to 4 entries, holes included, and 5 without holes, satisfying the invariant; all histories of 4 operations over 3 keys; long histories across resizes for six collision patterns. Not unbounded: loops over the index are unrolled.", level="other")
prop("P05", "Arrays, tuples, records and buffers are bounds safe sequences",
     "Elements read back are the ones last written at the same index, an access outside the bounds raises and changes nothing, and the size of an array changes by exactly one per append or removal. Growing an array keeps every element, and no operation touches any other object.",
     ["histories", "inputs"], "all indices (any integer), all sizes and operation sequences",
     "Index arithmetic and growth are tested at a few sizes only.",
     ["src/vm/objects/array.cpp", "src/vm/objects/array_storage_base.hpp", "src/vm/objects/tuple.cpp", "src/vm/objects/buffer.cpp", "src/vm/objects/record.cpp"],
     [("array", "src/vm/objects/array.cpp: append, get, set, remove_last, resize"), ("storage", "src/vm/objects/array_storage_base.hpp")],
     note="Proof for every size and index up to 2^36 elements; growth for capacities 0..8 and 64, and record access for schemas of up to 3 members, are enumerated.")
prop("P06", "Strings, slices and string builders preserve text exactly",
     "The text of a string is the bytes it was made from, a slice is exactly the selected bytes, and a builder's text is the concatenation of everything appended to it in order. Slicing outside the text raises or clamps as documented and never reads outside of it.",
     ["inputs", "histories"], "all byte strings, all slice bounds, all append sequences",
     "Lengths, capacities and bounds are sampled by tests.",
     ["src/vm/objects/string.cpp", "src/vm/objects/string.hpp"],
     [("builder growth", "src/vm/objects/string.cpp: StringBuilder::reserve_free, append"), ("slices", "src/vm/objects/string.cpp: StringSlice")],
     level="other", note="Slices, iteration and the growth of builders are proved for all sizes, offsets and lengths; copying, comparing and searching of text is bounded (texts of a few bytes with all contents, and sizes around the capacities).")
prop("P07", "The heap hands out disjoint, aligned, in-page storage and accounts for it",
     "Storage returned by an allocation never overlaps storage of another live object, is cell aligned, large enough, and inside a page owned by the heap. Freed storage becomes available again exactly once. A request that cannot be satisfied is reported and leaves the heap unchanged.",
     ["histories", "inputs", "configurations"], "all sequences of allocations and collections, all request sizes and page sizes",
     "Overlap depends on free list history and size classes that tests visit only by accident.",
     ["src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/heap/chunks.hpp", "src/vm/heap/memory.cpp", "src/common/adt/bitset.hpp"],
     [("free space", "src/vm/heap/heap.cpp: FreeSpace"), ("page layout", "src/vm/heap/chunks.cpp: Page, PageLayout"), ("sweep", "src/vm/heap/chunks.cpp: Page::sweep")],
     level="other", note="Layouts, addresses, chunk sizes, limits and a whole allocation against the contracts of its parts are proved for all page sizes, requests and counters; free lists, sweeping, bit searches and whole histories are bounded. The allocator of the host is assumed to return disjoint aligned memory or null.")
prop("P08", "Garbage collection keeps everything reachable and only that",
     "A collection keeps every object reachable from the roots unchanged, releases every unreachable one, and runs a finalizer exactly once when its object is released.",
     ["histories", "inputs"], "all object graphs and all points at which a collection can happen",
     "Tests build a few graphs; a missed edge shows only when that edge is the only one.",
     ["src/vm/heap/collector.cpp", "src/vm/heap/chunks.cpp", "src/vm/object_support/layout.hpp", "src/vm/root_set.hpp", "src/vm/objects/value.hpp"],
     [("marking", "src/vm/heap/collector.cpp: Collector::trace"), ("walking references", "src/vm/object_support/layout.hpp, src/vm/heap/collector.cpp: trace"), ("sweep", "src/vm/heap/chunks.cpp")],
     level="other", note="Marking one object is proved; the references of every type of object, the set of roots, whole collections of all graphs of 3 objects and shutdown are bounded.")
prop("P09", "Handles keep values alive exactly for the lifetime of their scope",
     "A value stored in a local or external handle is visited by every collection until its scope ends or the external is freed, and is not a root afterwards. Nested scopes release exactly their own handles, in any order of use.",
     ["histories"], "all nesting and allocation sequences of scopes, locals, arrays of locals and externals",
     "Page boundaries of the handle stack and the free list of externals are crossed only in long histories.",
     ["src/vm/handles/scope.cpp", "src/vm/handles/scope.hpp", "src/vm/handles/external.cpp", "src/vm/handles/external.hpp"],
     [("root stack", "src/vm/handles/scope.cpp: RootedStack"), ("externals", "src/vm/handles/external.cpp: ExternalStorage")],
     level="other", note="One allocation of handles from every state of the handle stack, unique externals and registers are proved; releases are proved for stacks of up to 3 pages, and histories of scopes and externals are bounded.")
prop("P10", "Every bytecode instruction survives encoding and decoding",
     "Decoding the bytes produced for a sequence of instructions yields exactly that sequence, operand for operand, and jump targets resolve to the instruction they were bound to. Decoding arbitrary bytes either yields an instruction inside the input or reports an error; it never reads outside the input.",
     ["inputs"], "all instructions with all operand values, and all byte strings",
     "Tests encode a few instructions; operand widths and truncated input are not covered.",
     ["src/bytecode/writer.cpp", "src/bytecode/writer.hpp", "src/bytecode/reader.cpp", "src/bytecode/instruction.cpp", "src/common/memory/binary.hpp", "src/common/memory/byte_order.hpp"],
     [("encoder", "src/bytecode/writer.cpp"), ("decoder", "src/bytecode/reader.cpp")],
     level="proof", note="Label resolution and handler tables are checked bounded (all programs of a few instructions); single instructions and decoding are proved for all operands and all texts.")
prop("P11", "Only well formed bytecode modules are accepted",
     "A module that passes verification refers only to members, registers, parameters, strings and jump targets that exist and have the right kind. A malformed module is rejected with an error and never crashes the loader or is read out of bounds.",
     ["inputs"], "all byte sequences as function code and all member tables",
     "The space of malformed modules is not sampled by tests beyond single examples.",
     ["src/vm/modules/verify.cpp", "src/bytecode/reader.cpp"],
     [("verifier", "src/vm/modules/verify.cpp")],
     level="other", note="Every single instruction with all operands is proved; code of several instructions, handler tables, member tables and loading are bounded.")
prop("P12", "Each instruction changes exactly its target register and reads its operands",
     "Executing a valid instruction stores the specified result in its target register and leaves every other register, the operand stack below its operands, and the caller's frame unchanged.",
     ["inputs", "programs"], "all instructions, register numbers and operand values",
     "Evaluation tests run whole programs; interference between registers shows only with particular allocations.",
     ["src/vm/interpreter.cpp", "src/vm/objects/coroutine_stack.cpp"],
     [("dispatch", "src/vm/interpreter.cpp: BytecodeInterpreter::run")],
     level="other", note="Every instruction is executed from a symbolic frame and proved for all register numbers and operand values (the callee operations are replaced by recording contracts). Environments of more than 3 levels and map construction of more than 3 entries are bounded.")
prop("P13", "The call stack of a coroutine is a faithful stack of frames",
     "Pushing and popping frames and values restores exactly the previous frame and values, arguments and locals are addressed inside their frame, growing the stack preserves all of it, and exceeding the limit is reported instead of writing out of bounds.",
     ["histories", "inputs"], "all sequences of calls, returns and pushes, all frame sizes",
     "Growth in the middle of nested frames is reached by few tests.",
     ["src/vm/objects/coroutine_stack.cpp", "src/vm/objects/coroutine_stack.hpp"],
     [("frames", "src/vm/objects/coroutine_stack.cpp")],
     level="other", note="Frame push, pop, argument and local addressing and growth are decided on histories of up to 5 operations over symbolic frame sizes (bounded); single steps and calls are proved.")
prop("P14", "Ready coroutines run in order, each once per wake-up",
     "Coroutines that become ready are resumed in the order in which they became ready, exactly once each, and a resume token wakes its coroutine at most once.",
     ["schedules", "histories"], "all sequences of start, yield, resume and completion",
     "Tests schedule one or two coroutines.",
     ["src/vm/context.cpp", "src/vm/objects/coroutine.cpp"],
     [("ready queue", "src/vm/context.cpp: schedule_coroutine, dequeue_coroutine"), ("tokens", "src/vm/objects/coroutine.cpp: CoroutineToken")],
     level="other", note="One step of the queue (for a queue of any length), starting, tokens and both kinds of native frames are proved; runs of three coroutines are bounded.")
prop("P15", "Exceptions reach the innermost handler covering the faulting instruction",
     "When an exception is raised, control continues at the handler of the protected region that contains the current instruction, in the innermost frame that has one; the frames above it are left together with their values. An exception raised while another is being handled becomes a secondary exception of the first, and a rethrown exception does not become its own. A catching call yields exactly the value returned or the exception raised below it; an exception nobody catches completes the coroutine.",
     ["inputs", "programs"], "all handler tables, instruction positions and stacks of frames",
     "Handler ranges are half open intervals whose boundaries tests do not enumerate.",
     ["src/vm/objects/function.cpp", "src/vm/interpreter.cpp", "src/vm/objects/exception.cpp"],
     [("handler lookup", "src/vm/objects/function.cpp: HandlerTable::find_entry"), ("unwinding", "src/vm/interpreter.cpp: Interpreter::unwind, run_frame"), ("secondary exceptions", "src/vm/objects/exception.cpp: Exception::add_secondary")],
     level="other", note="Handler lookup is decided for all tables of up to 8 regions with symbolic bounds and positions, unwinding for stacks of up to 4 frames; throwing, secondary exceptions and the catch frame are proved.")
prop("P16", "The C API reports every misuse and failure through its error argument",
     "Calling an API function with null, wrongly typed or out of range arguments, in the wrong state, or when memory runs out, sets the error argument (unless it is NULL or already set) to a code that describes what happened and changes no handle and no object; no C++ exception leaves a function. A valid call does what its description says: values, containers, modules, native functions and their frames, resume tokens, compiler results and attachments. Completion callbacks and cleanup functions run exactly when they should, and at most once.",
     ["inputs", "fault_sequences", "histories"], "all API functions, all combinations of null and mistyped arguments, all points of memory exhaustion, all orders of calls",
     "Tests exercise some argument combinations of some functions.",
     ["src/api/objects.cpp", "src/api/vm.cpp", "src/api/functions.cpp", "src/api/compiler.cpp", "src/api/internal.hpp", "src/api/error.cpp", "src/vm/context.cpp", "src/vm/objects/native.cpp"],
     [("entry point wrapper", "src/api/internal.hpp: entry_point"), ("errors", "src/api/error.cpp: report_error, report_caught_exception"), ("callbacks", "src/vm/context.cpp: Context::set_callback, execute_callbacks"), ("frames and tokens", "src/vm/objects/native.cpp: ResumableFrameContext, UnownedAsyncResumeToken")],
     level="other", note="The boundary (error reporting for every exception and code) is proved. The functions themselves are decided for one object of each of 32 kinds, null handles, and all combinations of misuse, with symbolic indices, counts and numbers; memory exhaustion for the first 8 allocations of each call.")
prop("P17", "Integer, bit and bitset utilities are exact on their whole domain",
     "Checked arithmetic reports overflow exactly when the mathematical result does not fit; rounding, alignment, power of two, logarithm, bit scan and byte order helpers return the mathematically defined result for every argument in their domain.",
     ["inputs"], "all argument values of every supported width",
     "Tests check a few constants per helper.",
     ["src/common/math.hpp", "src/common/bitops.hpp", "src/common/safe_int.hpp", "src/common/adt/bitset.hpp", "src/common/memory/byte_order.hpp", "src/common/memory/tagged_ptr.hpp"],
     [("helpers", "src/common/math.hpp, src/common/bitops.hpp, src/common/safe_int.hpp")],
     level="proof", note="Bitsets are checked bounded (sizes up to a few blocks); everything else is proved on the whole domain.")
prop("P18", "UTF-8 decoding and the lexer are total and lossless",
     "For every source text the lexer terminates and its tokens lie inside the text, in order, without overlap, each as long as possible and of the kind its text spells. UTF-8 decoding accepts exactly the well formed sequences, and decoding an encoded code point gives it back. Number, string and symbol literals denote exactly what their text spells or are refused with an error.",
     ["inputs"], "all source texts",
     "Tests lex short snippets.",
     ["src/compiler/syntax/lexer.cpp", "src/common/text/unicode.cpp", "src/common/text/code_point_range.hpp", "src/compiler/syntax/grammar/literals.cpp"],
     [("lexer", "src/compiler/syntax/lexer.cpp: Lexer::next"), ("utf8", "src/common/text/unicode.cpp"), ("literals", "src/compiler/syntax/grammar/literals.cpp")],
     level="other", note="Decoding, encoding, digit and character class functions are proved for all inputs; the lexer, validation of whole texts and literals are bounded: all texts of a few bytes, alone and inside contexts.")
prop("P19", "Arenas and string tables hand out stable, disjoint storage",
     "Memory from an arena is aligned, disjoint from all earlier allocations and stays valid until the arena is cleared; interning the same text twice yields the same id, different texts different ids, and an id always maps back to its text.",
     ["histories", "inputs"], "all sequences of allocations and insertions, all sizes and alignments",
     "Block boundaries and large allocations are rarely crossed by tests.",
     ["src/common/memory/arena.cpp", "src/common/memory/arena.hpp", "src/common/text/string_table.cpp", "src/common/text/string_table.hpp"],
     [("bump allocation", "src/common/memory/arena.cpp: Arena::allocate"), ("interning", "src/common/text/string_table.cpp")],
     level="proof", note="One allocation step is proved from every arena state for every size and alignment; sequences of allocations and insertions are bounded.")
prop("P20", "Symbols and interned strings are identical exactly when their text is equal",
     "Requesting a symbol or interned string for equal texts yields the identical object for the lifetime of the context, and for different texts different objects.",
     ["histories", "inputs"], "all sequences of requests, also across table growth",
     "Tests intern two or three names.",
     ["src/vm/context.cpp", "src/vm/objects/value.cpp", "src/vm/objects/hash_table.cpp"],
     [("intern table", "src/vm/context.cpp: get_interned_string, get_symbol")],
     level="other", note="One request is proved against the contracts of the table (P04); pairs of texts, histories and growth are bounded.")
prop("P21", "Compiled programs behave as the source language prescribes",
     "For every program the compiler accepts, executing the generated bytecode has the effects of evaluating the source program from left to right, whatever optimisations, register assignments and block orders were chosen. Variables and closures read the value last assigned, deferred expressions run exactly once on every way out of their scope, and loops, branches, jumps and exceptions continue where the source says.",
     ["programs", "inputs"], "all source programs; the contracts quantify over the arguments of a fixed set of programs (bounded)",
     "Evaluation tests are examples run with a few arguments.",
     ["src/compiler/ir_gen", "src/compiler/ir_passes", "src/compiler/bytecode_gen", "src/vm/interpreter.cpp", "src/compiler/syntax", "src/compiler/ast_gen", "src/compiler/semantics"],
     [("program contracts", "src/compiler/compiler.cpp: Compiler::run; src/vm/interpreter.cpp: BytecodeInterpreter::run"), ("operators", "src/vm/math.cpp"), ("deferred code", "src/compiler/ir_gen/func.cpp")],
     observe="the result of calling the exported functions",
     level="other", note="Each program is a contract: its functions return what the source prescribes for all arguments in a stated range. The programs are chosen, so this is bounded over programs; a semantics preservation theorem is out of reach.")
prop("P22", "The compiler is total: every source text yields a module or diagnostics",
     "For every source text (nested no deeper than the native stack allows) the compiler terminates without an internal error and either produces a module that the vm accepts or reports at least one error diagnostic, never both and never neither.",
     ["inputs", "programs"], "all source texts; the contracts enumerate shapes of programs, pseudo random programs and malformed texts (bounded)",
     "Tests compile a few hundred snippets.",
     ["src/compiler"], [("compiler", "src/compiler/compiler.cpp: Compiler::run"), ("parser", "src/compiler/syntax"), ("ir generation", "src/compiler/ir_gen"), ("verification", "src/bytecode/verify.cpp, src/vm/modules/load.cpp")],
     level="other", note="Bounded: every shape of statement around every shape of expression, jumps at every position, pseudo random programs and pseudo random text. The parser and passes recurse over unbounded trees, so a proof for all texts is out of reach.")
