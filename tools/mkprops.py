#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": hook}})

VM="cordy-sys/src/vm/mod.rs"; REPL="cordy-sys/src/repl.rs"; COMP="cordy-sys/src/compiler/mod.rs"
PARSER="cordy-sys/src/compiler/parser/mod.rs"; SEM="cordy-sys/src/compiler/parser/semantic.rs"
CORE="cordy-sys/src/core/mod.rs"; COLL="cordy-sys/src/core/collections.rs"; UTIL="cordy-sys/src/util.rs"
ERR="cordy-sys/src/vm/error.rs"; REP="cordy-sys/src/reporting.rs"; FFI="cordy/src/ffi.rs"; MAIN="cordy/src/main.rs"
WEB="cordy-web/src/lib.rs"; PTR="cordy-sys/src/vm/value/ptr.rs"; VAL="cordy-sys/src/vm/value/mod.rs"
PAT="cordy-sys/src/core/pattern.rs"; CODEGEN="cordy-sys/src/compiler/parser/codegen.rs"; STR="cordy-sys/src/core/strings.rs"

prop("C01","Runtime errors and exit are fail-stop",
 "When a program raises its first runtime error (from an operator, a native module call, an assertion, an I/O call ...) or executes `exit`, nothing it would have done afterwards happens: no further output, input, file write, native call or mutation, even when the failure occurs inside a user callback that a library function (map, filter, sort_by, min_by, reduce, replace, group_by, find, any, a dict default, a memoized function ...) is in the middle of driving. Everything done before the failure stands, and the error that is reported is that first one; after `exit` none is reported.",
 ["programs","fault_sequences","crash_points"],
 "for every program, every point at which a fault is injected into it, and every library function or language construct that is active at that point",
 "The tests run a few hand-picked failing one-liners and compare only the final text; none enumerates failure points inside callbacks or checks that nothing ran afterwards.",
 [VM,COLL,STR,UTIL,CORE,PAT],
 [("error propagation through `?` and `catch`/`join`",UTIL),("VirtualMachine::run / invoke_and_spin",VM),("library functions invoking callbacks",COLL)],
 ["output stream","native call log","session state seen by later statements","error report"])
prop("C02","A REPL session survives every failed statement unharmed",
 "A statement entered at the REPL that stops with a runtime error, at any point of its execution, leaves the session usable: every variable, function, struct and value that existed keeps the contents it had at the instant of the failure, variables whose own declaration had already completed stay declared, ones whose declaration had not completed are not declared (and may be declared again; a pattern declaration which fails while it is taken apart has declared all of its names, those not reached as nil), and nothing else is visible. Every later statement then behaves exactly as it would in a session that had reached that state without a failure.",
 ["histories","fault_sequences","crash_points"],
 "for every sequence of REPL statements and every set of statements that fail, at every point inside them: nested calls, loops, native iteration, half-built literals, unrolled arguments, pattern assignments, declarations",
 "repl.rs has eleven tests, two of which continue after an error, and only with one print statement; no test fails a declaration, a loop body or a nested call and then uses the session.",
 [REPL,VM,SEM],
 [("Repl::run",REPL),("VirtualMachine::run_recovery",VM),("InitGlobal / global_count",VM),("Locals kept across incremental compiles",SEM)],
 ["REPL output of each later statement"])
prop("C03","Captured variables are single shared cells, whatever happens to their scope",
 "All closures that capture a variable, and the scope that declared it, share one variable: a write through any of them is what every other one reads next, in every interleaving of calls. This continues to hold after the declaring scope ends, whether it ended normally, by return, break or continue, or because a runtime error aborted the statement; and each loop iteration or call that declares the variable creates a fresh one, which is never confused with another variable. The same holds for variables a default argument or a method references, and for globals and functions referenced before they are declared.",
 ["histories","programs","fault_sequences"],
 "for every nesting of scopes, functions and loops, every interleaving of calls on the escaped closures, and every point at which the declaring scope is aborted",
 "The tests check a fixed set of closure programs that run to completion once; none keeps a closure whose declaring frame was destroyed by an error.",
 [VM,SEM,PARSER],
 [("open_upvalues, CloseLocal, LiftUpValue",VM),("run_recovery",VM),("resolve_upvalue / pop_locals",SEM)],
 ["values returned by escaped closures"])
prop("C04","Input that does not compile changes nothing",
 "REPL input that is rejected with a compile error, wherever in the input the error is, only prints the error: no variable, function, struct, field, native module or code from it becomes visible, names it tried to declare stay free, and every later statement behaves as if the rejected input had never been entered.",
 ["histories","fault_sequences","inputs"],
 "for every session and every interleaving of rejected inputs (scan errors, syntax errors, semantic errors, in any position and nesting) with accepted ones",
 "Two REPL tests enter one malformed line; no test declares functions, constants, patterns, structs or native modules in rejected input and then continues.",
 [COMP,SEM,REPL,PARSER],
 [("CompileParameters::save / restore",COMP),("incremental_compile",COMP),("FunctionLibrary::truncate",SEM)],
 ["REPL output of each later statement"])
prop("C05","How input is cut into lines does not matter",
 "A statement delivered to the REPL in several lines, cut at any whitespace between tokens, is accepted after its last line and behaves exactly like the same statement delivered in one piece, and while it is incomplete the prompt asks for continuation, nothing is executed and nothing is printed. A program fed statement by statement to the REPL performs the same effects as the same program run as a script (apart from the REPL echoing the values of expression statements).",
 ["schedules","histories","programs"],
 "for every program and every way of cutting it into deliveries at token boundaries inside brackets, blocks and calls",
 "Tests feed three fixed multi-line inputs; no test delivers the same program in different cuts and compares.",
 [REPL,COMP,"cordy-sys/src/compiler/scanner.rs",PARSER,VM],
 [("continuation flag and Aborted result",REPL),("is_eof errors",COMP),("SourceView buffer accumulation",REP)],
 ["prompt","REPL output","script output"])
prop("C06","eval is isolated from the code that calls it",
 "eval(text) returns the value of the expression, sees none of the caller's variables and defines none, and leaves the calling program's variables, loops, calls and iteration undisturbed however deeply it is nested and wherever it is called from; functions it returns keep working afterwards. If the text does not compile or the evaluation fails, that is an ordinary runtime error of the calling statement, and at the REPL the session then continues as if the text had never been compiled.",
 ["histories","fault_sequences","programs"],
 "for every sequence of eval calls, from any context (callbacks, loops, functions, nested eval), with any mixture of succeeding, non-compiling and failing texts",
 "Five tests evaluate one expression each; none mixes failing and succeeding evals in one session.",
 [COMP,VM,PARSER],
 [("eval_compile",COMP),("invoke_eval",VM)],
 ["value of eval","REPL output of later statements"])
prop("C07","Standard input reaches the program unaltered",
 "read_line() returns successive lines of standard input without their line ending (\\n or \\r\\n), and '' once input is exhausted; read() returns everything not yet consumed, with \\r\\n replaced by \\n and otherwise byte for byte (a lone \\r stays). This holds for every way the bytes arrive (any chunk sizes, interrupted reads) and every interleaving of the two functions: no byte is lost, duplicated or reordered.",
 ["schedules","inputs","histories"],
 "for every input byte stream (valid UTF-8), every chunking and interruption of its delivery, and every sequence of read and read_line calls",
 "There are no tests of read and read_line at all; a test process could not control how the kernel chunks its input anyway.",
 [VM,UTIL,MAIN],
 [("read_line / read",VM),("strip_line_ending",UTIL)],
 ["values returned by read and read_line"],None)
prop("C08","A failing input stream is reported, never mistaken for data",
 "If standard input fails (an I/O error, or bytes that are not valid UTF-8) during read or read_line, the call ends the program with a reported runtime error (an IOError with its location): it never crashes the interpreter, never returns a truncated, altered or invented value, and the output already produced is intact.",
 ["fault_sequences","inputs","crash_points"],
 "for every position in the input stream at which an error or an invalid byte occurs, and every program reading it",
 "No test injects an input error; there is no way to from the test suite.",
 [VM,CORE,MAIN],
 [("read_line / read",VM)],["standard error and output of the process","exit status"])
prop("C09","Program output is delivered exactly once and in order",
 "The bytes a program (or REPL statement) prints reach standard output exactly once and in order, complete by the time the process ends, however it ends (normally, by exit, or by a runtime error, whose report goes to standard error in script mode), and however the output stream accepts them (short writes, interruptions). If the stream fails permanently, what was delivered is a prefix of the correct output and the program stops at that print, does nothing further, and reports a failure.",
 ["fault_sequences","schedules","crash_points","programs"],
 "for every program, every pattern of short and interrupted writes, and every point at which the stream starts failing",
 "Tests print into an in-memory buffer that never fails or accepts partial writes, and never run the real process.",
 [VM,REPL,MAIN,UTIL],
 [("print/println over Write",VM),("main result handling",MAIN)],["bytes accepted by standard output","standard error"])
prop("C10","File reads and writes are all-or-error",
 "write_text(path, text) that returns has made the file's content exactly text (created or overwritten), touching no other file, and a later read_text of the same path returns that content with \\r\\n replaced by \\n and otherwise unchanged (a lone \\r stays). If the file system fails at any step (missing file, permission, full disk, I/O error, invalid UTF-8, short or interrupted transfers that do not complete) the call ends the statement with an IOError and never returns a value, never silently loses data; short or interrupted transfers that can be completed are, and at the REPL the session continues.",
 ["fault_sequences","crash_points","histories"],
 "for every sequence of reads and writes over several paths, every file-system call at which a fault is injected, and every place the process may be killed",
 "No test touches write_text; read_text is exercised only through three fixed puzzle inputs on a working disk.",
 [CORE,MAIN],
 [("ReadText / WriteText",CORE)],["simulated disk contents","values returned","reported errors"])
prop("C11","Native module calls happen exactly once, in order, with the right arguments",
 "Each evaluated call of a native module function invokes the foreign function of that module and that name exactly once, in program order, with exactly the evaluated arguments (missing optional parameters as nil or their default value, evaluated at that call; variadic ones as an array), and yields exactly the value it returned, for nil, booleans, integers of the language's range, strings and nested arrays. A foreign error, an argument that cannot be represented, or a library or symbol that cannot be loaded ends the statement with an OSError without any call having been made that the program did not evaluate; each library is loaded and initialised once before its first call and a failed load is retried at the next call.",
 ["histories","fault_sequences","programs"],
 "for every program using several native modules and functions, redefinitions through accepted and rejected REPL input, and every load, lookup or call that fails",
 "ffi.rs tests call conversion helpers on six C functions directly; dynamic loading, dispatch by module and name, and sessions are not tested.",
 [FFI,SEM,VM,PARSER],
 [("ExternalLibraryInterface::handle",FFI),("FunctionLibrary::lookup / declare_native",SEM),("CallNative",VM)],
 ["log of foreign calls","returned values","reported errors"])
prop("C12","Optimised programs have the same effects",
 "Running a program that compiles without -o with the -o optimisation produces exactly the same sequence of observable effects (output, input consumed, native calls with arguments, final error) as running it without, under every sequence of results and failures the outside world returns. The one intended difference is that an operation whose operands are constants and which cannot succeed may be reported as a compile error, in which case nothing of the program is executed.",
 ["programs","fault_sequences"],
 "for every program and every sequence of external results and failures",
 "Optimiser tests compare the bytecode of chosen snippets to a golden listing; no test runs both forms of a program against a world that can fail.",
 [CODEGEN,"cordy-sys/src/compiler/parser/expr/optimizer.rs",PARSER],
 [("expression optimiser",  "cordy-sys/src/compiler/parser/expr"),("Code::optimize",CODEGEN)],
 ["event history of both executions"])
prop("C13","The web console shows each input's output exactly once",
 "exec(input) of the web console returns exactly the lines that this input printed (output, echoed values, error reports), without loss, duplication or carry-over between inputs, whatever mixture of succeeding, failing, rejected, incomplete and highlighted inputs came before; prompt() shows whether a continuation is pending, scan(input) never changes the session, exit is reported exactly when the program exits, and load() starts a fresh session. The console behaves as the command-line REPL does on the same inputs.",
 ["histories","fault_sequences"],
 "for every history of load, exec, scan and prompt calls with every mixture of failing, rejected and incomplete inputs",
 "cordy-web has no tests.",
 [WEB,REPL,UTIL],
 [("Manager / exec / prompt / scan",WEB),("SharedWrite",UTIL)],["values returned by exec, prompt and scan"])
prop("C14","Memoised calls and dict defaults are computed once, and failures are not cached",
 "A memoised function runs its body at most once to successful completion per distinct argument list and returns that first value ever after; a dict with a default function calls it exactly once per lookup of a missing key, stores the result, and never calls it for present keys. If the computation fails nothing is stored and the next call or lookup computes again; results stay correct when the computation recursively uses the same memoised function or dict.",
 ["histories","fault_sequences","programs"],
 "for every history of calls and lookups, including re-entrant ones, and every subset of computations that fail",
 "Tests run one memoised Fibonacci and a handful of default dicts to completion; none fails a computation and retries.",
 [CORE,COLL],
 [("invoke_memoized",CORE),("get_dict_index",COLL)],["log of body executions","returned values"])
prop("C15","Iteration over a collection that changes meanwhile follows its live contents",
 "A for loop or library function iterating a list, vector, set or dict while its own body or callback inserts into, removes from, clears or replaces elements of the same collection visits position 0, 1, 2, ... of the live contents at each step and stops at the first position past the current end. The collection always ends with exactly the effect of the mutations in the order performed, insertion order is kept, and the interpreter never crashes or skips or repeats for any other reason.",
 ["schedules","histories","programs"],
 "for every interleaving of iteration steps with mutations of the iterated collection made from the loop body or callback, including nested iterations of the same collection",
 "No test mutates a collection that is being iterated.",
 [VAL,COLL,VM],
 [("Iterable cursor",VAL),("TestIterable",VM)],["sequence of visited elements","final contents"])
prop("C16","Every value is released exactly once, however statements end",
 "Over any session, including statements that fail at arbitrary points, rejected input, partially consumed iterators, failed native calls and exit, each piece of memory the interpreter allocates is released exactly once and not used after release; when the session is dropped, nothing allocated for acyclic values remains. A statement which has ended and input which was rejected leave nothing allocated but what variables now hold and what the session keeps of any input (its text): repeating a statement that changes no variable makes the session hold no more than repeating one that does nothing.",
 ["histories","fault_sequences","crash_points"],
 "for every session over acyclic values and every set of failure points",
 "Tests neither count allocations nor detect use after release; reference counts are maintained by hand in unsafe code.",
 [PTR,VAL,VM,COLL],
 [("Prefix reference counting, Clone/Drop of ValuePtr",PTR),("run_recovery",VM)],["allocator log"])
prop("C17","Execution is a function of program and inputs only",
 "Running the same program or session with the same inputs and the same external results gives byte-identical output, errors and call order every time, independent of memory addresses, allocator behaviour, hash seeds, how input is chunked, the process environment and what was executed in the same process before.",
 ["schedules","configurations","histories"],
 "for every program and every variation of addresses, hash seeds, chunking, environment and process history",
 "Tests run each program once in one environment.",
 [VAL,PTR,"cordy-sys/src/vm/value/collections.rs",VM],
 [("insertion-ordered IndexMap/IndexSet with fixed hasher","cordy-sys/src/vm/value/collections.rs"),("Ord/Hash of values",PTR)],["full event history"])
prop("C18","Error reports name the right place",
 "The report of a runtime error quotes the source line of the statement that failed, with the line number within the input it was entered in, and lists the active calls innermost first with the function each was made in and its line number, whatever inputs, failures, rejected inputs and evals the session has seen before and wherever the called functions were declared.",
 ["histories","fault_sequences","crash_points"],
 "for every session history and every failure point, in every call chain across functions declared in different inputs",
 "Tests check reports of single failures in fresh single-file programs and three fixed REPL sessions.",
 [REP,ERR,REPL,VM],
 [("RuntimeError::with_stacktrace",ERR),("SourceView and Location",REP)],["error report text"])
prop("C19","Script runs present the process environment faithfully",
 "argv() returns exactly the arguments after the script name, in order, in a new list at each call (arguments that are not valid Unicode may be substituted, but never make the program fail); env(name) and env() return exactly the values of the process environment, for every environment including names or values that are not valid Unicode (which may be absent or substituted, but never make the call or an unrelated lookup fail). A script that cannot be read or compiled produces only its error on standard error and has no effects.",
 ["configurations","fault_sequences","inputs"],
 "for every argument vector and environment a process can be started with, and every failure to read the script",
 "No test starts the process; argv and env are never exercised.",
 [MAIN,VM,CORE],
 [("parse_args / run_main",MAIN),("get_envs / get_env / get_args",VM)],["script output","standard error"])

prop("C20","Jumps leave exactly their own scopes and disturb nothing else",
 "break, continue, return, the end of a block and the `else` of a loop leave exactly the scopes and iterations they belong to (a jump in a loop's `else` belongs to the enclosing loop), for every nesting of loops, blocks, functions, pattern variables and half-evaluated expressions and whichever way the outside world's answers steer them: every variable, iteration and pending operand outside keeps its value, and no value of an abandoned scope or operand appears in its place.",
 ["programs","schedules","histories"],
 "for every nesting of loops, else blocks, functions and expressions with jumps, and every sequence of external answers deciding which jump is taken when",
 "The tests run single loops with one break or continue in a fixed position; no test steers nested jumps with live locals and operands around them.",
 [PARSER,SEM,VM],
 [("parse_break_statement / parse_continue_statement / pop_locals",PARSER),("begin_loop / end_loop",SEM),("Pop / PopN / LiftUpValue / TestIterable",VM)],
 ["values printed after each jump"])

# --- properties this technique cannot decide (pure functions of their input) ---
prop("N01","Operators compute what the language reference says",
 "Arithmetic, bitwise, comparison, membership and type-test operators on all value types return the documented result or the documented error.",
 ["inputs"],"for all operand values and types","Tests sample operand pairs.",
 ["cordy-sys/src/vm/operator.rs","cordy-sys/src/vm/value/number.rs"],[("BinaryOp::apply","cordy-sys/src/vm/operator.rs")],["operator results"])
prop("N02","The compiler accepts or rejects every text without crashing",
 "Compiling any text yields a program or a list of located errors; it never panics, hangs or overflows the stack.",
 ["inputs"],"for all source texts","Tests compile chosen texts.",
 [PARSER,"cordy-sys/src/compiler/scanner.rs"],[("scan / parse",COMP)],["compile result"])
prop("N03","String and regex library functions match their documentation",
 "split, join, replace, search, trim, format, char/ord, hex/bin and string indexing and slicing return the documented results for all Unicode strings.",
 ["inputs"],"for all strings and patterns","Tests sample strings, almost all ASCII.",
 [STR],[("strings library",STR)],["function results"])
prop("N04","Collection library functions match their documentation",
 "sort, permutations, combinations, zip, group_by, union, intersect, difference, copy, range and slicing return the documented results for all (unchanging) collections.",
 ["inputs"],"for all argument collections","Tests sample arguments.",
 [COLL,"cordy-sys/src/vm/value/range.rs","cordy-sys/src/vm/value/slice.rs"],[("collections library",COLL)],["function results"])
prop("N05","Equality, ordering and hashing of values are mutually consistent",
 "Values that compare equal hash equal, ordering is total and transitive within a type, and dict and set membership agrees with equality.",
 ["inputs"],"for all pairs and triples of values","Tests sample pairs.",
 [PTR,VAL],[("Eq/Ord/Hash of ValuePtr",PTR)],["comparison and lookup results"])
prop("N06","Highlighting, disassembly and formatted views preserve the source text",
 "The HTML and terminal views of a text contain the same text once markup is removed, and the disassembly lists every instruction.",
 ["inputs"],"for all source texts","Tests sample texts.",
 ["cordy-sys/src/syntax.rs",MAIN,"cordy-sys/src/vm/opcode.rs"],[("syntax::scan","cordy-sys/src/syntax.rs")],["rendered text"])
prop("N07","repr and eval are inverse on plain values",
 "eval(repr(v)) == v for every value built from nil, booleans, integers, strings, lists, vectors, sets and dicts.",
 ["inputs"],"for all plain values","No test round-trips generated values.",
 [VAL,STR],[("to_repr_str",VAL)],["eval(repr(v)) == v"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
