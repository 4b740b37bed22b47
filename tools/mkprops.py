import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Integer arithmetic, logic, comparison and shift words are exact",
"For every pair of 64-bit cells, the integer words (+ - * / mod /mod abs negate 1+ 1- 2* 2/ and or xor invert lshift rshift = <> < > <= >= 0= 0< 0> 0<> not within max min, the address-unit words and the constant words) leave exactly the two's-complement wrapping result, with division truncating toward zero and flags being 0 or -1. A division by zero raises exception -10 and nothing else does. Nothing below the operands on the stack changes, and the result is the same interpreted or compiled.",
["inputs"],"All operand values, in particular extremes (most negative cell, -1, 0, powers of two and neighbours) and shift counts 0..63; within is n2<=n1<n3 as documented; shift counts of 64 and more are unspecified.",
"The unit tests use one or two small operand tuples per word; the wrap-around, sign and boundary behaviour is quantified over 2^128 operand pairs.",
["src/core.rs","src/env.rs","core.fth"],[("wrapping integer primitives","src/core.rs Primitives section (plus, slash_mod, within ...)"),("library definitions","core.fth 2* <= max min")],["data stack after evaluating a line","last error code"])
p("C02","Stack-manipulation words move exactly the cells they say they move",
"Every data, return and floating-point stack word (dup drop swap over nip tuck rot -rot pick ?dup depth 2dup 2drop 2swap 2over, >r r> r@ 2>r 2r> 2r@, fdup fdrop fswap fnip fover frot fpick and friends) performs its documented permutation or copy on the top items and leaves every deeper item of all three stacks untouched. This holds for any sequence of them and at any depth up to the documented capacity of 64 items.",
["histories","inputs"],"All sequences of stack words over stacks holding arbitrary (distinct) cells and floats at depths 0..64.",
"Unit tests run each word once on a stack of two to four items; sequences, deep stacks and the untouched remainder are never looked at.",
["src/core.rs","src/float.rs","core.fth"],[("ring stacks with explicit index arithmetic","src/core.rs Stack, swap/rot/two_over/pick"),("float stack words","src/float.rs")],["stack contents after each line"])
p("C03","Stack overflow and underflow are detected with the right exception",
"After any line of source that leaves the data, return, control or floating-point stack above 64 items or below empty, or that stored a value (other than that stack's own guard value) beyond either boundary on the way, the line ends with the matching exception (-3/-4 data, -5/-6 return, -44/-45 floating point, -22 control). A program that stays within 0..64 items on every stack never gets such an exception. After the client recovers, the stacks are empty and usable to their full capacity again.",
["programs","histories"],"All sequences of pushes and pops, interpreted and inside definitions, whose depth stays within 63 items of either boundary; programs that merely read (without popping or storing) below an empty stack are outside.",
"Unit tests check single underflows on an empty stack; exact capacity, simultaneous stacks, false alarms at 64 items and recovery over histories are not sampled.",
["src/core.rs"],[("canary cells and depth range checks","src/core.rs Stack::overflow/underflow, check_stacks"),("stack reset on abort","src/core.rs abort_with, clear_stacks")],["last error code","stack depths"])
p("C04","No address or length operand can reach memory outside the data space",
"For every address and length operand, the memory, text, file and path words either act entirely inside the VM's data space or change nothing there and report failure (exception -9 for memory words, a non-zero result code for file words). The host process neither faults nor reads or writes any memory outside the data space. Operands for which address plus length exceeds the address range are treated the same way.",
["inputs"],"All 64-bit address and length operands (near the start, limit and here of the data space, 0, negative, near the top of the address space, arbitrary), interpreted or compiled, in checked and optimised builds; a library word composed of several operations may have completed its leading ones when a later one fails.",
"Tests try an address or two just outside the data space; wrap-around, negative lengths and the words that share the check are not reached, and an out-of-bounds read is invisible to an assertion without a sanitizer.",
["src/core.rs","src/memory.rs","src/float.rs","src/output.rs","src/file_access.rs","src/loader.rs","core.fth"],[("bounds comparisons before raw access","src/core.rs fetch store c_fetch c_store p_move; src/file_access.rs; src/output.rs p_type")],["process status","AddressSanitizer reports","image of the data space before and after","error code / ior"])
p("C05","The data space behaves as one byte-addressable array with a linear free pointer",
"Every sequence of stores, fetches, moves, fills, compilations and allocations (@ ! c@ c! +! 2@ 2! f@ f! on off move fill append count /string , c, f, 2, allot here align falign aligned faligned word) leaves the user's region exactly as the same operations on a little-endian byte array with one allocation pointer would. Addresses need not be aligned, move copies correctly under every overlap, and no operation changes a byte it does not name. Fetches return the last stored value.",
["histories","inputs"],"All operation sequences over a user region with aligned and unaligned addresses, overlapping moves of every relative distance and length, and any interleaving with allocation.",
"Unit tests do single aligned stores and one or two moves; interleavings, overlaps and non-interference cannot be covered by a handful of samples.",
["src/core.rs","src/memory.rs","src/float.rs","core.fth"],[("raw data-space accessors","src/memory.rs get_*/put_*/compile_*"),("overlap-safe copy","src/core.rs p_move")],["byte image of the region","here","data and float stack"])
p("C06","Compiled control structures execute as the source structure says",
"For every well-formed definition built from if/else/then, begin/until/again/while/repeat, do/?do with loop/+loop, i j leave unloop exit, case/of/endof/endcase, recurse, nested calls and label/goto/call, running it performs exactly the sequence of actions of the structured program, including loop index values, limits across the signed boundary and negative steps. The data stack and return stack end exactly as the program dictates. The same definition gives the same result every time it runs.",
["programs","inputs"],"All nestings of the structures up to the control-stack capacity, all loop bounds and steps, run to completion.",
"Each structure has one or two unit tests with fixed small bodies; nesting, interaction of leave/exit/unloop with enclosing structures, step signs and boundary-crossing limits are a product space.",
["src/core.rs"],[("control-flow stack and back-patching","src/core.rs imm_if .. imm_plus_loop, Control"),("loop runtime","src/core.rs _do _qdo _loop _plus_loop leave unloop p_i p_j"),("labels","src/core.rs imm_label imm_goto imm_call")],["log written by the program","stacks after the run"])
p("C07","Malformed control structures are rejected and leave the system usable",
"A definition whose control-structure words do not nest properly (mismatched, missing or surplus openers or closers, leave outside a counted loop, a forward goto never resolved) is refused with exception -22, and every properly nested one is accepted. The refused name never becomes findable, an earlier word of that name stays in force, and after the client resets, the next well-formed definition compiles and runs correctly.",
["programs","histories"],"All token sequences over the control-structure words, strict nesting being the accepted language; sequences of failing and succeeding definitions.",
"Unit tests hold about twenty fixed mismatches; the space of sequences and the after-effects on later definitions are not sampled.",
["src/core.rs"],[("typed control stack entries","src/core.rs Control, imm_*"),("hidden until semicolon","src/core.rs colon, semicolon")],["error code","lookup of the names","behaviour of the next definition"])
p("C08","Name lookup finds the newest visible definition, ignoring ASCII case",
"At every point of any history of definitions, a name resolves to the most recently completed definition whose name equals it up to ASCII case, and is undefined (-13) when there is none. A definition is invisible while it is being compiled, code compiled against an older definition keeps using it after a redefinition, and names with equal hash values or equal prefixes never shadow each other. The word listing shows exactly the visible definitions, newest first.",
["histories","inputs"],"All histories of definitions, failures and redefinitions over arbitrary names, including names that collide in the lookup table, long names, punctuation and non-ASCII names.",
"Tests look up a few built-in names; collisions, redefinition histories and visibility during compilation are not exercised.",
["src/core.rs","src/tools.rs"],[("hash buckets with links","src/core.rs Wordlist::push, find"),("hidden flag","src/core.rs colon, semicolon")],["execution results of names","' and error code","words output"])
p("C09","Running a marker restores the dictionary exactly as it was",
"Executing a word made by marker removes itself and everything defined after it: the set of findable names, what each resolves to, the free pointer and the number of definitions are exactly those at the moment before the marker was created. Older definitions keep working, and the freed names and space can be reused. This holds for nested markers and any number of repetitions.",
["histories"],"All histories of definitions, redefinitions, allocations, marker creations and marker executions, including failed definitions in between.",
"Two fixed unit-test sequences exist; chains of markers, shadowed names and lookup-table collisions across a marker are not sampled.",
["src/core.rs"],[("snapshot of lookup heads in the marker's body","src/core.rs marker, unmark")],["lookup of every name ever used","here","words output"])
p("C10","Integer literals denote exactly the value written",
"Every token that is not a word and is an optional base prefix (% # $), optional sign and digits of the base, denotes that integer modulo 2^64, in every base from 2 to 16 (letter case is ignored), and a quoted character 'c' denotes its code. Interpreting it pushes the value and compiling it makes the definition push the same value. A token that is neither a word nor a valid number raises -13 and pushes nothing.",
["inputs","configurations"],"All tokens and all number bases 2..16; a sole prefix or sign character and non-ASCII quoted characters are unspecified.",
"The parser tests cover about ten tokens; overflow wrap, digit/base boundaries, prefix-sign order and compile/interpret agreement are unbounded.",
["src/parser.rs","src/core.rs"],[("numeric parser","src/parser.rs base sign uint_in_base quoted_char"),("literal compilation","src/core.rs evaluate_integer, compile_integer, lit")],["data stack","error code"])
p("C11","Floating-point literals and words agree with IEEE double arithmetic",
"A floating-point literal denotes the decimal number written, to within a relative error of 1e-12 (exactly, for integers up to 2^53), interpreted or compiled, and every floating-point word gives the IEEE double result of its documented operation (+ - * / sqrt abs negate min max floor ceil round exact; transcendental words within a few ulp; comparisons and f~ by its three cases; f>s truncating and saturating). Values survive storing, fetching, constants and compilation bit for bit.",
["inputs"],"All doubles including signed zeros, infinities, NaN and subnormals as operands; all literals with an exponent mark, of up to 18 significant digits, with magnitudes within 1e-290..1e290.",
"Tests use a handful of ordinary values; special values, exponent extremes and the compiled path are not reached.",
["src/float.rs","src/core.rs","src/parser.rs"],[("float primitives","src/float.rs"),("literal parser","src/core.rs evaluate_float, src/parser.rs fraction"),("flit","src/core.rs compile_float, flit")],["floating-point stack","data stack"])
p("C12","Printed numbers are the value in the current base, in the requested field",
"Number output (. .r h. h.r ? f. f.r) prints exactly the digits of the value in base 2, 8, 10 or 16 (two's complement in bases other than ten), right-aligned to the requested width and never truncated; an unsupported base raises -21 and prints no number. What is printed in a base reads back as the same value in that base. Floats print correctly rounded with the requested number of decimals (at most 17) and the sign of the value, negative zero included.",
["inputs","configurations"],"All cell values, widths and bases; all doubles and precisions.",
"The few output tests use small positive numbers; sign, width and base products and read-back are not sampled.",
["src/output.rs","core.fth"],[("number formatting","src/output.rs dot_r fdot_r"),("base save/restore","core.fth h. h.r")],["output buffer","base afterwards"])
p("C13","An exception stops the program at once and recovery is complete",
"When any word raises an exception, no further word of the running definitions or of the rest of the line is executed, the reported code is the one documented for the cause, and the data, floating-point and control stacks are empty. After the client's reset the interpreter is in interpretation state with empty stacks, and any later program behaves as it would on a system that never failed. An installed handler that ends in quit or bye runs exactly once per exception.",
["fault_sequences","histories"],"All exception causes at every point of a call tree (inside loops, nested calls, colon definitions under compilation, deferred words), any number of times in succession, with and without an installed handler.",
"Unit tests trigger one exception at the top level and look at the code only; what runs afterwards and long-run recovery are not checked.",
["src/core.rs","src/exception.rs"],[("abort path","src/core.rs abort_with, reset, clear_stacks, evaluate_input")],["side effects after the raise point","error code","stacks","later behaviour"])
p("C14","No source text can crash or wedge the host",
"Evaluating any text whatsoever, line after line with the client's recovery in between, never panics, aborts or faults the host process, in checked or optimised builds, and every single word returns control to the embedder (text that overwrites the dictionary's own entries and code, or runs the hidden run-time tokens by hand, excepted). After each line and recovery, the VM still evaluates a simple program correctly. The exception reported for a failed line is one of the defined codes.",
["inputs","programs","histories"],"All texts: arbitrary characters, truncated constructs, any word in any state with any operands, within the documented words; deliberately overwriting compiled code or the dictionary's own headers, executing internal run-time tokens by hand, printing in enormous fields and external resource exhaustion are outside.",
"No test feeds hostile or random text.",
["src/core.rs","src/output.rs","src/parser.rs","src/loader.rs","src/tools.rs","core.fth"],[("exceptions instead of panics","src/core.rs abort_with"),("text interpreter","src/core.rs parse_word parse compile_token interpret_token")],["process status","panic messages","probe program after each line"])
p("C15","Tasks are scheduled round-robin and their stacks are private",
"Whenever a task pauses, control passes to the next awake task in cyclic order, a suspended task never runs, a resumed one continues exactly where it stopped, and activating a task starts the given code there with an empty return stack while the activator continues after its own call. Each task's data, return and floating-point stacks and loop counters are unaffected by anything the other tasks do. Between two pauses exactly one task runs.",
["schedules","programs"],"All assignments of programs to the five tasks and all interleavings of pause, suspend, resume and re-activation.",
"One unit test runs two tasks through a fixed exchange.",
["src/core.rs","src/mock_vm.rs","core.fth"],[("pause/suspend/resume/activate","src/core.rs"),("per-task state","src/mock_vm.rs Task"),("halt nod stop","core.fth")],["event log written by the tasks in shared memory","per-task stacks"])
p("C16","Facilities exclude each other and ms waits at least as long as asked",
"At any time at most one task holds a facility: get returns only when the caller holds it, release frees it only for its holder, and a waiting task obtains it within one round after it is free unless another waiting task did. A task calling n ms resumes, and does so at its first turn at which at least n milliseconds have passed, other tasks running meanwhile. Execution-time measurement records the elapsed microseconds' minimum and maximum.",
["schedules"],"All task programs over get, release, pause and ms, all clock advance patterns; execution times of at least one microsecond.",
"One unit test holds one fixed two-task exchange and one fixed wait.",
["core.fth","src/facility.rs","src/core.rs","src/tools.rs"],[("get release ms","core.fth"),("virtual clock","src/mock_vm.rs advance; src/facility.rs")],["event log","holder cell","virtual clock"])
p("C17","File words behave like the file system they wrap",
"Every history of create-file, open-file, close-file, delete-file, read-file, write-file, file-size, file-position, reposition-file and resize-file gives the results, contents, sizes and positions of the same history on an ordinary file system; failures are reported as a non-zero result code and never as an exception, and leave the file unchanged. A write the file system cuts short (no room) is such a failure too: what was written of it is a beginning of the bytes, and the position stands behind that. Each open file has its own position and a closed or invalid identifier is always refused. Bytes written are the bytes read back, for every length.",
["histories","fault_sequences"],"All histories over several files and open identifiers, all access modes, including operations that must fail (missing files, directories, wrong mode, closed ids, bad addresses, no room, no free descriptor).",
"Unit tests perform single calls on /tmp paths, never histories, multiple handles or content comparison.",
["src/file_access.rs"],[("file table and ior mapping","src/file_access.rs")],["ior and results on the stack","file contents on disk","data-space contents"])
p("C18","Loading a source file equals evaluating its lines in order",
"Including a file has the same effect as typing its lines one after another, whatever the line terminators (LF, CRLF, none at the end), line lengths and empty lines, and afterwards interpretation continues exactly behind the include on the original line. Files may include files, to the documented depth, and the same file may be loaded again. A missing file or an error inside raises the exception with the failing file and line identified, and after recovery later includes work as before. A source opened by hand (open-source, load-line, close-source) yields its own lines in order, and an identifier that denotes no source is refused with -24.",
["inputs","histories","fault_sequences"],"All file contents and include trees up to depth 16, including errors at any line of any file, any number of times.",
"Unit tests load one small file; trees, terminators, errors and repetition are not covered.",
["src/loader.rs","core.fth","src/core.rs"],[("line reader","src/loader.rs load_line"),("source stack","core.fth save-source restore-source included")],["effects of each line","source position after include","error code, path and line"])
p("C19","Defining words build the data and behaviour they promise",
"Words made by create, variable, constant, 2constant, 2variable, fconstant, fvariable, defer/defer!, +field and by user-defined create ... does> words return the right address or value, own disjoint storage of the promised size, and keep their contents until stored to. Each child of a does> word runs its own parent's code on its own data. This holds however definitions are interleaved, nested and aligned.",
["programs","histories"],"All histories of defining words and uses, including misaligned free pointer, defining words that define defining words, and redefinitions.",
"Unit tests define one word at a time and read it once.",
["src/core.rs","src/float.rs","core.fth"],[("create/does>","src/core.rs define create does xdoes _does"),("library defining words","core.fth")],["values and addresses returned","contents of storage"])
p("C20","Text is parsed, stored and printed exactly as written",
"Words that take text from the source (parse-word, parse, word, char, [char], s\", .\", .(, ( and \\ comments) consume exactly their delimited text, wherever line and delimiter fall and whatever UTF-8 characters it contains, and interpretation continues right behind it. String literals return and print exactly that text. Output words (emit, type, space, spaces, cr, .\" ...) append exactly their characters once, in program order.",
["inputs","programs"],"All source lines mixing text-taking words, arbitrary (multi-byte) text, runs of blanks and tabs, missing delimiters at end of line, and output words; emit for every operand (it displays the character of the low eight bits); the blank right behind parse, word and .( belongs to their text.",
"Tests use a few ASCII snippets with single blanks.",
["src/core.rs","src/output.rs","core.fth"],[("source scanning by byte index","src/core.rs parse_word parse _skip"),("string literals","src/output.rs s_quote p_type, src/core.rs p_s_quote")],["tokens, strings and stack","output buffer","where interpretation resumes"])
p("C21","Compilation semantics: immediate, compile-only, literals and postpone",
"While compiling, a non-immediate word is appended and runs only when the definition runs, an immediate word runs at once, and literal, 2literal, fliteral, ['], [char], [ ... ] and postpone append exactly the documented run-time action. Interpreting a compile-only word raises -14 and has no effect. postpone appends the named word's compilation semantics, at any level of nesting, and execute of a token performs what the name performs.",
["programs"],"All definitions mixing ordinary, immediate and compile-only words, nested postpone, bracketed interpretation and literals.",
"One unit test each with a fixed two-word definition.",
["src/core.rs","core.fth"],[("per-word compilation semantics","src/core.rs Word, compile_token, postpone, _postpone"),("literal words","core.fth literal 2literal fliteral")],["stack and output of the resulting words","error codes"])
p("C22","The interactive program edits, recalls, evaluates and recovers faithfully",
"Whatever keys are pressed (text, multi-byte text, backspace, cursor keys, history up and down, enter), the line evaluated is exactly the line the edited buffer shows, and each line gets its output followed by ok when interpretation succeeds. After any error the message names the failing word and the reason, and the session continues with empty stacks and usable as before. Entered lines are recalled in order and at most the newest 32 non-empty lines are saved and recalled in the next session; bye and Ctrl-D end it cleanly.",
["histories","inputs"],"All key sequences and line histories at a terminal; terminal sizes wide enough for the line.",
"The interactive program has no tests at all.",
["rtf/src/main.rs","rtf/src/term.rs","rtf/rtf.fth"],[("line editor and history","rtf/src/term.rs"),("quit loop and handler","rtf/rtf.fth")],["bytes on the terminal","history file","exit status"])
p("C23","Introspection words report the state that is there and change nothing",
"The stack display shows exactly the data and floating-point stack contents, dump shows the bytes at the address given, .word names the given token, the word listing, memory report, input display, error text and execution-time report agree with the state, and a backtrace names the definitions that are active from the outermost inwards. None of them changes the stacks (beyond their own operands), the dictionary or the data space. They work after exceptions, markers and with invalid tokens too.",
["histories","inputs"],"All stack contents, all tokens (valid or not), all call nestings at which an exception is raised, before and after markers.",
"Unit tests cover two fixed .s outputs.",
["src/tools.rs","src/core.rs","src/exception.rs"],[("tools words","src/tools.rs"),("error description","src/exception.rs description")],["output buffer","stacks and data space before/after"])
p("C24","Virtual machines are independent and deterministic",
"Two machines in one process never influence each other: interleaving their lines gives each exactly the results it gives alone. The same lines on the same virtual clock always give the same stacks, outputs, errors and dictionary (addresses relative to the data space). Creating and dropping machines in any number leaks no effect into later ones.",
["programs","schedules","histories"],"All pairs of programs, all interleavings of their lines, any number of machines created and dropped, also on different host threads.",
"All unit tests use one machine at a time.",
["src/core.rs","src/memory.rs","src/mock_vm.rs"],[("all state owned by the machine","src/mock_vm.rs VM; src/memory.rs DataSpace")],["normalised state digests after every line"])
p("C25","Running Forth programs executes no undefined behaviour in the host",
"While any of the workloads of these properties runs, the Rust code performs no out-of-bounds, misaligned, uninitialised or use-after-free access, creates no invalid string or slice and overflows no checked host arithmetic, whether or not the Forth program itself is wrong. Memory owned by a machine is released when the machine is dropped.",
["inputs","programs"],"The workloads of the other properties, re-run under sanitizers and an undefined-behaviour interpreter.",
"Unit tests run natively, where undefined behaviour that happens not to crash passes.",
["src/memory.rs","src/core.rs","src/float.rs","src/output.rs"],[("unsafe data-space accessors","src/memory.rs")],["AddressSanitizer/LeakSanitizer, debug assertions and Miri reports"])
p("C26","Interpreting, compiling, executing and single-stepping agree",
"A sequence of ordinary words gives the same stacks, output, memory effects and exception whether its words are interpreted one by one, compiled into one definition, split into any nest of definitions, executed through their tokens, or the compiled code is single-stepped by the embedder. Splitting the source text over lines changes nothing.",
["programs"],"All straight-line sequences of non-parsing words with identical interpretation and execution semantics, over arbitrary operands.",
"Tests never compare two ways of running the same program.",
["src/core.rs"],[("outer interpreter","src/core.rs interpret_token compile_token evaluate_input"),("inner interpreter","src/core.rs run forth nest exit execute")],["stacks, output, memory image, error"])
p("C27","Unit words convert to SI units and are mutually consistent",
"Every unit word multiplies its operand by the exact SI factor of its unit (metre, radian, second, metres per second, radians per second, hertz) to within rounding, for every finite operand. Different spellings of the same quantity agree (60 rpm is one revolution per second, 1000 um is a mm, 180 deg is pi rad), and nothing else on the stacks changes.",
["inputs"],"All finite doubles and all unit words; where the result is subnormal, to within the spacing of subnormal numbers.",
"Unit tests use the operand 1 for each word.",
["src/units.rs"],[("conversion factors","src/units.rs")],["floating-point stack"])
p("C28","Running out of data space is an exception, not a crash, and destroys nothing",
"When a definition, comma, string or allocation does not fit in the remaining data space (or would release below its start), the operation raises a dictionary-overflow or invalid-address exception instead of terminating the host or silently continuing, and nothing is written outside. The dictionary, its existing words and the free pointer remain consistent, and space released (by marker or negative allot) is usable again.",
["histories","inputs"],"Every compiling or allocating word at every distance from the end of the data space, and allot with every operand.",
"No test fills the data space.",
["src/memory.rs","src/core.rs","src/output.rs","src/float.rs","core.fth"],[("space checks","src/memory.rs compile_* set_here allot")],["error code","process status","here, existing words"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
except ImportError:
    raise SystemExit(0)
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch); 
    s=x["statement"]; import re
    n=len(re.findall(r'[.](?:\s|$)',s)); 
    if n>3: print(x["id"],n)
print(len(P))
