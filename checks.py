"""Per-property configuration of the driver."""

TECH = {}
PROPS = {}


def prop(pid, technique, rule, secs=(20, 300), **kw):
    PROPS[pid] = dict(rule=rule, secs=secs, **kw)
    TECH[pid] = technique


prop("C01", "online reference monitor: every integer word's observed stack effect is compared with a 128-bit arithmetic model",
     "a case evaluates every integer word on operand pairs that walk a 500x500 boundary cross product or are drawn at random, "
     "interpreted, inside a definition, as text literals and as compiled literals, above a random stack; distinct = operand pair and mode")
prop("C02", "online reference monitor: a probe primitive reports all three complete stacks after every single word, compared with a list model",
     "a case runs random sequences of stack words at chosen depths (0..64) of all three stacks, interpreted and inside definitions, "
     "every intermediate state compared; distinct = hash of (word, depths) sequences")
prop("C03", "online reference monitor: a depth automaton for every stack predicts which boundary slots were crossed and written; the exception after every line is checked against it",
     "a case runs straight-line and looping programs that walk the four stacks to, over and under their boundaries (0, 63..66, -1..), "
     "interpreted and compiled, recovers and refills to 64; distinct = hash of program text")
prop("C04", "address-space monitor: the whole data space is compared byte for byte around every operation on hostile addresses, with a range model as oracle, also under AddressSanitizer",
     "a case applies every memory, text, file and path word to address/length operands at, around and far from both ends of the data space "
     "and near the end of the address range; distinct = hash of (word, operand classes)",
     kinds=["dev", "rel", "asan", "rtfvm"], secs=(25, 300))
prop("C05", "online reference monitor: a byte-array model with one allocation pointer is run beside the machine and the whole data space compared after every line",
     "a case runs 60 lines of random memory operations (stores, fetches, overlapping moves, fills, allots, word) at unaligned addresses, "
     "interpreted and compiled; distinct = hash of the operation sequence")
prop("C06", "offline trace check: events reported by the running program are compared with those of a structured interpreter of the same random syntax tree",
     "a case generates up to ten definitions from the whole control-structure grammar (nested ifs, cases, begin loops, counted loops with boundary "
     "limits and steps, leave, unloop exit, recursion, return-stack blocks, label programs with goto and call), compiles them and runs each twice; "
     "distinct = hash of the event sequence")
prop("C07", "online reference monitor: a typed control-stack automaton predicts acceptance; every refusal is followed by checks of lookup, listing, earlier words and the next definition",
     "a case feeds 25 definitions of random, well-formed and damaged structure-word sequences (also around the 64-level capacity and with labels), "
     "on one or several lines; distinct = hash of the structure sequence")
prop("C08", "online reference monitor: a list of definitions in completion order predicts every lookup, tick, execution, compilation and the whole word listing",
     "a case runs a history of 60 definitions, redefinitions, abandoned definitions and users of older ones over names with equal hash values, "
     "shared buckets, prefixes, numerals, long and non-ASCII names in mixed case; distinct = hash of (name, history length)")
prop("C09", "online reference monitor: snapshots of the dictionary taken at each marker are compared with the state after it runs",
     "a case runs 80 steps of definitions, allotments, abandoned definitions, stores, nested and reused markers, running markers directly, by token, "
     "from inside a removed definition; distinct = hash of the visible dictionary")
prop("C10", "online reference monitor: an independent recogniser of number texts gives the value or the refusal expected of every token, interpreted and compiled, in every base",
     "a case feeds tokens built from the number grammar (prefixes, signs, digits at and over the base, quoted characters, cell-boundary magnitudes, "
     "garbage) in bases 2..36 and compares value, refusal and base afterwards; distinct = hash of (token, base)")
prop("C11", "online reference monitor: float words and float texts compared bit for bit with IEEE double arithmetic and an independent reader of decimal texts",
     "a case evaluates every float word on operands from all classes (zeros, subnormals, infinities, NaNs, halves, cell boundaries, random), "
     "interpreted and compiled, converts between cells and floats, and reads decimal literals; distinct = hash of operands and words")
prop("C12", "online reference monitor: an independent formatter predicts every printed character; printed numbers are fed back to the interpreter",
     "a case prints integers and floats in random bases and field widths with every number-output word and reads the text back; "
     "distinct = hash of (word, value, base, width)")
prop("C13", "trace monitor: events, output and memory effects of generated programs are compared with the prefix that precedes the raise point; a second machine that never failed is the oracle for everything after recovery",
     "a case runs 14 rounds of a random call tree (calls, loops, execute, deferred, does>, included files, nested text evaluation, lines) with one raising point of "
     "54 kinds, with no, primitive and colon handlers, then compares later programs and fault storms; distinct = hash of (line, handler)")
prop("C14", "process and result monitor over hostile text: panics, signals, CPU-time limits and step budgets are watched in checked and optimised builds; a probe program runs after every recovery",
     "a case evaluates 50 lines of token soup over every word of the system, balanced and damaged definitions, deep nesting, hostile files, bases, addresses and characters, "
     "mutated at character level; distinct = hash of the line", secs=(30, 400))
prop("C15", "trace monitor: the recorded (task, value) log and the final stacks of all tasks are compared with an independent cooperative scheduler running the same random programs",
     "a case compiles 8 rounds of random task programs (pause inside loops, calls and return-stack blocks, suspend, resume, stop, halt, restart of running tasks, programs run while "
     "the operator compiles) and compares every event, all stacks and wakefulness; distinct = hash of the event sequence")
prop("C16", "offline trace checker: mutual exclusion, hand-over within a round, holder identity, lower and upper bounds of waits, and recorded execution times are checked over the event log on the virtual clock",
     "a case runs 8 random deadlock-free programs of 2..5 tasks nesting up to three facilities with pauses, waits of all lengths and clock ticks at random points; distinct = hash of the event sequence")
prop("C17", "online reference monitor: an in-memory file system with inodes and open-file descriptions predicts every result; file contents on disk are compared with it as well",
     "a case runs a history of 120 file operations over 7 names and any number of open files, with all access methods, boundary lengths and positions, closed and invalid identifiers, "
     "bad operands, long and impossible paths; distinct = hash of the operation sequence")
prop("C18", "differential trace monitor: a machine that includes generated files is compared, event by event and definition by definition, with one that is fed the same lines; a handler reports file and line of errors",
     "a case writes up to 24 files (all line terminators, lines up to 20 kB, UTF-8, unfinished comments, definitions over several lines, nested and repeated includes, errors, skips), "
     "loads them in many ways, and chains of depth 14, self-inclusion, damaged and missing files; distinct = hash of the event sequence")
prop("C19", "online reference monitor: a model of every defined object (class, address, size, contents, action) is compared with every use of it and with the data space",
     "a case runs a history of 160 steps: all defining words, user defining words over twelve actions (built on each other, attached late, replaced, children that define children), "
     "structures, deferred words, redefinitions, at any alignment, used by name, token and from old definitions; distinct = hash of (use, objects so far)")
prop("C20", "online reference monitor: lines are built from fragments whose strings, values and output are known by construction; a probe reports every string, and all output is compared",
     "a case evaluates 60 one-line and multi-line sources mixing every text-taking word, literals, comments and output words, in and outside definitions, with arbitrary multi-byte text, "
     "blanks and missing delimiters; distinct = hash of the source text")
prop("C21", "online reference monitor: words are modelled as operation lists built by compiling, postponing and literals; all events while compiling and running are compared with them",
     "a case builds 70 definitions from ordinary, immediate, compile-only and data words, postponing at any level (of structure words, literals, postpone itself), brackets and tokens, on one or many lines, "
     "and interprets every compile-only word; distinct = hash of the definition")
prop("C26", "differential monitor: stacks, output, memory, base and exception of one program are compared over fifteen ways of running it",
     "a case grows 14 straight-line programs of up to 50 words on random operands and runs each interpreted (by lines, words, tokens, single steps), compiled, as a nest of definitions "
     "(calls, tokens, deferred, does>, postponed), stepped by the embedder and half compiled; distinct = hash of the program")
prop("C24", "differential monitor: digests of the complete state after every line (address-normalised stacks, output, dictionary, whole data space, tasks, clock) are compared between solo, repeated, interleaved and multi-threaded runs",
     "a case runs 2..4 programs of up to 60 lines over all parts of the system (definitions, exceptions, handlers, markers, tasks, files, includes) alone, twice, interleaved twice in random order "
     "with machines created and dropped meanwhile, and each on its own thread; distinct = final digest")
prop("C23", "online reference monitor: every display is compared with the text a model of the stacks, active definitions, dictionary, free pointer, error and times predicts, and full snapshots before and after with each other",
     "a case runs 90 steps of definitions, redefinitions, markers, values, nested programs displaying themselves at any depth (calls, tokens, loops, return-stack items), exceptions with a reporting handler "
     "below chains of callers, errors of the line, tasks, measured times and invalid tokens; distinct = hash of the program text")
prop("C27", "online reference monitor: every conversion is compared with the exact factor and with the other spellings of the same quantity; both stacks below the operand are compared",
     "a case converts 500 operands (round numbers, random doubles of the whole range, subnormals, extremes, signed zeros) by every unit word, interpreted, compiled, by token, upper case, "
     "and compares 15 pairs of units; distinct = hash of (word, operand)")
prop("C28", "differential and address-space monitor: every operation runs once with plenty of room and once with k free bytes; acceptance, results, free pointer, listing and all bytes below the free pointer are compared; also under AddressSanitizer",
     "a case runs 50 rounds of generated definitions, data words, allots with every operand, endless compiling loops and long histories at every distance from the end of the data space, then releases the space by markers; "
     "distinct = hash of (operation, free bytes)", kinds=["dev", "asan", "rtfvm"], secs=(25, 300))
prop("C25", "sanitizers and undefined-behaviour interpreter: the workloads of all other properties and hostile text (with stores over headers and code) run with checked arithmetic, under AddressSanitizer/LeakSanitizer and under Miri; "
     "an allocation counter accounts for dropped machines; all strings of a machine are checked for valid UTF-8",
     "a case runs one case of another property's workload, or 120 hostile lines of which half store anywhere in the data space, or drops four machines and accounts for their memory; distinct = case",
     kinds=["dev", "asan", "rtfvm"], secs=(30, 300), extra=["c25_miri"])
prop("C22", "online reference monitor on a pseudo-terminal: a terminal emulator shows what the user sees after every key; a model of the line editor, of a language subset and of the history file predicts it",
     "a case runs 1..3 sessions of the real program on a pseudo-terminal (random size, arguments, prior history file): typing with slips, corrections, cursor movement, multi-byte and wide characters, pasting, "
     "recall and editing of earlier lines, failing lines, errors in included files, options, both ways of ending; distinct = case",
     kinds=["rtf"], secs=(25, 300), extra=["c22"])
