TRACE = "Recorded behaviours of the real code are checked event by event by TLC against the TLA+ specification, which is itself model checked at small size. Assurance: holds on the behaviours explored (generated from VERIF_SEED and enumerated small cases), not for all inputs. Trusts TLC, gcc, and the driver programs' encoding of results."
CLAIMED = {
 "C01": ("TLA+ spec of the generational incremental collector (GC.tla) and of what the mutator sees (Heap.tla): TLC model checking; TLC-generated mutator histories replayed under eight collector configurations and validated by TLC; snapshots of the real heap checked against the specification's invariants (GCSnap.tla); outcome tables of allocation-point stress runs (Memo.tla)", TRACE),
 "C02": ("TLA+ specs GC.tla (weak blocks, weak phase) and Heap.tla (weak arrays): TLC model checking, TLC-generated weak-array histories replayed under eight collector configurations, traces and heap snapshots validated by TLC", TRACE),
 "C03": ("TLA+ spec of the core language's dynamic semantics as an abstract machine (Eval.tla), model checked against an independent natural semantics on every program of a small grammar (EvalMC.tla); outputs of random compiled and interactively typed programs validated by TLC", TRACE),
 "C04": ("TLA+ spec of first-match selection, binding and of usefulness of rows (Match.tla), model checked against enumeration of all values (MatchMC.tla); compiled matches (results on values and the warnings) validated by TLC", TRACE),
 "C08": ("TLA+ spec of ordered finite maps/sets (Coll.tla): TLC model checking, TLC-generated and random histories replayed in the eight collections, traces validated by TLC", TRACE),
 "C09": ("TLA+ spec of the mutable containers as a heap of abstract objects with aliasing (Tables.tla): TLC model checking plus TLC trace validation of recorded histories", TRACE),
 "C10": ("TLA+ spec of arrays, vectors, slices and matrices as mathematical sequences with aliasing (Arrays.tla): TLC model checking (frame conditions, copy loops); recorded operation histories over four element families validated by TLC", TRACE),
 "C11": ("TLA+ spec of integer, word, real-conversion and big-integer arithmetic by defining equations over limb sequences (Big.tla, Arith.tla): TLC model checking at small word sizes against TLC's own integers; recorded operations, literal-operand programs and IntInf histories validated by TLC", TRACE),
 "C12": ("TLA+ spec of the scanners and of the texts of numbers, truth values, characters and strings (Convert.tla, over limb arithmetic), model checked against the documented grammars for every text over an alphabet (ConvertMC.tla); results of the library functions, the program constants' readers and makestring validated by TLC", TRACE),
 "C13": ("TLA+ spec of strings, substrings, lists and sorting as sequence functions (Lists.tla): TLC model checking (windows, laws); recorded operation histories validated by TLC", TRACE),
 "C15": ("TLA+ spec of values as graphs with canonical forms, writing, reading, equality and hashing (Values.tla): TLC model checking; recorded histories over random and large graphs, in native, compact and foreign formats, validated by TLC", TRACE),
 "C14": ("TLA+ specs of buffered channels (BufIO.tla, refinement to a position in a file) and of files, pipes and streams (StreamIO.tla): TLC model checking; recorded histories of stream operations validated by TLC", TRACE),
 "C16": ("TLA+ spec of longest-match lexing by derivatives of the rules (Lex.tla), model checked against the languages by definition (LexMC.tla); runs of lexers generated by mosmllex over chunked inputs validated by TLC", TRACE),
 "C17": ("TLA+ spec of LALR(1) parsing with precedence (Lalr.tla: the automaton by its defining fixpoints, and the machine), model checked against languages and operator trees (LalrMC.tla); runs of parsers generated by mosmlyac validated by TLC", TRACE),
 "C18": ("TLA+ spec of table files, transactions, locks and operations of several processes (Dbm.tla), model checked (DbmMC.tla); histories of one and two processes on Gdbm and Polygdbm tables validated by TLC", TRACE),
 "C22": ("TLA+ spec of callbacks as a stack of C and ML frames over a registry (Callback.tla), refined by the interpreter's registers (CallbackMC.tla: jump buffers, C roots, traps), model checked by TLC; histories of nested calls, raises and collections through a C library validated by TLC", TRACE),
 "C23": ("TLA+ spec of POSIX regular expressions as the set of all parses from a position, and of the decomposition functions (Regex.tla), model checked against derivatives (RegexMC.tla); results of random expressions, flags and strings validated by TLC", TRACE),
 "C27": ("TLA+ spec of streams, datagrams, addresses and readiness (Sock.tla), model checked for exactly-once ordered delivery (SockMC.tla); histories of operations on Unix domain and loopback sockets validated by TLC", TRACE),
 "C25": ("TLA+ spec of a Unix file tree with links, permissions and a current directory (Fs.tla) and of paths by the places they denote (Paths.tla), model checked (FsMC.tla, PathsMC.tla); histories of FileSys operations in scratch trees and the results of the Path functions validated by TLC", TRACE),
 "C26": ("TLA+ spec of the Gregorian calendar, time zones with daylight saving rules, date texts and microsecond times (Cal.tla), model checked against a calendar counted day by day (CalMC.tla); histories of Date and Time operations in eight time zones validated by TLC", TRACE),
 "C20": ("TLA+ spec of program termination as an abstract machine with exit actions, handlers, nested exits and child processes (Exit.tla), model checked (ExitMC.tla: actions at most once, latest first, exits do not return); output, messages and exit codes of random programs, run as processes, validated by TLC", TRACE),
}
NOT_APPLICABLE = {}
