#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Garbage collection is invisible to programs",
 "Whatever a program allocates, shares, mutates and drops, and whenever minor collections, major slices and full major collections happen (any minor-heap size, heap increment and space overhead), every value still reachable keeps its contents, its sharing and the identity of its mutable cells. The output of a program does not depend on the collector configuration.",
 ["histories", "schedules", "configurations"],
 "every history of allocation, mutation, dropping of references and collection steps; every collector configuration; every interleaving of mutator and incremental collector",
 "Tests run a few programs under the default collector setting, so a lost barrier or wrong colour only shows when a store meets one particular phase of the incremental collector.",
 ["src/runtime/major_gc.c", "src/runtime/minor_gc.c", "src/runtime/memory.c", "src/runtime/memory.h", "src/runtime/freelist.c", "src/runtime/roots.c", "src/runtime/alloc.c", "src/runtime/gc_ctrl.c", "src/runtime/stacks.c"],
 [("write barrier (remembered set + snapshot darkening)", "src/runtime/memory.h Modify"), ("promotion", "src/runtime/minor_gc.c oldify"), ("incremental mark/sweep", "src/runtime/major_gc.c"), ("free list", "src/runtime/freelist.c")],
 [("gc_phase", "mark / weak / sweep", "src/runtime/major_gc.c"), ("ref_table", "old-to-young pointers", "src/runtime/minor_gc.c"), ("gray_vals", "mark stack", "src/runtime/major_gc.c")],
 ["program output", "CAMLRUNPARAM v=1 collector event stream"])

prop("C02", "Weak pointers never dangle and never lose a live target",
 "A weak pointer (or weak-array element) to a value that the program still reaches strongly always yields exactly that value, whatever collections happen; when it is reported dead, no strong reference existed and reading it raises an exception. It never yields any other or a reclaimed value, iteration over a weak array visits exactly the live elements in index order, and a value only weakly reachable is dead after full major collections.",
 ["histories", "schedules"],
 "every history of weak and strong reads, writes, drops and collection steps, at every phase of the incremental collector",
 "weak.sml samples one history after forced allocation; the read/mark/weak/sweep phase races are not enumerated.",
 ["src/mosmllib/Weak.mlp", "src/runtime/mosml.c", "src/runtime/major_gc.c"],
 [("weak phase", "src/runtime/major_gc.c weak_phase"), ("weak_sub/weak_isdead", "src/runtime/mosml.c"), ("Weak library", "src/mosmllib/Weak.mlp")])

prop("C03", "Compiled programs evaluate as the dynamic semantics says",
 "Running a well-typed core-language program, compiled or typed at the interactive system, produces the effects and result that Standard ML's dynamic semantics assigns to it: call-by-value with left-to-right evaluation, closures, recursion (including mutual and in tail position), curried application, references, records, strings, integer arithmetic and structural equality, raise/handle with generative exceptions, sequencing and loops. Moscow ML's own rule that all arguments of one curried application are evaluated before the first call is part of the semantics.",
 ["programs"],
 "every well-typed closed core-language program",
 "The golden transcripts sample some hundred hand-written expressions; code generation depends on context (tail position, arity, free variables, stack depth, handler nesting) that they do not combine.",
 ["src/compiler/Front.sml", "src/compiler/Back.sml", "src/compiler/Emitcode.sml", "src/compiler/Tr_env.sml", "src/compiler/Elab.sml", "src/runtime/interp.c", "src/runtime/expand.c", "src/runtime/compare.c", "src/runtime/fail.c"],
 [("lambda translation", "src/compiler/Front.sml"), ("bytecode generation", "src/compiler/Back.sml"), ("abstract machine", "src/runtime/interp.c")])

prop("C04", "Pattern matching selects the first matching rule; warnings are exact",
 "For every list of rules and every value, case, fn, fun clauses and handle select exactly the first rule whose pattern matches, bind its variables to the right parts, and raise Match (or re-raise, in a handler; Bind in val) iff none matches. Outside exception patterns the compiler warns that a match is not exhaustive iff some value of the type matches no rule, and warns that a rule is unused iff no value reaches it.",
 ["programs", "inputs"],
 "every pattern matrix over datatypes, tuples, records, constants, layered and reference patterns, and every value of the matched type",
 "testmatc.sml fixes a few dozen matches; the decision-tree compiler is a function of the whole matrix.",
 ["src/compiler/Match.sml", "src/compiler/Front.sml", "src/compiler/Back.sml"],
 [("decision tree construction", "src/compiler/Match.sml"), ("switch compilation", "src/compiler/Back.sml"), ("warnings", "src/compiler/Front.sml")])

prop("C05", "Type inference accepts exactly typable code, with principal types",
 "A core-language declaration is accepted iff the Standard ML type system types it, and the type reported for each variable is its principal type scheme (up to renaming of type variables). This includes let-polymorphism under the value restriction, equality type variables, the occurs check and explicit type constraints.",
 ["programs"],
 "every core-language expression over variables, functions, let, tuples, lists, references, equality, conditionals, constraints",
 "Golden transcripts list the types of fixed declarations; generalisation bugs (levels, value restriction, equality attributes) depend on nesting they do not sample.",
 ["src/compiler/Types.sml", "src/compiler/Elab.sml", "src/compiler/Synchk.sml"],
 [("unification and levels", "src/compiler/Types.sml"), ("expression elaboration", "src/compiler/Elab.sml")])

prop("C06", "Only mutually consistent compiled units are linked",
 "After any sequence of edits, compilations, deletions and links of compilation units, the linker builds a program iff every unit it needs has compiled code and each unit was compiled against exactly the interfaces of the units now being linked; otherwise it reports an error and builds nothing. The program built contains each needed unit once, initialised in dependency order (units named explicitly in the order given), and runs the code last compiled for each unit.",
 ["histories"],
 "every history of edit / compile signature / compile structure / link steps over unit dependency graphs",
 "No test compiles a unit twice; stale-interface histories are never exercised.",
 ["src/compiler/Link.sml", "src/compiler/Units.sml", "src/compiler/Compiler.sml", "src/compiler/Patch.sml", "src/compiler/Symtable.sml", "src/compiler/Mainl.sml", "src/compiler/Mainc.sml", "src/compiler/Emit_phr.sml"],
 [("interface stamps", "src/compiler/Units.sml"), ("link-time stamp check", "src/compiler/Link.sml")])

prop("C07", "Interactive session: each phrase takes full effect or none",
 "In an interactive session, identifiers always denote the latest successful binding; a phrase that fails to lex, parse or type-check binds nothing and has no effect, and a declaration whose evaluation raises binds nothing from that declaration while completed side effects and earlier phrases of the same input remain. Earlier closures keep the bindings they captured, fixity directives are scoped to the session (or their let/local/structure body), and use/load behave as if the text or unit had been entered at that point, with a failing use abandoning the rest of that file.",
 ["histories"],
 "every sequence of top-level phrases, including failing ones at every position",
 "Transcripts contain few failing phrases and never probe the environment afterwards.",
 ["src/compiler/Smltop.sml", "src/compiler/Maint.sml", "src/compiler/Exec_phr.sml", "src/compiler/Rtvals.sml", "src/compiler/Symtable.sml", "src/compiler/Infixst.sml", "src/compiler/Infixres.sml", "src/compiler/Compiler.sml", "src/compiler/Units.sml"],
 [("toplevel loop", "src/compiler/Smltop.sml"), ("per-phrase commit of static environments", "src/compiler/Compiler.sml"), ("infix basis", "src/compiler/Infixst.sml")])

prop("C08", "Applicative maps and sets behave as ordered finite maps and sets",
 "Binarymap, Splaymap, Redblackmap, Intmap, Binaryset, Splayset, Intset and Rbset: every value reached by any sequence of operations behaves as a finite map or set over the given key ordering - lookup, insert, remove/delete, size, ordered listing, iteration, folds, mapping, subset/equality/union/intersection/difference, min/max/intervals/compare - and missing keys raise NotFound. No operation changes any previously obtained map or set.",
 ["histories"],
 "every sequence of operations over every collection of earlier versions, every key set and insertion order, every total order",
 "The suite has no tests for most of these units, and tree rebalancing cases depend on the operation history.",
 ["src/mosmllib/Binarymap.sml", "src/mosmllib/Splaymap.sml", "src/mosmllib/Splaytree.sml", "src/mosmllib/Redblackmap.sml", "src/mosmllib/Intmap.sml", "src/mosmllib/Binaryset.sml", "src/mosmllib/Splayset.sml", "src/mosmllib/Intset.sml", "src/mosmllib/Rbset.sml"],
 [("balanced trees", "src/mosmllib/Binaryset.sml"), ("red-black trees", "src/mosmllib/Rbset.sml, Redblackmap.sml"), ("splay trees", "src/mosmllib/Splaytree.sml"), ("Patricia/weight-balanced int trees", "src/mosmllib/Intmap.sml, Intset.sml")])

prop("C09", "Mutable tables, dynamic arrays and buffers keep their abstract contents",
 "Polyhash tables, Hashset sets, Dynarray arrays, Buffer buffers and Susp suspensions: after any sequence of operations the observable contents equal those of the abstract finite map, set, infinite array with default, string or memoised value, independent of growth, collisions and copies. Copies and derived containers are independent of the original, failed lookups raise the documented exception and change nothing, and a suspension is evaluated at most once.",
 ["histories"],
 "every operation sequence, with every pattern of hash collisions, growth and removal",
 "polyhash.sml checks a handful of operations without growth; Hashset, Dynarray, Buffer and Susp have no tests.",
 ["src/mosmllib/Polyhash.sml", "src/mosmllib/Hashset.sml", "src/mosmllib/Dynarray.sml", "src/mosmllib/Buffer.sml", "src/mosmllib/Susp.sml", "src/runtime/hash.c"],
 [("hash tables with chaining and growth", "src/mosmllib/Polyhash.sml, Hashset.sml"), ("growing arrays", "src/mosmllib/Dynarray.sml"), ("string buffer", "src/mosmllib/Buffer.sml")])

prop("C10", "Arrays, vectors and slices are bounds-safe sequences",
 "For Array, Vector, CharArray, CharVector, Word8Array, Word8Vector, Array2 and the slice structures, every operation returns and leaves exactly the contents that the mathematical sequence operation gives, including copies whose source and destination overlap; element, range and size arguments out of bounds raise Subscript or Size, and then nothing has been changed. Vectors never change.",
 ["histories", "inputs"],
 "every sequence of operations over aliased arrays, slices and all (also out-of-range) indices",
 "The basis tests use a few fixed indices per function; overlap, aliasing and boundary combinations are sampled, not covered.",
 ["src/mosmllib/Array.mlp", "src/mosmllib/Vector.mlp", "src/mosmllib/ArraySlice.sml", "src/mosmllib/VectorSlice.sml", "src/mosmllib/Word8Array.mlp", "src/mosmllib/Word8Vector.mlp", "src/mosmllib/Word8ArraySlice.sml", "src/mosmllib/Word8VectorSlice.sml", "src/mosmllib/CharArray.sml", "src/mosmllib/CharVector.sml", "src/mosmllib/CharArraySlice.sml", "src/mosmllib/CharVectorSlice.sml", "src/mosmllib/Array2.sml", "src/runtime/str.c"],
 [("bounds checks and overlap-safe copy", "src/mosmllib/Array.mlp, ArraySlice.sml, Word8Array.mlp"), ("blit", "src/runtime/str.c")])

prop("C11", "Integer and word arithmetic is exact or raises Overflow/Div",
 "Int operations return the mathematically exact result or raise Overflow iff it is not a representable 63-bit integer (Div iff the divisor is zero), with div/mod rounding towards minus infinity and quot/rem towards zero. Word and Word8 operations, shifts, bitwise operations and conversions are exact modulo 2^63 and 2^8, whether operands are constants or variables; floor, ceil, trunc and round of a real are the exact integers or raise Overflow; IntInf operations (arithmetic, division, powers, comparison, text conversion) are exact on integers of any size.",
 ["inputs"],
 "every operand pair and shift count, including boundary values; arbitrary-size integers",
 "Tests use a few dozen operand pairs written for 31-bit integers; multiplication overflow and sign/boundary combinations are sampled only.",
 ["src/runtime/interp.c", "src/runtime/ints.c", "src/runtime/mosml.c", "src/mosmllib/Int.mlp", "src/mosmllib/Word.mlp", "src/mosmllib/Word8.sml", "src/dynlibs/intinf/IntInf.sml", "src/dynlibs/intinf/intinf.c", "src/compiler/Front.sml", "src/compiler/Smlprim.sml", "src/compiler/Smlperv.sml"],
 [("checked arithmetic instructions", "src/runtime/interp.c"), ("word masks", "src/mosmllib/Word.mlp, Word8.sml"), ("GMP glue", "src/dynlibs/intinf/intinf.c")])

prop("C12", "Text conversions round-trip and scan exactly the documented syntax",
 "For Int, Word, Word8, Real, Bool, Char, String and the StringCvt functions: the text of a value (in any radix or real format, and as makestring and the interactive system print it) denotes that value (reals: correctly rounded to the digits asked for, for any number of them up to 400), and scanning any text, from any character source, accepts exactly the longest prefix in the documented syntax, returns its value (reals: up to a relative error of 2^-44) and leaves the rest untouched (NONE otherwise, Overflow when the number does not fit). Numeric constants in programs denote their value or are refused when it does not fit. Character and string escapes, classification, padding and splitting follow the same rule.",
 ["inputs"],
 "every value, every radix and format, every input text",
 "Tests convert a few samples; the scanners are automata over unbounded input.",
 ["src/mosmllib/Int.mlp", "src/mosmllib/Word.mlp", "src/mosmllib/Word8.sml", "src/mosmllib/Real.sml", "src/mosmllib/Bool.sml", "src/mosmllib/Char.sml", "src/mosmllib/String.sml", "src/mosmllib/StringCvt.sml", "src/mosmllib/Strbase.mlp", "src/runtime/mosml.c"],
 [("scan functions", "src/mosmllib/Int.mlp, Word.mlp, Real.sml, StringCvt.sml"), ("escape conversion", "src/mosmllib/Strbase.mlp, Char.sml"), ("number texts and constants", "src/runtime/mosml.c")])

prop("C13", "Strings, substrings and lists: library functions compute what they say",
 "Substring, String, List, ListPair, Listsort and Arraysort functions return, for all arguments, the result of the corresponding operation on mathematical sequences: substrings always denote a window inside their base string, sorting yields an ordered permutation, and out-of-range arguments raise Subscript, Empty or UnequalLengths. Functional arguments are applied to the elements in the documented order.",
 ["inputs", "histories"],
 "every string, list, window, index (also out of range), order and predicate",
 "Each function is tested on a few literals; the combination of window offsets, empty cases and boundaries is not enumerated.",
 ["src/mosmllib/Substring.sml", "src/mosmllib/String.sml", "src/mosmllib/Strbase.mlp", "src/mosmllib/List.sml", "src/mosmllib/ListPair.sml", "src/mosmllib/Listsort.sml", "src/mosmllib/Arraysort.sml"],
 [("window arithmetic", "src/mosmllib/Substring.sml"), ("sorting", "src/mosmllib/Listsort.sml, Arraysort.sml")])

prop("C14", "Stream I/O delivers exactly the bytes of the file, in order",
 "For text, binary and basic streams on files: a sequence of reads, peeks, line reads, seeks and position queries on an input stream returns exactly the file's bytes in order with correct end-of-stream answers, and after flush or close a file contains exactly the bytes written, at the positions written, in order; lookahead and canInput consume nothing. This holds for every buffer-boundary alignment and interleaving of streams; operations on closed streams behave as documented, and a failed operation raises Io or SysErr.",
 ["histories", "inputs"],
 "every sequence of stream operations over several open streams, at every alignment with the 4096-byte buffer",
 "textio.sml reads and writes a few small files; buffer refill boundaries and seek-inside-buffer cases are hardly reached.",
 ["src/runtime/io.c", "src/runtime/io.h", "src/runtime/sys.c", "src/mosmllib/BasicIO.sml", "src/mosmllib/Nonstdio.sml", "src/mosmllib/TextIO.sml", "src/mosmllib/BinIO.sml"],
 [("channel buffers", "src/runtime/io.c"), ("stream layer", "src/mosmllib/TextIO.sml, BinIO.sml, BasicIO.sml, Nonstdio.sml")])

prop("C15", "Externalised values, equality and hashing respect value structure",
 "Writing any data value (any mix of constructors, tuples, strings, reals, references, arrays, with any sharing and cycles) and reading it back yields an isomorphic value with the same sharing and cycles, also for several values written to one stream, and for values written by machines of the other word size or byte order; values containing functions or abstract objects are rejected. Polymorphic equality of acyclic data decides structural equality (references and arrays by identity), and polymorphic hash values agree on equal data whatever mutable cells contain.",
 ["inputs"],
 "every finite object graph and pair of object graphs",
 "No test writes shared or cyclic structure; sizes that switch block/offset encodings are never reached.",
 ["src/runtime/extern.c", "src/runtime/externcp.c", "src/runtime/intern.c", "src/runtime/interncp.c", "src/runtime/hash.c", "src/runtime/mosml.c", "src/mosmllib/Nonstdio.sml"],
 [("graph writer with sharing table", "src/runtime/extern.c, externcp.c"), ("reader/relocation", "src/runtime/intern.c"), ("sml_equal", "src/runtime/mosml.c")])

prop("C16", "Generated lexers take the longest match, earliest rule first",
 "For every mosmllex specification and input, the generated lexer repeatedly recognises the longest prefix matching any rule of the current entry point (the earliest rule among equals), runs that rule's action with the correct lexeme and positions, continues directly after it, and fails with the documented exception when no rule matches. The result does not depend on how the input is delivered to the lexer buffer.",
 ["programs", "inputs"],
 "every lexer specification (classes, alternation, repetition, named regexps, eof, several mutually recursive rules), every input, every chunking",
 "lex/test compiles two small specifications and never runs them.",
 ["src/lex/Lexgen.sml", "src/lex/Output.sml", "src/lex/Scanner.lex", "src/lex/Grammar.grm", "src/lex/Gram_aux.sml", "src/mosmllib/Lexing.sml", "src/runtime/lexing.c"],
 [("regexp to DFA", "src/lex/Lexgen.sml"), ("table/automaton output", "src/lex/Output.sml"), ("buffer refill", "src/mosmllib/Lexing.sml")])

prop("C17", "Generated parsers accept exactly their grammar and run actions in order",
 "For every LALR(1) grammar given to mosmlyac (with precedence and associativity declarations), the generated parser accepts exactly the token sequences derivable under the documented disambiguation rules, runs the semantic action of each production exactly once in bottom-up left-to-right order with the right attribute values, and raises a parse error at the first token that cannot continue any derivable sequence.",
 ["programs", "inputs"],
 "every grammar in a bounded family and every token sequence up to a bound",
 "test/mosmlyac runs one calculator-like grammar on one input.",
 ["src/mosmlyac/lr0.c", "src/mosmlyac/lalr.c", "src/mosmlyac/mkpar.c", "src/mosmlyac/closure.c", "src/mosmlyac/warshall.c", "src/mosmlyac/output.c", "src/mosmlyac/reader.c", "src/mosmllib/Parsing.sml", "src/runtime/parsing.c"],
 [("LALR lookaheads", "src/mosmlyac/lalr.c"), ("conflict resolution", "src/mosmlyac/mkpar.c"), ("table packing", "src/mosmlyac/output.c"), ("parse engine", "src/runtime/parsing.c, src/mosmllib/Parsing.sml")])

prop("C18", "Gdbm/Polygdbm databases are persistent finite maps",
 "A Gdbm or Polygdbm table behaves as a finite map from keys to data under any sequence of insert, remove, find, peek, hasKey, listing, folding, opening (read, write, create) and closing; after closing and reopening, also by another process or when the process ended in the middle of a transaction, the contents are unchanged. A table is open for writing in one place or for reading in any number; withtable(s) closes what it opened however the transaction ends. Operations on missing or already present keys, closed tables and wrongly opened tables raise the documented exceptions and change nothing.",
 ["histories"],
 "every sequence of operations including close/reopen in any mode, any byte strings as keys and data",
 "testgdbm.sml runs one scripted session.",
 ["src/mosmllib/Gdbm.sml", "src/mosmllib/Polygdbm.sml", "src/dynlibs/mgdbm/mgdbm.c"],
 [("Gdbm glue", "src/dynlibs/mgdbm/mgdbm.c"), ("table state", "src/mosmllib/Gdbm.sml")])

prop("C19", "Signature matching and functors enforce abstraction and generativity",
 "Matching a structure against a signature succeeds iff every specified component is present with a matching (or more general) type or definition, and then exposes exactly the specified components, with the structure's values; opaque matching makes types distinct from their implementation while transparent matching keeps them, and each application of a generative functor yields new abstract types and exceptions. Component access, open, include, where type and sharing resolve to the right component at compile time and at run time.",
 ["programs"],
 "every structure/signature/functor program in a bounded family",
 "Golden transcripts fix a few dozen module programs; coercion layout depends on the order and subset of components.",
 ["src/compiler/Elab.sml", "src/compiler/Sigmtch.sml", "src/compiler/Types.sml", "src/compiler/Asyntfn.sml", "src/compiler/Front.sml"],
 [("signature matching", "src/compiler/Types.sml, Sigmtch.sml"), ("run-time coercions", "src/compiler/Front.sml, Elab.sml")])

prop("C20", "Process termination: exit actions, flushing and status are exact",
 "However a program ends (normal end, OS.Process.exit, terminate, uncaught exception, also from within handlers and exit actions), each registered exit action runs at most once, in reverse order of registration, exactly when the kind of termination calls for it; buffered standard output is delivered and the exit status and diagnostic message are the documented ones. Child processes started by the system interface report their true status and deliver their output completely.",
 ["histories"],
 "every program history of registering actions, output, and termination events, including exits and exceptions raised inside exit actions",
 "process.sml cannot end its own process, so termination paths are untested.",
 ["src/mosmllib/Process.mlp", "src/mosmllib/BasicIO.sml", "src/runtime/main.c", "src/runtime/sys.c", "src/runtime/fail.c", "src/runtime/interp.c", "src/mosmllib/Unix.sml", "src/dynlibs/munix/munix.c"],
 [("exit actions", "src/mosmllib/Process.mlp, BasicIO.sml"), ("top-level exception handling", "src/runtime/main.c")])

prop("C21", "Operator fixity: expressions parse according to the fixities in scope",
 "Every sequence of atoms and infix operators (in expressions, patterns and fun clauses) is parsed as the unique tree given by the precedences and associativities in scope, function application binding tightest; op removes infix status, and sequences that are malformed or mix left and right operators of equal precedence are rejected. infix, infixr and nonfix take effect from that point to the end of their scope.",
 ["programs"],
 "every operator/atom sequence under every fixity environment",
 "Tests only use the built-in operators.",
 ["src/compiler/Infixres.sml", "src/compiler/Infixst.sml", "src/compiler/Parser.grm"],
 [("operator precedence resolution", "src/compiler/Infixres.sml")])

prop("C22", "ML functions registered for C callbacks stay callable and correct",
 "A function registered for use from C is found by C under its name until it is unregistered, calling it from C with any number of arguments yields the same result as calling it in ML, even if collections happen before or during the call and calls nest; exceptions it raises pass through the C code to the nearest enclosing ML handler, leaving the ML program and the values it holds undisturbed. Registering a name that is in use fails and unregistered names are unavailable. C functions registered or loaded from a library receive and return exactly the values passed, and a closed library raises Closed.",
 ["histories", "schedules"],
 "every sequence of register / unregister / call / nested call / raise / collect steps",
 "testcallback.sml registers a few functions once.",
 ["src/runtime/callback.c", "src/mosmllib/Callback.sml", "src/runtime/interp.c", "src/mosmllib/Dynlib.sml", "src/runtime/dynlib.c"],
 [("callback", "src/runtime/callback.c"), ("registry", "src/mosmllib/Callback.sml")])

prop("C23", "Regular expression matching finds the leftmost-longest match",
 "Regex: a match succeeds iff the string (or substring, up to its own end) contains a substring in the pattern's language, and the reported match is the leftmost such substring, longest among those; anchors, compile and match flags are respected, the match vector has one entry for each group, showing what the group matched in some parse, and the derived functions (splitting into fields and tokens, replacing, mapping and folding over matches) are determined by the successive leftmost matches. Malformed patterns raise Regex.",
 ["inputs"],
 "every extended regular expression and string in a bounded family",
 "testregex.sml checks some fixed pattern/string pairs.",
 ["src/mosmllib/Regex.sml", "src/dynlibs/mregex/mregex.c"],
 [("Regex glue", "src/dynlibs/mregex/mregex.c"), ("derived functions", "src/mosmllib/Regex.sml")])

prop("C24", "Pretty-printing respects margins, boxes and content",
 "For every well-nested sequence of blocks, breaks and strings sent to a pretty-printer, the printed text is the input strings in order with every break rendered either as its number of blanks or as a newline with the enclosing indentation: a block that fits in the remaining line is printed without newlines, in a consistent block that does not fit every break is a newline, and in an inconsistent one only those breaks whose next part would not fit.",
 ["inputs"],
 "every block/break/string sequence and line width in a bounded family",
 "testpp.sml prints two documents.",
 ["src/mosmllib/PP.sml"],
 [("Oppen-style printer", "src/mosmllib/PP.sml")])

prop("C25", "Paths and the file system interface follow their model",
 "Path functions are mutually inverse where documented (splitting/joining directory, file, base, extension, arcs), canonical paths denote the same file, and relative/absolute conversion is consistent. FileSys operations (create, remove, rename, directory listing, change directory, tests, sizes) have exactly the effect on the file tree, and report exactly the state, that the operating system gives them; failures raise SysErr and change nothing.",
 ["inputs", "histories"],
 "every path string over a small alphabet; every sequence of file-system operations in a scratch directory",
 "unixpath.sml and filesys.sml test fixed paths and one sequence.",
 ["src/mosmllib/Path.mlp", "src/mosmllib/FileSys.mlp", "src/runtime/sys.c", "src/runtime/mosml.c"],
 [("path normalisation", "src/mosmllib/Path.mlp"), ("file system calls", "src/mosmllib/FileSys.mlp, src/runtime/mosml.c")])

prop("C26", "Dates and times convert consistently with the calendar",
 "Date values are always normalised valid calendar dates (month lengths, leap years, weekday and day of year exact), constructing from out-of-range fields carries over correctly, text forms round-trip, comparison is chronological, and conversion between dates and times is inverse, in every time zone, also across the changes to and from daylight saving time (toTime raises Date for what the system cannot represent). Time arithmetic, conversion and scanning are exact to the microsecond, and formatting rounds to the digits asked for.",
 ["inputs"],
 "every date field combination and every time value",
 "date.sml checks a few dates.",
 ["src/mosmllib/Date.sml", "src/mosmllib/Time.sml", "src/runtime/mosml.c"],
 [("date normalisation", "src/mosmllib/Date.sml"), ("time arithmetic", "src/mosmllib/Time.sml")])

prop("C27", "Sockets deliver what was sent and select reports exactly the ready sockets",
 "Every byte sent on a connected stream socket (Unix domain or loopback) is received exactly once and in order at the other end, every datagram whole, with an address that leads back to its sender; sub-buffer bounds, peek, shutdown and end of stream, binding, listening, refused connections and their exceptions are as documented. Socket.select returns, for each of its three lists, exactly the sockets of that list that are ready, in their order. Garbage collection during any operation does not matter.",
 ["histories", "schedules"],
 "every sequence of socket operations of a process over Unix domain and loopback sockets, any buffer and sub-buffer, any heap state",
 "testsocket.sml and the client/server pair exchange a few fixed messages.",
 ["src/mosmllib/Socket.sml", "src/dynlibs/msocket/msocket.c"],
 [("socket primitives and select", "src/dynlibs/msocket/msocket.c"), ("buffers and flags", "src/mosmllib/Socket.sml")])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as h:
        for p in P:
            h.write(json.dumps(p) + "\n")
    print(len(P), "properties")
