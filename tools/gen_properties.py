#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Reading source text is total, exact, and inverse to printing",
 "Reading any UTF-8 text always terminates with either S-expressions or a non-empty list of located errors, never a crash, and the tokens cover the text exactly, each with the byte offset, line and column it really has. Every S-expression that reading can produce, when printed, reads back as the same S-expression (every number with its value), and source written by the grammar (lists, dotted pairs, quotes, the @ nesting, ?/!/{} suffixes, escapes, numbers up to 64 bits) denotes exactly the tree the grammar assigns to it. The bootstrap compiler and the self-hosted compiler read the same text to the same S-expressions.",
 ["inputs"], "every text over the token alphabet and arbitrary Unicode; every S-expression tree (nesting bounded well below the thread stack)",
 "Unit tests fix about forty literal inputs; the claim is about every text and every tree, including error recovery, sugar inside sugar, boundary integers and non-ASCII columns.",
 ["llrl0/src/lexer.rs", "llrl0/src/parser/grammar.rs", "llrl0/src/parser/primitive.rs", "llrl0/src/sexp.rs", "llrl0/src/string.rs", "llrl0/src/source_loc/location.rs", "llrl1/sexp/parser.llrl", "llrl1/sexp/lexer.llrl"],
 [("maximal-munch token eating with a running location", "llrl0/src/lexer.rs: Eat"), ("predictive grammar with error-swallowing sequences", "llrl0/src/parser/primitive.rs: RecoverableSeq"), ("re-sugaring printer", "llrl0/src/sexp.rs: Display")])

prop("C02", "Preprocessor directives expand by lexically scoped substitution",
 "Preprocessing a source equals expanding its $let, $let1, $for, $for1, $when, $symbol and feature directives by lexically scoped substitution: each $for emits its body once per item in order, $when keeps its body exactly when the condition is true, inner bindings shadow outer ones and end with their body, and everything that is not a directive is copied unchanged. A malformed directive is reported as an error and is never silently dropped or expanded to something else.",
 ["inputs"], "every S-expression source with directives nested to any depth, every set of enabled features",
 "A dozen fixed sources are tested; the claim ranges over nested scopes, dotted and partial patterns, splicing positions and feature combinations.",
 ["llrl0/src/preprocess.rs", "llrl0/src/preprocess/error.rs", "llrl1/preprocess.llrl"],
 [("scoped binding stack and splicing expansion", "llrl0/src/preprocess.rs: Preprocessor/Context")])

prop("C03", "The module graph is loaded completely, in order, and initialised once",
 "Compiling entry modules loads exactly the modules reachable through imports from the registered packages, processes every module after all the modules it depends on, and runs the top-level code of each module exactly once, dependencies before dependents and in source order inside a module. An import cycle, a missing package or module, an import of itself or an ill-formed module path is always reported as such an error, and a graph without those is always accepted. This does not depend on how the parallel loader and builder are scheduled.",
 ["configurations", "schedules", "histories"], "every finite import graph over several packages and any entry set, every worker interleaving",
 "Existing tests use graphs of at most four modules and one build each; the quantifier is over all graphs, entry sets and schedules of the parallel collector and builder.",
 ["llrl0/src/topological_sort.rs", "llrl0/src/source/collector.rs", "llrl0/src/source/set.rs", "llrl0/src/source/loader.rs", "llrl0/src/module/parallel.rs", "llrl0/src/path.rs", "llrl0/src/lowering/context.rs", "llrl1/source/collector.llrl"],
 [("strongly connected components in dependency order", "llrl0/src/topological_sort.rs"), ("parallel build with leader counts", "llrl0/src/module/parallel.rs"), ("main statement collection", "llrl0/src/lowering/context.rs")])

prop("C04", "Names resolve exactly as scopes, imports and exports declare",
 "A name used in a module refers to the innermost local binding, else the definition of its own module, else what an import (single, prefixed or wildcard, with or without renaming) brings in from what the imported module exports; a name with no such meaning is reported as unresolved and two different imported or defined meanings for one name are reported as a conflict. Nothing that a module does not export can be reached from another module, and re-exports keep denoting the original definition.",
 ["programs"], "every assignment of definitions, nested local scopes, wildcard/prefix/renaming imports and re-exports over several modules",
 "Tests cover a fixed list of import/export forms one at a time; collisions, chains of renamings and shadowing appear only in combination.",
 ["llrl0/src/module/scope.rs", "llrl0/src/module/sema/importer.rs", "llrl0/src/module/sema/exporter.rs", "llrl0/src/module/sema/resolver.rs", "llrl0/src/syntax/decl.rs", "llrl1/module"],
 [("scope with shadowing rules", "llrl0/src/module/scope.rs"), ("wildcard/prefix import expansion", "llrl0/src/module/sema/importer.rs")])

prop("C05", "Type and kind unification computes most general unifiers",
 "Unifying two types or kinds succeeds exactly when some assignment of their variables makes them equal, and then the recorded assignment is a most general one, applied consistently by every later query; it fails on a clash, an arity difference or an infinite type. The outcome does not depend on the order of the two sides, and one-way matching only ever assigns variables of the pattern side.",
 ["inputs", "histories"], "every sequence of unifications over terms with shared variables, generic parameters and applications",
 "The module's few tests unify hand-picked pairs; the claim concerns arbitrary sequences with sharing, where a wrong union or missing occurs check only shows later.",
 ["llrl0/src/unification/types.rs", "llrl0/src/unification/kind.rs", "llrl0/src/unification.rs", "llrl1/unification"],
 [("union-find variable pool with occurs check and levels", "llrl0/src/unification/types.rs"), ("kind variable pool", "llrl0/src/unification/kind.rs")])

prop("C06", "A module is accepted if and only if it is well typed",
 "The compiler accepts a program exactly when it has a type under the language's rules: let-polymorphic functions without annotation, declared type schemes checked against their bodies, numeric literals limited to number types, constructor and call arity, and class constraints solved by the declared instances. An ill-typed program is always rejected with a type, kind or instance error, an unannotated function is usable at every instance of its most general type and at no other, and overlapping instances are rejected.",
 ["programs"], "every program of the core language with polymorphism, higher-order functions, data types and classes, and every type-breaking edit of one",
 "The testcases hold some dozens of small modules with one feature each; soundness and completeness of inference quantify over all programs.",
 ["llrl0/src/module/sema/type_inference.rs", "llrl0/src/module/sema/kind_inference.rs", "llrl0/src/unification/types.rs", "llrl1/module/sema"],
 [("level-based generalisation and constraint solving", "llrl0/src/module/sema/type_inference.rs"), ("instance lookup with one-way matching and overlap check", "llrl0/src/module/sema/type_inference.rs")])

prop("C07", "Match checking rejects exactly the non-exhaustive and the useless",
 "A match expression is accepted exactly when every value of the scrutinee's type is covered by some clause and every clause is reached by some value no earlier clause covers. A non-exhaustive match and a useless clause are each always reported, and never reported otherwise (a match without clauses counts as non-exhaustive), and the patterns reported as missing are really uncovered, whatever the nesting of constructors, literals and wildcards.",
 ["inputs", "programs"], "every pattern matrix over finite and infinite constructor sets, any nesting and width",
 "Some fifteen matrices are tested; usefulness is a global property of the whole matrix, decided only by enumerating values.",
 ["llrl0/src/pattern_matching/matrix.rs", "llrl0/src/pattern_matching/row.rs", "llrl0/src/pattern_matching/pattern.rs", "llrl0/src/module/sema/validator.rs", "llrl1/pattern-checker.llrl"],
 [("usefulness by matrix specialisation", "llrl0/src/pattern_matching/matrix.rs"), ("pattern translation", "llrl0/src/module/sema/validator.rs")])

prop("C08", "Compiled matches select the first matching clause with its bindings",
 "Evaluating a match runs the body of the first clause, in source order, whose pattern the value satisfies, with every pattern variable bound to the component at its position, and evaluates the scrutinee exactly once. This holds for every representation a data type can get (enumeration, single constructor, boxed or by-value, tagged, recursive) and every literal type, on every backend with and without optimisation.",
 ["programs", "inputs"], "every data type shape, every clause list over it, every value",
 "Tests hold a few dozen fixed matches; the decision code shares tests between clauses, so errors need particular combinations of clauses and values.",
 ["llrl0/src/lowering/branch_expander.rs", "llrl0/src/lowering/data_expander.rs", "llrl0/src/lowering/translator.rs", "llrl1/lowering"],
 [("match to decision code with known facts", "llrl0/src/lowering/branch_expander.rs"), ("data representation choice", "llrl0/src/lowering/data_expander.rs")])

prop("C09", "Machine arithmetic follows its mathematical definition on every backend",
 "Integer addition, subtraction, multiplication, division, remainder, comparison, shifts, bit operations, population count and conversions on 8 to 64 bit signed and unsigned types give the two's complement result wherever it is defined (not on overflow of signed types, division by zero or oversized shifts), and floating-point arithmetic, comparison and conversion give the IEEE-754 result. The result is the same whether operands are constants or run-time values, on every backend, with and without optimisation.",
 ["inputs", "configurations"], "every operation, type and operand pair on which it is defined (signed overflow, division by zero, overflowing division, oversized shifts and out-of-range float-to-integer conversions excluded)",
 "Tests check a handful of operand pairs per operation on 32-bit values mostly; width, sign and boundary errors live at specific operands.",
 ["std/integer.llrl", "std/float.llrl", "std/bits.llrl", "std/conv.llrl", "std/ord.llrl", "llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/llvm/codegen.rs", "llrl0/src/lowering/translator.rs"],
 [("instruction selection per operation and width", "llrl0/src/backend/chibi/codegen.rs"), ("LLVM instruction emission", "llrl0/src/backend/llvm/codegen.rs"), ("operator to class instance mapping", "std/integer.llrl")])

prop("C10", "Compiled programs behave as the source prescribes on every backend",
 "A well-typed terminating program prints the output that evaluating its source left to right prescribes: function calls, closures capturing variables, recursion, mutable references, loops, early return, data values by reference and by value, generic functions at several types, class methods and string operations. The output is the same from the native backend and the LLVM backend, with and without optimisation, and memory reachable from the program keeps its contents however much it allocates. Signed overflow is excepted, as is how often the argument of a transparent function is evaluated.",
 ["programs", "configurations"], "every well-typed terminating program of the core language and the prelude; both backends, both optimisation settings",
 "The tests are fixed programs that mostly return a boolean; miscompilations depend on register pressure, argument counts and sizes, escape decisions and interactions no fixed list covers.",
 ["llrl0/src/lowering/translator.rs", "llrl0/src/lowering/normalizer.rs", "llrl0/src/lowering/heap2stack.rs", "llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/llvm/codegen.rs", "llrl0/src/backend/native/calling.rs", "rt/rt.c"],
 [("monomorphisation, closure conversion, inlining", "llrl0/src/lowering/normalizer.rs"), ("stack promotion", "llrl0/src/lowering/heap2stack.rs"), ("code generation", "llrl0/src/backend/*/codegen.rs")])

prop("C11", "The self-hosted compiler agrees with the bootstrap compiler",
 "For every source program the compiler written in llrl accepts it exactly when the bootstrap compiler does, and the executables the two produce behave the same. The self-hosted compiler is deterministic: it emits byte-identical executables for the same program every time, whichever compiler it was itself built by.",
 ["programs"], "every program, valid or not, of the language",
 "The self-hosted compiler's tests are mostly the same fixed testcases; agreement of two independent implementations must hold on all programs and the self-hosting comparison is not part of the tests.",
 ["llrl1/main.llrl", "llrl1/pipeline.llrl", "llrl1/module", "llrl1/lowering", "llrl1/backend/chibi", "llrl1/pattern-checker.llrl", "llrl1/unification"],
 [("second implementation of every phase", "llrl1/")])

prop("C12", "Data crosses the C boundary with the platform's layout and convention",
 "Any C-representable structure, nested structure, number, boolean, character or pointer passed to or returned from a C function, stored in memory read by C, or received from C has the size, alignment, field offsets and argument registers or stack slots that the System V x86-64 ABI gives it. This holds for any number and mix of arguments, on every backend, both compilers included (whether narrow arguments are extended is left open, as it is by the ABI).",
 ["programs", "inputs"], "every C structure shape up to 8 fields and 3 levels, every signature mixing integers, floats and structures, including ones that overflow the registers",
 "Only a few runtime functions with small fixed signatures are called in tests; ABI classification errors need particular field mixes and argument counts.",
 ["llrl0/src/backend/native/mem_layout.rs", "llrl0/src/backend/native/calling.rs", "llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/llvm/codegen.rs", "llrl1/backend/native"],
 [("eightbyte classification", "llrl0/src/backend/native/mem_layout.rs"), ("argument passing", "llrl0/src/backend/chibi/codegen/call_frame.rs")])

prop("C13", "The assembler emits the machine code its instruction denotes",
 "Every supported instruction with any legal operands (registers of each size, every memory addressing form, displacement and immediate range, labels and symbols) assembles to bytes that the processor decodes as that same instruction with the same operands. Jumps and label references resolve to the position of their label wherever it is in the code, in the library used by the bootstrap compiler and in the one used by the self-hosted compiler, which emit the same bytes, and in both as xtencg generates their instruction tables anew from x86.csv.",
 ["inputs"], "every instruction form and operand combination; every label layout",
 "Tests assemble one or a few operand choices per form; prefixes, special registers (spl, r12, rbp, r13) and displacement boundaries interact.",
 ["xten0/src/asm/encoding.rs", "xten0/src/asm/writer.rs", "xten0/src/asm/operand.rs", "xten0/src/asm/inst.rs", "xten0/src/asm.rs", "xten1/asm", "xtencg/src"],
 [("prefix, REX, ModRM, SIB and immediate emission", "xten0/src/asm/writer.rs"), ("instruction tables", "xten0/src/asm/inst.rs")])

prop("C14", "Emitted object files carry exactly the assembled object",
 "For any assembled object, the emitted ELF relocatable file is well formed and contains exactly its section contents, its defined symbols with their positions and visibility, its undefined symbols, and one relocation per unresolved reference with the right kind, position and addend. Linking any set of such files with the system linker yields a program in which each reference reaches its target.",
 ["inputs"], "every object of text, data and read-only data with local and global symbols and any mix of absolute and relative references",
 "Tests write two or three small objects; offsets, string tables and symbol ordering depend on sizes and name sets.",
 ["xten0/src/elf/adapter.rs", "xten0/src/elf/format.rs", "xten0/src/elf.rs", "xten0/src/asm/obj.rs", "xten0/src/asm.rs", "xten1/elf"],
 [("section, symbol, relocation table layout", "xten0/src/elf/format.rs"), ("object to ELF conversion", "xten0/src/elf/adapter.rs")])

prop("C15", "In-process linking loads code whose references reach their targets",
 "Objects added to the in-process linker, in any order and any number, end up in executable memory with every symbol reference resolved: to the definition in its own object or in whichever object supplied it earlier, or to the address supplied for external symbols. Calling a loaded function executes the code as if it had been statically linked, contents loaded earlier are never disturbed by later additions, and an unresolvable or doubly defined symbol, or one too far away for its reference, is reported instead of run.",
 ["histories", "inputs"], "every sequence of objects with mutual references, section sizes across segment and page boundaries, and lookups in between",
 "Tests load one to three tiny objects; segment reuse, far symbols and late definitions need longer histories.",
 ["xten0/src/jit.rs", "xten0/src/jit/segment.rs", "xten0/src/jit/symbol_table.rs", "xten0/src/jit/address_table.rs", "xten0/src/jit/mmap.rs", "xten0/src/jit/table.rs", "xten1/jit.llrl"],
 [("segments, address tables and deferred relocation", "xten0/src/jit.rs")])

prop("C16", "Arrays, vectors and iterators behave as sequences",
 "Every history of operations on arrays and growable vectors (push, pop, insert, remove, get, set, slice, append, resize, sort, search, copying) leaves exactly the sequence a mathematical list would hold, and every pipeline of iterator operations (map, filter, take, skip, zip, chain, fold, chunking, flattening and the like) yields exactly the elements the corresponding list operations yield, in order. Out-of-range accesses through checked operations are reported, never silently wrong.",
 ["histories", "inputs"], "every operation history and every iterator pipeline over any contents",
 "Tests are fixed histories of a few operations; capacity growth, aliasing between slices and combinators' state appear with length and order.",
 ["std/internal/array-vector.llrl", "std/array.llrl", "std/vector.llrl", "std/it.llrl", "std/iterator.llrl", "std/memory.llrl"],
 [("array/vector implementation", "std/internal/array-vector.llrl"), ("iterator combinators", "std/it.llrl")])

prop("C17", "Mutable maps and sets behave as mathematical maps and sets",
 "After any history of insertions, updates, removals, lookups, clears, copies and set operations, the hash-based and the ordered maps and sets hold exactly the entries a mathematical map would, report the right size and previous values, and iterate every entry exactly once, the ordered ones in key order. Range and extremal queries of ordered containers agree with the sorted list of entries.",
 ["histories"], "every operation history, with colliding and adversarial keys and sizes across every rehash, split and merge",
 "Tests perform a few dozen fixed operations; rehash with tombstones and tree rebalancing depend on long histories.",
 ["std/hash-map.llrl", "std/hash-set.llrl", "std/ord-map.llrl", "std/ord-set.llrl"],
 [("open hashing with rehash", "std/hash-map.llrl"), ("B-tree split/merge/borrow", "std/ord-map.llrl")])

prop("C18", "Persistent maps never change once built",
 "Every operation on a persistent ordered or hash map returns a map with exactly the entries the operation prescribes, and every older version remains unchanged and fully usable, whatever is derived from it later. Lookup, size and iteration of every version agree with a mathematical map, in key order for the ordered one.",
 ["histories"], "every tree of versions derived by insertions, updates and removals, with colliding hashes included",
 "Tests follow one line of a few versions; structural sharing bugs need several versions of one ancestor and particular shapes.",
 ["std/persistent/hash-map.llrl", "std/persistent/ord-map.llrl"],
 [("hash array mapped trie", "std/persistent/hash-map.llrl"), ("red-black tree", "std/persistent/ord-map.llrl")])

prop("C19", "Strings and text behave as Unicode sequences, and numbers round-trip",
 "String operations (construction, indexing by character, substring, split, search, trim, prefix and suffix tests, join, comparison, iteration, conversion to and from bytes, building through writers and readers) agree with the same operations on sequences of Unicode scalar values, and bytes that are not valid UTF-8 are never accepted as text. Formatting an integer in any radix from 2 to 36 or a finite float and parsing the result gives the number back, and parsing rejects text that is not such a number or does not fit the type.",
 ["inputs"], "every string over one to four byte characters, every index, radix and number, every byte sequence",
 "Tests use short, mostly ASCII literals; multi-byte boundaries, empty pieces and extreme values are combinations no list exhausts.",
 ["std/internal/string-text.llrl", "std/internal/utf-8.llrl", "std/string.llrl", "std/text.llrl", "std/char.llrl", "std/integer.llrl", "std/float.llrl", "std/string-reader.llrl", "std/string-writer.llrl", "rt/rt.c"],
 [("string and text implementation", "std/internal/string-text.llrl"), ("UTF-8 codec", "std/internal/utf-8.llrl"), ("number formatting and parsing", "rt/rt.c")])

prop("C20", "Equality, ordering and hashing are lawful and agree, derived ones included",
 "Equality is an equivalence, ordering is a total order consistent with it, and equal values have equal hashes, for all standard types and for every data type whose instances are derived, where comparison is lexicographic by constructor order and then by fields. Hashing a byte sequence gives the xxHash value of those bytes for any length and any way of feeding them in pieces, and copying, debug display and access macros on derived types reflect the actual components.",
 ["inputs", "programs"], "every standard type and every derived data type shape, every pair and triple of values, every byte string and split",
 "Tests compare a few literal values and hash two or three strings; laws quantify over pairs and triples and over all data type shapes.",
 ["std/eq.llrl", "std/ord.llrl", "std/hash.llrl", "std/xxhash.llrl", "std/derive.llrl", "std/tuple.llrl", "std/option.llrl", "std/either.llrl", "std/result.llrl", "std/copy.llrl", "std/debug.llrl"],
 [("deriving macros", "std/derive.llrl"), ("xxHash stream", "std/xxhash.llrl")])

prop("C21", "File and path operations act on the file system as their names say",
 "Reading, writing and appending bytes, integers and text on files in every mode transfer exactly the bytes requested at the right positions, and creating, removing and listing files and directories have exactly the effect requested, symbolic links being removed and not followed; any failure, also one that only shows when a file is flushed or closed, is returned as the error of its kind and never as a success or a crash. Path joining, splitting, canonicalization, base name, directory name and extension agree with their definition on every path text.",
 ["histories", "inputs", "fault_sequences"], "every history of file operations over any contents, missing and forbidden targets included; every path text",
 "Tests write and read one small file and check a few paths; positions, chunk sizes, end of file and error returns depend on the history.",
 ["std/io.llrl", "std/io/file.llrl", "std/io/directory.llrl", "std/io/path.llrl", "std/io/error.llrl", "std/rw.llrl", "rt/rt.c"],
 [("runtime I/O wrappers", "std/io/file.llrl"), ("path functions", "std/io/path.llrl")])

prop("C22", "Macros receive and return exactly the syntax written, hygienically captured",
 "A macro is called with exactly the S-expression of its use and its result is compiled in place of the use as if written there; whatever a macro builds by quotation, quasi-quotation, splicing, matching and symbol generation is exactly the tree the template denotes. A captured definition refers to the definition visible where it was captured, whatever the name means at the use site, and generated symbols never collide with any other name; a macro that returns an error makes compilation fail with that error at the use. Displaying a tree writes text that reads back as that tree (up to the spelling of numbers).",
 ["programs", "inputs"], "every S-expression argument, every quasi-quotation template and match pattern, every shadowing of captured names",
 "Tests cover one construct each; the data passes through native memory layouts and back, so errors depend on the shape and depth of the tree.",
 ["llrl0/src/backend/native/data.rs", "llrl0/src/module/sema/ast_builder.rs", "llrl0/src/sexp/native.rs", "std/boot", "std/s.llrl", "std/s-display.llrl", "llrl1/sexp"],
 [("syntax value transport between compiler and generated code", "llrl0/src/backend/native/data.rs"), ("quasi-quotation and s/match macros", "std/boot")])

prop("C23", "Any input module is compiled or rejected with located errors, never a crash",
 "For every set of source files, however malformed, compiling ends within bounded time either in success or in reported errors that name the offending source, never in a panic, abort, hang or internal error. An error located in the source points into the form that causes it, and adding an unrelated valid definition or comment before or after does not change whether the module is accepted.",
 ["inputs", "programs"], "every sequence of top-level forms, obtained from valid modules by deletion, duplication, swapping and replacing of subtrees, in both compilers",
 "Negative tests list known mistakes one by one; robustness quantifies over all malformed modules.",
 ["llrl0/src/syntax", "llrl0/src/module/sema", "llrl0/src/module/error.rs", "llrl0/src/pipeline.rs", "llrl0/src/module/formatter.rs", "llrl1/module", "llrl1/syntax"],
 [("per-phase error reporting", "llrl0/src/module/error.rs")])

prop("C24", "The command line builds, runs and reports as requested",
 "Any combination of entry modules, packages, features, backend, optimisation, output path, linker options and program arguments builds the program those select: the features enabled and no others hold, packages resolve to the directory given, the executable is left exactly at the requested place, and the program receives exactly its arguments and its exit status is passed on. A build that fails produces no executable and a non-zero status with an error message, in both compilers.",
 ["configurations"], "every combination of options, in any order, with any argument texts",
 "The command line has no tests at all.",
 ["llrl0/src/main.rs", "llrl0/src/pipeline.rs", "llrl0/src/backend/native/linking.rs", "llrl0/src/preprocess.rs", "llrl0/src/source/loader.rs", "llrl1/main.llrl", "llrl1/pipeline.llrl", "std/system.llrl", "rt/rt.c"],
 [("option handling", "llrl0/src/main.rs"), ("pipeline", "llrl0/src/pipeline.rs")])

prop("C25", "Programs start others, and meet their surroundings, exactly as asked",
 "A process started by a program runs the program named, with exactly the arguments given whatever characters they hold, the same environment and nothing else of the parent's open; the bytes written to its input and read from its output and error streams arrive complete, in order and once, however many processes are alive and in whatever order their streams are used. Waiting gives its exit status, or none if a signal ended it; a program that cannot be started is reported as the error of its kind and has no other effect. A program's own arguments, environment, exit status, random bytes and standard streams are exactly those it was given or asked for.",
 ["schedules", "histories"], "every history of processes and stream operations, every argument and environment text, every exit status",
 "No test starts a process, reads an argument or an environment variable.",
 ["std/system.llrl", "std/io.llrl", "std/io/file.llrl", "std/io/error.llrl", "std/string.llrl", "rt/rt.c"],
 [("start and wait", "rt/rt.c"), ("library", "std/system.llrl")])

prop("C26", "Kinds of type parameters are inferred from all their uses",
 "A parameter of a data type, class, instance or function scheme that carries no kind annotation has the kind that its uses in its own definition and in those it is mutually recursive with determine, and `*` where they leave it open; a written annotation is honoured. A module is rejected with a kind error exactly when no such kinds exist or a type, constraint or instance anywhere in it, including in modules importing the definitions, is applied to arguments of other number or kind. The kinds do not depend on the order of the definitions.",
 ["inputs"], "every set of mutually dependent data types, classes, schemes and instances with parameters of higher kind",
 "Tests hold a few one-definition examples; groups, defaulting and imported kinds interact.",
 ["llrl0/src/module/sema/kind_inference.rs", "llrl0/src/unification/kind.rs", "llrl0/src/topological_sort.rs", "llrl0/src/ast/types.rs", "llrl0/src/ast/decl.rs", "llrl0/src/ast/kind.rs"],
 [("kind inference", "llrl0/src/module/sema/kind_inference.rs"), ("kind unification", "llrl0/src/unification/kind.rs"), ("dependency groups", "llrl0/src/ast/decl.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
