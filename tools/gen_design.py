T = r'''# Deciding the properties of llrl by property-based testing and fuzzing

`properties.jsonl` (written by `tools/gen_properties.py`) lists C01..C26. One command decides one
property: `python3 run.py Cnn` (`VERIF_SEED`, `VERIF_TIER=quick|thorough`). `python3 run.py replay FILE`
runs a saved failure again. `tools/gen_manifest.py` writes `MANIFEST.json`. Every property is decided by
generated-input search against an oracle; none had to be declared not applicable.

## Machinery

* `harness/`: a Rust crate with path dependencies on /repo's `llrl0` (chibi backend only) and `xten0`. Its
  engine (`src/lib.rs`) draws every random choice from a *tape*; a failing tape is shrunk (block deletion,
  value lowering) and is the replay file. Case *i* of seed *s* is a pure function of (s, i), so the work of a
  run is fixed and does not depend on speed or load. Workers journal the case they are at: a case that ends or
  hangs its process is run again alone before it counts, and a hang counts only for properties that claim
  termination. Where one compiled program carries many cases, the shrinker works on the failing case.
* `src/prog.rs` is the program generator used by C08, C10, C11: a typed core language (data types by value and
  by reference, recursive and large ones, pattern matching, closures, loops, early return, references, strings,
  traits of classes, generics) with its evaluator, which is the reference for the output of the compiled program.
* `drivers/*.llrl` and the programs that `c16`..`c22` write are llrl programs compiled by the tree's llrl0
  against the tree's std (and llrl1, xten1); they execute the generated histories and print every observation.
  The models live outside the code under test (Rust `Vec`, `BTreeMap`, `String`, the file system, own code).
* `py/common.py`: builds (own target directory `/verif/.build`, rebuilt by content hash of the tree), workers,
  known findings, evidence, verdicts. Exit 0 held, 1 VIOLATION, 2 error of the check itself (such as a tree that
  does not build), which is never a verdict.
* *Configurations*: `llrl0-chibi`, `llrl0-llvm` (with and without optimisation), `llrl1-chibi`. Quick tiers use the
  native backends and, where the LLVM lowering is separate code, the LLVM one; thorough tiers use all.
* No hooks in /repo were needed.

## Per property

Bounds are those of the generators (sizes, depths) and the fixed number of cases of a tier; the evidence file
gives the counts of a run. Quick tiers take 10 to 130 s, thorough tiers up to hours.

| id | generated | oracle | why it reaches what the tests cannot |
|----|-----------|--------|--------------------------------------|
| C01 | texts from the token alphabet, from the grammar and raw Unicode; trees | own lexer and parser of the documented grammar (`src/sx.rs`): token extents, byte offset, line and column of each, tree; print then read; llrl1's reader and std's printer on the same texts in a driver | all sugar nestings, error recovery, number, escape and column boundaries |
| C02 | nested directives over random trees, features, near-miss directives | own expander (substitution over an environment, `src/pp.rs`); llrl0 in process, llrl1 in a driver | scopes, shadowing, splice positions, malformed forms |
| C03 | import graphs over packages (cycles, missing, self, several entries, dots and suffixes in names) | reachability and SCC model; compiled order; initialisation trace of compiled programs; every graph loaded several times | schedules of the parallel collector and builder; shapes |
| C04 | module sets with definitions, nested scopes, imports, renames, re-exports, macros capturing names | name-resolution model: every use is given a distinct value, which the compiled program prints; conflicts and unresolved names expected exactly | collisions, chains, shadowing order |
| C05 | histories of unification, matching and generalisation over shared variables, types and kinds | textbook substitution unifier; both orders of arguments; idempotence | sequences with sharing, occurs check through chains |
| C06 | core programs over data types, schemes, classes, instances, literals; edits that break types | own Hindley-Milner checker with class constraints: acceptance and the inferred type schemes must agree | generality and rejection over all shapes |
| C07 | pattern matrices over generated data types and literals | enumeration of all values up to the depth the patterns can see; witnesses checked to be uncovered | whole-matrix property: splits, defaults, literals mixed with wildcards |
| C08 | data types of every representation (to hundreds of constructors), clause lists, values | evaluator of first-match semantics with a counter in the scrutinee | interactions of representation, nesting and clause order |
| C09 | operand tables for all operations and widths, as constants and as run-time values | integers mod 2^n, IEEE by the host's arithmetic (libm functions within 4 ulp) | operand boundaries; every width, backend and optimisation |
| C10 | typed programs | reference evaluator (`src/prog.rs`); backends with and without optimisation | register pressure, spills, escapes, generic instances, allocation while collecting |
| C11 | valid and mutated programs | llrl0 against llrl1 on acceptance and behaviour; bytes of repeated output, llrl1 built by llrl0 against llrl1 built by itself | two independent implementations |
| C12 | structures and signatures with many arguments | C code compiled by clang on the other side: values, sizes, offsets, arguments in both directions | ABI classes, mixtures over registers and stack |
| C13 | instructions from the form table with operands at boundaries, label layouts | system assembler (GNU as): decoded instruction equal; xten0 against xten1, byte for byte; the same again on the tables xtencg generates when they are not the committed ones | operand combinations (no-SIB, rbp/r13, rsp/r12, rex, disp sizes), branch distances |
| C14 | assembled objects of sections, symbols, relocations, bss, sections past 32 KiB | own ELF reader and model of the object; system linker and execution | layouts, string tables, addends |
| C15 | histories of objects and lookups in the in-process linker | model of symbol values, code executed in a child; expected errors | late definitions, many segments, tables of addresses |
| C16 | histories on arrays, vectors; iterator pipelines | Rust `Vec` and iterators | long histories, aliasing, boundary indices |
| C17 | histories on hash and tree maps and sets | `BTreeMap` with stated previous values and sizes | collisions, growth, removal then insertion, ranges |
| C18 | histories over many live versions of persistent maps | a map per version, all versions checked again at the end | sharing |
| C19 | strings over all widths of scalar values, byte strings, numbers | Rust `str`, own radix formatter, correctly rounded float parsing | boundaries of encoding, searches, number limits |
| C20 | values of standard and derived types, pairs and triples; byte strings with splits | laws, lexicographic model, xxHash reference | shapes of derived types, tails and block boundaries of the hash |
| C21 | file histories in a jailed scratch directory (now and then far down the tree), path strings | file-system model; faults (full device, closed and unwritable descriptors) | histories, error paths at flush and close |
| C22 | trees, templates, match patterns, macros capturing definitions, expansions in every syntactic place | own quasi-quotation and matching model; values printed by the compiled program | nesting and splice positions, shadowed names at the use |
| C23 | mutated sources, faults of about 40 kinds put at a known place into well-formed modules | ends within bounds, no crash; the error kind, file and position expected from the fault; insertion of unrelated definitions | malformed inputs of all layers |
| C25 | histories of up to four live processes (arguments, pipes, statuses, signals, programs that cannot be started), own arguments and environment | model of the processes (the started program is the harness itself, run by a script of steps); everything printed, exit status | interleavings of several processes' streams, large transfers, error paths after `fork` |
| C26 | modules (one, or two by import) of data types, classes, schemes, instances whose parameters have kinds to depth three, annotations sparse, a third with noise | own kind inference over dependency groups found by reachability: verdicts and the kinds recorded for every definition must agree | defaulting, mutual recursion, arity, imported kinds |
| C24 | command lines: options in any order and spelling, entries, features, packages, outputs, program arguments, failures | option model; files left, exit status, arguments echoed by the program | combinations |

## What is left open, and why

Excluded because the language, platform or documentation leaves them open (so an alarm would be unfounded):

@NOTES@

## Defects found

`known-findings.txt` lists them: those repaired by a `fix:` commit and those recorded. The recorded ones are kept
because the repair is not small, or because a test of the repository pins the behaviour. Each is keyed on an exact
signature, so another violation of the same property is still reported.

@DEFECTS@

## Planted bugs (`seeded/`)

Each passes the repository's stable tests, with a demonstration that fails with it. Which check catches it:

@SEEDED@

Besides these, some hundred smaller changes (one condition, one table entry, one bound at a time, over the files the
properties anchor) were applied in scratch copies to see which checks notice them; the checks were strengthened
where one that is observable was missed.
'''
NOTES = '''
* C04: a macro name in call or clause-head position expands against the top level of the module, by design.
* C06: kinds of type parameters are always written (kind inference is C05's); groups of mutually recursive
  functions without annotation whose type variables differ are not judged; schemes are compared after reduction
  of their contexts; annotations that name variables out of scope are dropped.
* C09: overflow of signed types, division by zero, shifts by the width or more, float to integer out of range.
* C10: `transparent` functions get only variables and literals as arguments.
* C11: only the verdict (accept or reject) is compared, not the text of errors; crashes are C23's.
* C12: empty structures and variadic functions; whether narrow arguments are extended; LLVM only with plain shapes
  (see the finding `llvm-structures`).
* C13: encodings that differ but denote the same are accepted: redundant 66 on `str m16`, `rex.W nop`, `int $3`
  as CD 03, a zero displacement, `xchg rax, rax` as nop.
* C14: names with `@`, and names the linker itself provides.
* C15: only xten0 has the in-process linker of the bootstrap compiler; after an object is refused, the history ends
  (its symbols may be half loaded).
* C18: std's `difference` of persistent maps is the symmetric difference, which std's own tests pin.
* C19: the text of infinities and NaN and of floats that overflow.
* C20: NaN; the getter macros allow at most one `_`.
* C21: NUL in paths. Destructive calls go through an `LD_PRELOAD` shim that refuses any path outside the scratch
  directory, so an escaping call reaches nothing real.
* C22: nested quasi-quotation (a TODO in std); symbols beginning with `$`; numbers are compared by value;
  `s/foldr` is a right fold by design.
* C23: missing modules and packages are reported by path only; invalid import paths and method type mismatches
  carry no location; errors in code captured by a macro point at std with a note "(while building ...)"; columns
  are byte offsets; nesting is at most 60; user macros may expand for ever, so they are left out of the batches.
* C24: arguments that are not UTF-8, an empty `--` with `-o`, output of aborting programs, a file already at the
  output path when the build fails; the optimisation flag has no observable of its own.
* C25: standard descriptors closed at the start; NUL in arguments; `process/close!` after `process/wait!`; zombies of
  programs that could not be started.
'''
import json,glob,os
cat={}
try:
    for l in open('/verif/tools/catches.txt'):
        a=l.split(None,1)
        if a: cat[a[0]]=a[1].strip()
except FileNotFoundError: pass
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    b=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|','/')} | {cat.get(b,'not yet run')} |")
defs=[]
for l in open('/verif/known-findings.txt'):
    if l.startswith('finding:') or l.startswith('fixed:'): 
        k,r=l.strip().split(': ',1); defs.append(f"* {k}: {r}")
open('/verif/DESIGN.md','w').write(T.replace('@NOTES@',NOTES.strip()).replace('@DEFECTS@','\n'.join(defs)).replace('@SEEDED@','\n'.join(rows)))
