import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Programs evaluate to what the language reference says",
 "For every well-formed program, the rendered value is the one the documented semantics gives: lexical scope with block self-reference, currying and partial application, catenation, operator precedence and associativity (prelude and user-declared), sections and anaphora, destructuring parameters, dotted lookup and generalised lookup, block merge, recursion, monadic blocks and bracket functions. Any rewriting the implementation does on the way (inlining, fusion, dead-code removal, strictness, flattening, bytecode encoding) leaves that value unchanged.",
 ["programs"],"every program built from the documented expression and declaration forms, of any size and nesting",
 "The e2e fixtures are a few hundred fixed programs and are not part of the runnable suite here; pass interactions (inlining under binders, de Bruijn shifting, argument saturation, case-of-known) depend on program shape.",
 ["src/core/desugar","src/core/cook","src/core/inline","src/core/simplify","src/core/transform","src/core/reflatten.rs","src/core/analyse_demand.rs","src/eval/stg/compiler.rs","src/eval/stg/optimiser.rs","src/eval/bytecode/encode.rs","src/eval/bytecode/machine.rs","lib/prelude.eu"],
 [("operator precedence resolution","src/core/cook/shunt.rs"),("anaphora and sections","src/core/cook/mod.rs"),("inlining","src/core/inline/reduce.rs"),("pruning","src/core/simplify/prune.rs"),("STG compilation","src/eval/stg/compiler.rs"),("bytecode machine","src/eval/bytecode/machine.rs")],
 ["stdout and exit status of eu"])
p("C02","Evaluation is lazy and shares results",
 "An expression whose value is not needed for the output is never evaluated, however it is bound, passed, stored or guarded, so its failure, divergence or trace output never appears. A named value or function argument that is needed is evaluated exactly once however many times it is used, and only as far as needed (infinite lists and self-referential blocks work).",
 ["programs"],"every program that binds, passes, stores or selects between expressions",
 "Tests look at results; an extra or repeated evaluation usually leaves the result unchanged, and strictness decisions vary with program shape, arity and optimisation.",
 ["src/core/analyse_demand.rs","src/core/demand.rs","src/core/inline","src/eval/bytecode/machine.rs","src/eval/stg/compiler.rs","src/eval/stg/block.rs","src/eval/stg/debug.rs"],
 [("thunk update","src/eval/bytecode/machine.rs"),("demand analysis","src/core/analyse_demand.rs"),("inlining only what cannot duplicate work","src/core/inline/reduce.rs")],
 ["stderr trace lines written by dbg / ▶","stdout"])
p("C03","Results do not depend on how the engine is configured",
 "The same program and inputs give byte-identical standard output and the same exit status whether the precompiled prelude image or the prelude source is used, whichever instruction dispatch mode runs, with dead-code elimination or demand analysis switched off, and on every repeated run. (Keeping dead code may additionally report a name that does not exist in it.)",
 ["programs","configurations"],"every program, across prelude mode x dispatch mode x optimisation switches x repetition",
 "Each fixture is run in one configuration; the modes compile the prelude along different routes (globals against merged source), so a divergence appears only for particular program shapes.",
 ["src/driver/eval.rs","src/driver/source.rs","src/driver/prepare.rs","src/eval/stg/blob.rs","src/eval/stg/arena.rs","src/eval/bytecode/predecode.rs","src/eval/bytecode/encode.rs","src/eval/bytecode/machine.rs","xtask/src/main.rs"],
 [("prelude blob","src/eval/stg/blob.rs"),("predecoded dispatch","src/eval/bytecode/predecode.rs"),("blob-mode prelude injection","src/driver/source.rs")],
 ["stdout and exit status of eu under each configuration"])
p("C04","Garbage collection never changes what a program computes",
 "Whatever the heap limit, collection frequency, evacuation or poisoning of freed memory, a program that has room to finish produces the same output as an uncollected run, and no live object is lost, duplicated, left pointing at freed memory or left in an inconsistent heap. A program that fails without collections fails in the same way with them.",
 ["programs","schedules","configurations"],"every allocation pattern x every point at which a collection can happen",
 "Unit tests collect at chosen points on small hand-made heaps; real programs must survive a collection at any allocation, with every object kind live.",
 ["src/eval/memory/heap.rs","src/eval/memory/collect.rs","src/eval/memory/bump.rs","src/eval/memory/lob.rs","src/eval/memory/gc_verify.rs","src/eval/memory/array.rs","src/eval/bytecode/machine.rs","src/eval/bytecode/cont.rs","src/eval/machine/env.rs"],
 [("mark and sweep with evacuation","src/eval/memory/collect.rs"),("root enumeration","src/eval/bytecode/machine.rs"),("block reclaim","src/eval/memory/heap.rs")],
 ["stdout under EU_GC_STRESS / EU_GC_POISON / EU_GC_VERIFY","collection counts from -S"])
p("C05","No undefined behaviour in the evaluator or the heap",
 "No program, input document or heap configuration makes the evaluator read or write memory out of bounds, use freed memory, or otherwise commit a memory error that a sanitizer would report.",
 ["programs","inputs","configurations"],"every program and document, under normal and stressed collection",
 "The tests run uninstrumented, so silent corruption passes; the allocator, object layout and cursor code are unsafe Rust.",
 ["src/eval/memory","src/eval/bytecode","src/eval/machine","src/eval/stg/parallel"],
 [("bump allocation and block layout","src/eval/memory/bump.rs"),("raw object access","src/eval/memory/heap.rs")],
 ["AddressSanitizer reports"])
p("C06","Arithmetic is exact or refuses",
 "On integers every arithmetic, division, remainder, power, bitwise, shift, comparison, rounding and parsing operation returns the mathematically exact result under its documented convention (floor or truncation), and where the result cannot be represented it fails or becomes the documented floating value rather than wrapping. On floats the result is the IEEE double result, and numbers survive reading and printing unchanged.",
 ["inputs"],"all integers in the 64-bit signed and unsigned ranges and all finite doubles, for every numeric operation",
 "Tests sample a few values; errors hide at sign combinations, range boundaries, mixed integer/float operands and large magnitudes.",
 ["src/eval/stg/arith.rs","src/eval/bytecode/machine.rs","src/import/yaml.rs","src/export","src/eval/stg/list.rs","lib/prelude.eu"],
 [("arithmetic intrinsics","src/eval/stg/arith.rs"),("fused primops in the machine","src/eval/bytecode/machine.rs"),("number literals","src/syntax/rowan/lex.rs")],
 ["stdout of eu"])
p("C07","Equality and ordering are coherent",
 "Equality is reflexive, symmetric, transitive and structural over numbers, strings, symbols, booleans, null, datetimes, lists and blocks, and inequality is its negation. Ordering on numbers, strings, symbols and datetimes is a total order whose five operators, minimum, maximum and every sort agree with each other and with equality.",
 ["inputs"],"all pairs and triples of data values, including nested and mixed ones",
 "Laws quantify over pairs and triples; tests assert single comparisons.",
 ["src/eval/stg/eq.rs","src/eval/stg/arith.rs","src/eval/stg/list.rs","lib/prelude.eu"],
 [("structural equality","src/eval/stg/eq.rs"),("comparison intrinsics","src/eval/stg/arith.rs"),("sorting","src/eval/stg/list.rs")],
 ["stdout of eu"])
p("C08","String functions mean what they say on all Unicode text",
 "Splitting, joining, matching, replacing, trimming, case mapping, letters and length, prefix and suffix tests, escaping, base64, SHA-256, conversion to string and printf-style formatting each return the documented result for every string, including empty, multi-byte and control-character strings, and their inverse pairs (split/join, encode/decode) round-trip.",
 ["inputs"],"all Unicode strings, regexes from a documented common subset, and format specifications",
 "Tests use short ASCII examples; byte/character confusion, empty matches and width or sign handling need other inputs.",
 ["src/eval/stg/string.rs","src/eval/stg/printf.rs","src/eval/stg/render.rs","lib/prelude.eu"],
 [("string intrinsics","src/eval/stg/string.rs"),("printf","src/eval/stg/printf.rs")],
 ["stdout of eu"])
p("C09","List functions agree with their definitions",
 "Every prelude list function returns, for every list and argument (empty, single, long, nested, with duplicates), the list or value its documentation defines, preserving order and multiplicity, and fails only where documented (empty list, index out of range).",
 ["inputs"],"all lists and arguments in each function's documented domain",
 "Documentation examples cover one call each; boundaries (empty, count zero, over-long, negative) and compositions are not sampled.",
 ["lib/prelude.eu","src/eval/stg/list.rs","src/eval/stg/boolean.rs","src/core/simplify"],
 [("list library","lib/prelude.eu"),("list intrinsics","src/eval/stg/list.rs")],
 ["stdout of eu"])
p("C10","Block operations preserve keys, order and values",
 "Construction, merge, deep merge, lookup, alteration, selection, mapping, sorting, grouping, deep search and path functions on blocks return exactly the keys, order and values their documentation defines: the later value wins, the first position is kept, no key is lost or duplicated, and untouched entries are unchanged.",
 ["inputs"],"all blocks (any size, nesting and key text) and all arguments of the block functions",
 "Order and override behaviour depend on key collisions, block size (index structures) and nesting that fixtures do not vary.",
 ["src/eval/stg/block.rs","lib/prelude.eu","src/eval/bytecode/machine.rs"],
 [("block merge and lookup","src/eval/stg/block.rs"),("block library","lib/prelude.eu")],
 ["stdout of eu"])
p("C11","Sets, vecs, arrays and graph functions match their models",
 "Sets behave as mathematical sets with sorted listing, vecs as immutable indexed sequences, arrays as immutable row-major n-dimensional arrays, and the graph functions return correct components, topological orders and Kruskal merges; updates never disturb the value they started from, and out-of-range requests fail or answer as documented.",
 ["inputs","histories"],"all sequences of operations over primitive elements, shapes, indices and edge lists",
 "Persistence and index arithmetic fail only for particular histories, shapes and element mixes.",
 ["src/eval/stg/set.rs","src/eval/memory/set.rs","src/eval/stg/vec.rs","src/eval/stg/array.rs","src/eval/memory/ndarray.rs","src/eval/stg/graph.rs","lib/prelude.eu"],
 [("sets","src/eval/memory/set.rs"),("vecs","src/eval/stg/vec.rs"),("arrays","src/eval/stg/array.rs"),("graphs","src/eval/stg/graph.rs")],
 ["stdout of eu"])
p("C12","Seeded randomness is reproducible and fair",
 "With a given seed every random operation gives the same result on every run and in every configuration; floats lie in [0,1), integers in [0,n), shuffles are permutations, samples are distinct members of the source, and each operation returns a stream that continues rather than repeats. Values are close to uniform and split streams are distinct.",
 ["inputs","histories"],"all seeds and sequences of random operations",
 "A biased, repeating or off-by-one generator still passes fixed-seed examples regenerated from itself.",
 ["src/eval/stg/stream_prng.rs","src/eval/stg/set.rs","src/eval/stg/vec.rs","lib/prelude.eu","src/driver/options.rs"],
 [("stream generator","src/eval/stg/stream_prng.rs"),("random library","lib/prelude.eu")],
 ["stdout of eu"])
p("C13","Date-times parse, print and compare consistently",
 "Parsing, constructing, formatting, decomposing and comparing zoned date-times agree with the proleptic Gregorian calendar and UTC-offset arithmetic: formatting then parsing returns an equal instant, fields rebuild the same date-time, ordering follows the instant, and dates that do not exist are refused.",
 ["inputs"],"all valid and invalid calendar dates, times, fractional seconds and offsets",
 "Fixtures use a handful of dates; leap days, offset signs, year boundaries and fractional seconds need systematic inputs.",
 ["src/eval/stg/time.rs","src/core/desugar/rowan_ast.rs","src/import","lib/prelude.eu"],
 [("date-time intrinsics","src/eval/stg/time.rs"),("t-strings","src/core/desugar/rowan_ast.rs")],
 ["stdout of eu"])
p("C14","Monads, state and lenses obey their laws",
 "The identity, list, random, state and user-declared monads satisfy left identity, right identity and associativity, their derived combinators (map, then, and-then, join, sequence, map-m, filter-m) agree with bind and return, and every monadic block form means the same bind chain. Lenses satisfy get-put, put-get and put-put, composition focuses as the path says, and traversals visit every focus once in order.",
 ["inputs","programs"],"all values, continuations, monadic block forms, lenses, traversals and data structures that contain the focus",
 "Laws quantify over functions and structures; fixtures check single chains.",
 ["lib/prelude.eu","lib/lens.eu","lib/state.eu","lib/do.eu","src/core/desugar"],
 [("monad derivation","lib/prelude.eu"),("monadic desugaring","src/core/desugar/rowan_ast.rs"),("lens library","lib/lens.eu")],
 ["stdout of eu"])
p("C15","Type specifications accept exactly the values they describe",
 "Turning a type literal into a runtime specification and matching a value against it answers true exactly when the value belongs to the type as documented (primitives, lists, tuples, prefix lists, records open, closed and optional, unions, partials), and structural pattern matching accepts exactly the values its pattern describes.",
 ["inputs"],"all types of the data fragment crossed with all data values",
 "Membership is a relation over type x value; tests hold a few positive and fewer negative pairs.",
 ["src/eval/stg/typedata.rs","lib/prelude.eu","lib/contract.eu","src/core/typecheck/parse.rs","src/core/desugar"],
 [("type literals","src/eval/stg/typedata.rs"),("as-spec and match?","lib/prelude.eu")],
 ["stdout of eu"])
p("C16","Parsing is total and lossless",
 "For every input text the parser terminates without crashing, its syntax tree reproduces the text byte for byte with tree ranges that nest and tile, and every reported error lies inside the text. Text the parser accepts without error is processed by the later front-end stages without crashing.",
 ["inputs"],"all Unicode texts, well-formed or not",
 "Losslessness and totality quantify over arbitrary text; the fuzz regression corpus is a fixed list.",
 ["src/syntax/rowan","src/syntax/parser.rs","src/core/desugar/rowan_ast.rs","src/syntax/rowan/validate.rs"],
 [("lexer","src/syntax/rowan/lex.rs"),("string lexer","src/syntax/rowan/string_lex.rs"),("event parser","src/syntax/rowan/parse.rs")],
 ["eucalypt::syntax::rowan parse results","eu exit status"])
p("C17","Formatting never changes a program",
 "Formatting a file that parses, in either mode and at any width and indent, yields text that parses, keeps every comment, evaluates to the same result, and is left unchanged when formatted again; a file that does not parse is not rewritten. The check option reports a difference exactly when formatting would make one.",
 ["programs","configurations"],"all parseable files x formatting mode x width x indent",
 "Unit tests format chosen snippets; whitespace is significant in places (call parentheses, comments, metadata, strings), so corruption depends on combinations.",
 ["src/syntax/export/format.rs","src/driver/format.rs","src/driver/lsp/formatting.rs"],
 [("formatter","src/syntax/export/format.rs"),("command-line driver","src/driver/format.rs")],
 ["eu fmt stdout and exit status","evaluation of formatted text"])
p("C18","String literals denote the text they spell",
 "Every string literal (plain, raw, C-style) evaluates to exactly the text its escapes, doubled braces and interpolated expressions denote, with formatting specifications applied, interpolation seeing the scope it is written in, and string anaphora forming a function of the right arity in order.",
 ["programs"],"all literal contents and interpolated expressions of every string kind",
 "Escape and brace handling depends on adjacency of characters; tests spell out a few.",
 ["src/syntax/rowan/string_lex.rs","src/syntax/rowan/lex.rs","src/core/desugar/rowan_ast.rs","src/eval/stg/printf.rs"],
 [("string lexer","src/syntax/rowan/string_lex.rs"),("interpolation desugaring","src/core/desugar/rowan_ast.rs")],
 ["stdout of eu"])
p("C19","Inputs, imports and targets combine as documented",
 "Several inputs act as one program in which later inputs see and override earlier ones; a named input or import is visible only under its name, an unnamed one in its unit's scope; collecting inputs gathers each of them in order; the selected target, evaluand and arguments determine what is rendered. Suppressed and internal declarations are never rendered, internal ones are invisible to importers, and nothing else is dropped.",
 ["programs","configurations"],"all graphs of files, names, import positions, visibility marks, targets and command-line inputs",
 "Scoping across units depends on the combination of files and options; fixtures fix a few layouts.",
 ["src/driver/source.rs","src/driver/prepare.rs","src/driver/options.rs","src/syntax/import.rs","src/core/unit.rs","src/core/target.rs","src/core/metadata.rs","src/driver/unit_interface.rs"],
 [("unit merging","src/driver/source.rs"),("imports","src/syntax/import.rs"),("targets","src/core/target.rs"),("render visibility","src/core/metadata.rs")],
 ["stdout and exit status of eu"])
p("C20","Importing a document yields exactly its data",
 "Reading JSON, YAML, JSON Lines, TOML, CSV, XML, EDN or text gives the same keys, order, nesting, strings, numbers and nulls the document holds, nothing dropped, merged or reordered; documents that violate their format are refused with an error instead of being read as something else. Reading through parse-as gives the same data and never evaluates embedded expressions.",
 ["inputs"],"all documents of each format, valid and invalid",
 "Fixtures hold one small document per format; fidelity fails on particular keys, scalars, nesting and sizes.",
 ["src/import","src/eval/stg/parse_string.rs","src/core/desugar"],
 [("importers","src/import/mod.rs"),("parse-as","lib/prelude.eu")],
 ["stdout of eu -j"])
p("C21","Rendered output is valid and carries the data",
 "Output in JSON, YAML, TOML, EDN and eucalypt formats is well-formed, holds exactly the evaluated keys and values with lists in order, and reading it back gives equal data; text, HTML and embedded renderings escape what they must. A value the format cannot hold is refused with an error and no altered value is written, and rendering to a string gives the same document as rendering to output.",
 ["inputs","configurations"],"all data values x all output formats",
 "Escaping and representability depend on key and scalar content; tests render plain documents.",
 ["src/export","src/eval/emit.rs","src/eval/stg/emit.rs","src/eval/stg/render.rs","src/eval/stg/render_to_string.rs","src/driver/eval.rs"],
 [("emitters","src/export/mod.rs"),("emit intrinsics","src/eval/stg/emit.rs")],
 ["stdout bytes of eu -x <format>"])
p("C22","Type checking is advisory and consistent",
 "Type annotations and type checking never change a program's output, exit status or laziness unless strictness is requested; eu check and a run report the same type warnings; reports are deterministic; and strict mode fails exactly when a warning is reported.",
 ["programs","configurations"],"all programs with any annotations, right, wrong or malformed",
 "Non-interference compares pairs of runs over annotated and unannotated programs, which no test does.",
 ["src/core/typecheck","src/driver/check.rs","src/driver/eval.rs","src/driver/prepare.rs"],
 [("checker","src/core/typecheck/check.rs"),("driver","src/driver/check.rs")],
 ["stdout, stderr and exit status of eu and eu check"])
p("C23","Type reports are right about data",
 "For a declaration annotated with a type of the data fragment and bound to a literal value, a mismatch is reported when the value cannot belong to the type, and none is reported when it belongs; passing a value to a function annotated with such a parameter type behaves the same. The reported position lies on the offending expression's line.",
 ["inputs","programs"],"all pairs of types (primitives, literals, lists, tuples, records, unions, nested) and values",
 "Subtyping and assignability are relations over pairs; tests assert chosen pairs.",
 ["src/core/typecheck/subtype.rs","src/core/typecheck/check.rs","src/core/typecheck/unify.rs","src/core/typecheck/parse.rs","src/core/typecheck/types.rs"],
 [("subtyping","src/core/typecheck/subtype.rs"),("type parsing","src/core/typecheck/parse.rs")],
 ["stderr of eu check"])
p("C24","Every failure is a clean, located diagnostic",
 "Any program, document or command line either succeeds or ends with a nonzero status and a diagnostic on standard error: never a crash, abort, internal panic or silent partial success. Machine-readable diagnostics are valid JSON whose code is in the catalogue and whose file and position exist in the source, and an error raised by one expression points at the line of that expression or of its call.",
 ["inputs","programs"],"all programs and documents, valid and invalid, and every documented error class",
 "Robustness quantifies over arbitrary input; diagnostics tests snapshot fixed fixtures and are not runnable here.",
 ["src/bin/eu.rs","src/driver/error.rs","src/driver/eval.rs","src/eval/error.rs","src/core/error.rs","src/common/diagnostic_json.rs","src/common/sourcemap.rs","src/syntax/error.rs"],
 [("error conversion","src/driver/error.rs"),("JSON diagnostics","src/common/diagnostic_json.rs"),("source map","src/common/sourcemap.rs")],
 ["exit status and stderr of eu"])
p("C25","The language server answers truthfully under any edits",
 "Over any sequence of opens, edits, closes and requests the server stays alive, answers every request once, and computes answers from the current text: every position returned lies inside it, definitions point at the declaration that scope rules select, references and rename cover exactly the occurrences of one symbol so that a renamed program evaluates the same, and formatting edits applied to the text give what the formatter gives.",
 ["histories","inputs"],"all message histories over documents with multi-byte text, nested scopes and syntax errors",
 "Tests send fixed message sequences; staleness and position errors depend on edit history, UTF-16 columns and shadowing.",
 ["src/driver/lsp","src/syntax/rowan"],
 [("server loop","src/driver/lsp/mod.rs"),("symbol tables","src/driver/lsp/symbol_table.rs"),("queries","src/driver/lsp/query.rs"),("rename and actions","src/driver/lsp/actions.rs")],
 ["LSP messages on stdio"])
p("C26","Parallel maps equal their sequential counterparts",
 "For every pure function and list, each parallel operation gives the same value, in the same order, as its sequential definition, for any worker count, threshold and scheduling, and an element that fails makes the whole operation fail with that element's error. Faults in workers never yield a wrong or partial value, a hang, or leftover child processes.",
 ["schedules","fault_sequences","inputs"],"all functions, lists and result data x worker counts x thresholds x worker deaths",
 "Worker interleavings, chunk boundaries and serialised result shapes vary per run; tests use one size and setting.",
 ["src/eval/stg/parallel","lib/prelude.eu"],
 [("fork driver","src/eval/stg/parallel/driver.rs"),("serialisation","src/eval/stg/parallel/serialise.rs"),("fork","src/eval/stg/parallel/fork.rs")],
 ["stdout, process table"])
p("C27","IO actions run once, in order, and only when allowed",
 "Executing an IO program performs exactly the actions its bind chain reaches, each once and in order, with the documented standard input, output, error, exit code and timeout behaviour; a failed action stops the chain with an error. Without the allow flag no action runs at all, and actions that are built but not bound never run.",
 ["programs","histories","fault_sequences"],"all IO programs, commands, outputs and failure points",
 "Side-effect order and multiplicity are visible only in a recorded log of effects, which tests do not keep.",
 ["src/driver/bytecode_io_run.rs","src/driver/io_common.rs","src/eval/stg/io.rs","lib/prelude.eu"],
 [("IO run loop","src/driver/bytecode_io_run.rs"),("command execution","src/driver/io_common.rs")],
 ["a log file the executed commands append to","stdout and exit status of eu"])
p("C28","Streams deliver every record once, in order, on demand",
 "A stream import yields exactly the source's records in order, whatever their number or size, equal to the same document read whole; consuming a prefix works without reading beyond what it needs having any visible effect, re-use of the same stream sees the same records, and a malformed record fails when it is reached.",
 ["inputs","histories"],"all record sequences, sizes, encodings and consumption patterns",
 "Tests stream a few short files; buffering, sharing and laziness show on long, ragged or malformed ones.",
 ["src/eval/stg/stream.rs","src/import/stream.rs","src/driver/source.rs","src/eval/memory"],
 [("stream table","src/eval/stg/stream.rs")],
 ["stdout and exit status of eu"])
p("C29","The test runner's verdict is the truth",
 "Running tests reports a target as passed exactly when its evaluation satisfies its expectations, executes every test target of every file given, and exits zero exactly when all passed; a test that errors is never counted as a pass.",
 ["programs"],"all test files with any mixture of passing, failing, erroring and multi-format targets",
 "The runner is exercised on passing fixtures; verdict logic for failing mixtures is not.",
 ["src/driver/tester.rs","src/core/analyse/testplan.rs","lib/test.eu"],
 [("test plans","src/core/analyse/testplan.rs"),("runner","src/driver/tester.rs")],
 ["stdout and exit status of eu test"])
p("C30","Output that cannot be written is reported",
 "When the output destination fails part-way or is full, eu ends with a nonzero status and a diagnostic; when the reader has closed the pipe it ends quietly. Whatever was written is a prefix of the correct output, and a successful exit means that all of it was written.",
 ["fault_sequences"],"all write-failure points and sizes of output, in every format",
 "Tests write to healthy files; failures need an injected fault at each write.",
 ["src/driver/eval.rs","src/export","src/bin/eu.rs","src/eval/emit.rs"],
 [("write error classification","src/driver/eval.rs"),("emitter error propagation","src/export/error.rs")],
 ["exit status, stderr, bytes received by the reader"])
p("C31","Command-line arguments reach the program intact",
 "Arguments after the separator reach the program as the same list of strings, and parse-args turns every documented spelling of options (long, short, combined, attached and separate values, flags, positionals) into the defaults block updated with exactly those values, refusing unknown options and missing values.",
 ["inputs"],"all argument vectors against all option tables",
 "Option grammars are combinatorial; fixtures try a few command lines.",
 ["lib/prelude.eu","src/driver/options.rs","src/driver/source.rs","src/core/metadata.rs"],
 [("parse-args","lib/prelude.eu"),("argument passing","src/driver/options.rs")],
 ["stdout and exit status of eu"])
p("C32","Metadata stays with its value and out of the way",
 "Metadata attached to a value is returned exactly as attached and merged (outer winning), survives binding, passing and storing, and never changes the value, equality, arithmetic or rendering of what it is attached to, except where documented (suppression, tags, export control). Assertion operators pass their value through exactly when the assertion holds and fail otherwise.",
 ["programs","inputs"],"all values, metadata blocks, stacking orders and routes a value can take",
 "Transparency must hold for every primitive and route; tests attach metadata to a value or two.",
 ["src/eval/stg/meta.rs","src/eval/bytecode/machine.rs","src/core/metadata.rs","lib/prelude.eu"],
 [("metadata intrinsics","src/eval/stg/meta.rs"),("meta stripping in the machine","src/eval/bytecode/machine.rs")],
 ["stdout and exit status of eu"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import os,re
for d in P:
    assert len(d["title"])<=80,d["id"]
    for x in d["anchors"]["files"]+[m["where"] for m in d["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/"+x): print(d["id"],"missing",x)
print(len(P))
