MODEL = ("The real eu, built from the working tree, is run on generated programs; an independent reference model is the "
         "oracle. Assurance is that of the executions observed (counts in the evidence). ")
HOOKS = ["cde314b"]
T = {
 "C01": dict(technique="runtime monitoring: value oracle (own call-by-need interpreter of the language) over typed random programs and form tables, six engine configurations",
             note=MODEL + "Programs are typed and bounded in size; operator tables, anaphora, sections, destructuring, merge, generalised lookup and brackets are covered by separate form generators."),
 "C02": dict(technique="runtime monitoring: online trace monitor (dbg events counted against a call-by-need model; failing and endless sites must stay silent)",
             note="Every site of a generated program is a trace, a failure or an endless loop according to how often the model evaluates it; one run of the real eu decides value, laziness and sharing together. Assurance is that of the executions observed."),
 "C03": dict(technique="runtime monitoring: differential oracle, byte comparison of output and status of the real eu across ten engine configurations",
             note="Reference is the default configuration; generated, mutated (failing) and prelude-call programs, imports, targets and shadowed prelude names, in seven formats. Names missing from code that is never needed are not compared with dead-code elimination off."),
 "C04": dict(technique="runtime monitoring: collection-schedule stress (hooked cadence, forced evacuation, poisoned free memory, heap verifier) with an uncollected run as the oracle",
             note="The evidence records collections, large objects and schedules observed. Assurance is that of the executions observed."),
 "C06": dict(technique="runtime monitoring: value oracle (exact integer / IEEE model) over generated operations, four engine configurations",
             note=MODEL + "Python's integers and doubles are the model; libm pow is compared within one unit in the last place."),
 "C07": dict(technique="runtime monitoring: law and value oracle over generated pairs, triples and lists, four engine configurations",
             note=MODEL + "Reflexivity, symmetry, transitivity, totality and agreement of operators, min/max and sorts are checked on each sampled tuple."),
 "C08": dict(technique="runtime monitoring: value oracle (Python string, re, printf, base64, sha256 models) over generated Unicode text",
             note=MODEL + "Regular expressions are drawn from the subset on which the Rust regex crate and Python re agree; a real shell is the oracle of sh-escape."),
 "C09": dict(technique="runtime monitoring: value oracle (Python list models) over generated lists and arguments",
             note=MODEL + "Each list function has a model written from its documentation; failures are required where documented."),
 "C10": dict(technique="runtime monitoring: value oracle (ordered-dict models) over generated blocks, key order observed",
             note=MODEL + "Key order is observed by rendering each block as a list of pairs."),
 "C11": dict(technique="runtime monitoring: model-based histories (Python set, list, n-d array, union-find models) with every intermediate version re-observed",
             note=MODEL + "After each update the older versions are listed again, so an update that disturbs its source is seen."),
 "C12": dict(technique="runtime monitoring: cross-configuration reproducibility, law monitors (permutation, sampling, stream continuation) and chi-square monitors over recorded draws",
             note="The real eu is run under four configurations per probe; uniformity is judged at fixed seeds with a limit near the 1-1e-9 quantile, so the verdict is deterministic. Assurance is that of the executions observed."),
 "C13": dict(technique="runtime monitoring: value oracle (Python datetime, proleptic Gregorian) over generated date-times, offsets and spellings",
             note=MODEL + "Years 1 to 9999; named zones only where Python's zone data is installed and the local time is unambiguous."),
 "C14": dict(technique="runtime monitoring: value oracle (independent monad, lens, writer and state models) over generated programs and laws",
             note=MODEL + "Monad laws are also checked on each sampled triple of value and functions."),
 "C15": dict(technique="runtime monitoring: membership oracle (independent model of types, patterns and violations) over generated type x value pairs",
             note=MODEL + "Values are generated near the type (members, one-step perturbations) as well as freely; rendered specifications are compared as token sets."),
 "C16": dict(targets="eu probe", technique="runtime monitoring: invariant monitors over the real parser's trees (text reproduced, ranges tile and nest, errors in range, no crash) over generated and mutated texts",
             note="A line server links the crate and parses each text; the fate of accepted texts in later stages is watched through the eu binary. Assurance is that of the texts observed."),
 "C17": dict(targets="eu probe", technique="runtime monitoring: differential monitor of text before and after formatting (tree shape, comments, evaluated output, idempotence, file effects)",
             note="The real formatter runs at drawn widths, indents and modes on generated, mutated and shipped files; --write and --check act on scratch files only."),
 "C18": dict(technique="runtime monitoring: value oracle (independent spelling model) over generated literals in generated scopes",
             note=MODEL + "Every pair of C-style escapes is enumerated."),
 "C19": dict(technique="runtime monitoring: value oracle (independent model of scoping, merging, naming, visibility and targets) over generated projects of files and command lines",
             note=MODEL + "Files lie in several directories, some under the same name; data files are in JSON, YAML, TOML and EDN; names that must not be visible are asked for too. Git imports run against a repository made for the run."),
 "C20": dict(technique="runtime monitoring: data oracle (documents are generated together with their data) over eight formats and three ways of reading; refusal monitor over malformed documents",
             note=MODEL + "Keys, order, nesting and scalars are compared entry by entry; YAML's block syntax comes from a stand-in parser, so only what the importer makes of its events is judged."),
 "C21": dict(technique="runtime monitoring: independent readers (json, yaml, tomllib, own EDN reader, html.parser) over generated values in every format and way of output, with read-back through eu and refusal monitors",
             note=MODEL + "The value is known from its generation; values are spelt as literals and as computed lists and blocks, with tags and suppressed parts."),
 "C24": dict(technique="runtime monitoring: diagnostic monitor (exit status, streams, JSON schema, spans inside their file, no crash, no internal text) over failing programs, documents and command lines",
             note="Faults of known kinds are planted in generated programs, documents and command lines; each diagnostic is checked for its position, its code and its text. Assurance is that of the failures observed."),
 "C28": dict(technique="runtime monitoring: record oracle over generated streams (jsonl, csv, text) and consumption patterns, an open-ended input for laziness, agreement with the document read whole",
             note=MODEL + "Malformed records are placed before and after what is consumed; keys and columns are observed in order. Floats are compared to 15 digits (known finding)."),
 "C29": dict(technique="runtime monitoring: verdict oracle over generated test suites (several targets, formats, custom validations, files that fail)",
             note=MODEL + "Verdicts are known from generation and compared per test, per file and for the run's exit status."),
 "C30": dict(technique="runtime monitoring with fault injection: output sinks that fail at a drawn write (LD_PRELOAD shim, full devices, closed pipes, file size limits) and signals",
             note="Each run either delivers the complete bytes and status 0, or reports a failure; files it was to replace are observed afterwards. Assurance is that of the faults injected."),
 "C31": dict(technique="runtime monitoring: value oracle (independent model of argument parsing, environment, stdin and program text) over generated command lines",
             note=MODEL + "Arguments, environments and inputs are drawn with hostile text (quotes, equals signs, Unicode, options after --)."),
 "C32": dict(technique="runtime monitoring: value oracle (independent model of metadata: attach, merge, read, survive) over generated expressions, four engine configurations",
             note=MODEL + "Metadata is attached by declarations and by // operators and read back after calls, lookups, merges, lists and blocks."),
}
NA = {}
