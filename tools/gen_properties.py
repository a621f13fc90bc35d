#!/usr/bin/env python3
"""Single source of the property list; writes ../properties.jsonl."""
import json, os
RA = "crates/ruby-analysis/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Byte offsets and editor positions convert exactly, in both directions",
  "For every document text and every byte offset, the reported editor position is the line holding the offset (number of newlines before it) and the number of UTF-16 code units between the start of that line and the offset, an offset past the end or inside a character being taken as the end or the start of that character. For every line and character, the reported offset is the end of the longest prefix of that line (newline excluded) that has at most that many UTF-16 units, the end of the text when the line does not exist, and always lies on a character boundary. So converting any character-boundary offset to a position and back gives the same offset, also right after the text is replaced, and the project index places every offset of a file at the same position as the open document does.",
  ["inputs", "histories"], "every text (any Unicode, any mix of line ends, with and without a final newline), every offset and every (line, character), after any sequence of whole-text updates",
  "Unit tests use four short strings; the guarantee ranges over all texts, all offsets including those inside multi-byte characters, surrogate pairs split by the requested column and the end of a text without a final newline.",
  [RA + "indexer/source_document.rs", RA + "indexer/ruby_document.rs", RA + "engine/state.rs"],
  [("SourceDocument::offset_to_line_character", RA + "indexer/source_document.rs"),
   ("SourceDocument::line_character_to_offset", RA + "indexer/source_document.rs"),
   ("compute_line_offsets", RA + "indexer/source_document.rs"), ("SourceDocument::new/update", RA + "indexer/source_document.rs"),
   ("SourceLineIndex::new, SourceFile::byte_offset_to_line_character", RA + "engine/state.rs")],
  [("line_offsets", "byte offset of every line start plus the end of the text", RA + "indexer/source_document.rs")],
  ["SourceDocument public conversions", "RubyDocument position conversions", "AnalysisEngine::file(..).byte_offset_to_line_character"])

p("C02", "ERB templates are masked to Ruby byte for byte",
  "For every template the Ruby view has exactly the template's byte length, keeps every line break where it was, shows the Ruby code of every closed code or output tag at its original byte offsets with a statement separator at the closing delimiter, and shows blanks everywhere else: host text, delimiters, comment tags, escaped tags and everything from an unclosed tag on. An offset is reported as Ruby exactly when it lies in shown Ruby code, and the first unclosed tag, if any, is reported at its own offset.",
  ["inputs"], "every template text", "Tests show a handful of well-formed templates; the guarantee is about every byte of every template, including adjacent delimiters, empty and trimmed bodies, comment and escaped tags and unterminated tags.",
  [RA + "indexer/erb.rs"], [("mask_erb", RA + "indexer/erb.rs"), ("find_bytes", RA + "indexer/erb.rs"), ("EmbeddedRuby::is_ruby_offset", RA + "indexer/erb.rs")],
  observe=["mask_erb", "EmbeddedRuby::{source,is_ruby_offset,unclosed_tag_offset}"])

p("C03", "Re-indexing a file replaces exactly that file's facts",
  "After any sequence of adding facts, replacing a file's facts and removing files, the fact stores (symbols, methods, references, reference candidates, types, graph, diagnostics and diagnostic candidates) contain exactly the facts of the last version of every file: nothing stale, nothing lost, nothing duplicated, nothing of another file touched. Every lookup path (by name, by owner, by file, whole store, counts) agrees with that content, and the lookups of symbols and methods by name list facts in file and source order whatever order the files were indexed in.",
  ["histories"], "every sequence of add, replace-file and remove-file operations over any files and facts",
  "Tests replay one or two replacements; slot reuse, index cleanup and ordering only go wrong after particular interleavings of removals and re-insertions across files.",
  [RA + "core/symbol_store.rs", RA + "core/method_store.rs", RA + "core/reference_store.rs", RA + "core/type_store.rs", RA + "core/graph_store.rs", RA + "core/diagnostic_store.rs", RA + "core/diagnostic_candidate_store.rs", RA + "core/file_owned_index.rs"],
  [("replace_file / remove_file / add", RA + "core/*_store.rs"), ("place_appended_file_facts", RA + "core/file_owned_index.rs"), ("insert_fact / take_fact free-list arena", RA + "core/*_store.rs")],
  [("facts, free_facts", "arena of facts with a free list", RA + "core/symbol_store.rs"), ("facts_by_fqn, facts_by_file", "secondary indexes", RA + "core/symbol_store.rs")],
  ["SymbolStore", "MethodStore", "ReferenceStore", "TypeStore", "GraphStore", "DiagnosticStore", "DiagnosticCandidateStore public API"])

p("C04", "Indexing status only moves forward and ignores stale runs",
  "For every sequence of status operations on a project, each accepted update increases the sequence number by one, each new run increases the generation by one and cancels the previous run, and within one run the phase, and the completed count within a phase, never go back. An update carrying a generation other than the current one, or arriving after the run became ready, failed or was cancelled, is refused and changes nothing. A failure always carries its reason, and only a failed run carries one; the readiness times appear exactly when the readiness phase has been announced.",
  ["histories", "schedules"], "every sequence of begin, transition, fail, cancel and snapshot calls, in any order and with any generation",
  "The tests exercise a few fixed sequences; the guarantee is an invariant over every interleaving of a newer run with late updates of an older one.",
  ["src/indexing_status.rs"], [("ProjectIndexingStatus::{begin_run,transition,fail,cancel,cancel_current,is_current_run,snapshot}", "src/indexing_status.rs"), ("IndexingPhase::{rank,is_terminal}", "src/indexing_status.rs")],
  [("ProjectIndexingState", "generation, sequence, phase, progress, failure under one mutex", "src/indexing_status.rs")], ["ProjectIndexingStatus public API"])

p("C05", "Indexing resource budgets are never exceeded and always returned",
  "At every moment the tasks, CPU lanes, transient memory and I/O slots held by admitted indexing work stay within the configured limits, and the amounts reported as in use equal the sum over the work still running; finished, failed, panicked, cancelled or dropped work returns exactly what it took, once. A request that could never fit the limits is refused at once instead of waiting forever, and a cancelled request never starts. Waiting work that fits is admitted by priority (the active project first), then arrival, except that after one priority admission past fitting background work the oldest fitting background work goes next; project-parallel work of other projects is held back while the active project's navigation is pending; and no work whose turn it is stays asleep while the resources it needs are free.",
  ["histories", "configurations", "schedules"], "every policy, every sequence of requests, completions and drops",
  "Tests try a few fixed policies and request sizes; the guarantee is over every combination of limits, sizes (up to integer limits) and release order.",
  ["src/indexing_resources.rs"], [("reserve_resources / request_fits_available / release on drop", "src/indexing_resources.rs"), ("best_admissible_entry_index", "src/indexing_resources.rs"), ("validate_request_fits_policy", "src/indexing_resources.rs")],
  [("resource totals in use", "sum of admitted requests", "src/indexing_resources.rs")], ["resource governor public API"])

p("C06", "Indexing scheduler honours limits, priorities and fairness",
  "At every moment at most the configured number of indexing jobs run and at most one per project. Among jobs whose project is not running, the one with the highest priority (the active project first) starts first, earlier arrivals before later ones at equal priority, except that after one priority job started past a waiting background job the oldest startable background job goes next. Changing the active project never loses or reorders other waiting jobs. A cancelled or dropped waiter never runs and never keeps a slot or a queue place, and a waiter whose turn it is is never left asleep.",
  ["histories", "schedules", "configurations"], "every set of waiting and running jobs, every limit, every order of arrival, completion, cancellation and reprioritisation",
  "Tests check a few fixed arrival orders; admission must be right for every queue content.",
  ["src/indexing_scheduler.rs"], [("best_admissible_entry_index(_with_fairness)", "src/indexing_scheduler.rs"), ("wait / drop of permits", "src/indexing_scheduler.rs")],
  [("scheduler state", "waiting entries, active projects, fairness counter", "src/indexing_scheduler.rs")], ["scheduler public API"])

p("C07", "Bounded single-flight caches stay bounded, coherent and never cache failures",
  "For every history of lookups, a bounded single-flight cache never keeps more finished entries or more total weight than its limits, evicts oldest first and only as much as needed, and always returns for a key the value produced for that key. A production that fails or panics is reported to everyone waiting for it, is never served later and never blocks its key; while one production of a key is in flight no second one starts; the reuse counters add up.",
  ["histories", "configurations", "schedules"], "every sequence of keys, weights, failures and limits",
  "Tests use two or three entries and one limit; evictions and counters must be right for every history.",
  ["src/single_flight.rs"], [("evict_completed_to_limits", "src/single_flight.rs"), ("get_or_produce paths", "src/single_flight.rs")], None, ["SingleFlightCache, BoundedSingleFlightCache, BlockingBoundedSingleFlightCache"])

p("C08", "A persisted product is read back exactly or not at all",
  "A product written to the persistent cache and read back under the same key is byte for byte what was written; a file that was truncated, extended, bit-flipped, written by another schema version or placed under another key never yields anything but the exact product published for the requested key: it is reported as corrupt and rebuilt, whatever its content, without panicking or allocating beyond the size limits. Publishing replaces a stored file in one step, after its bytes were forced to disk and under its key's lock, so a crash or failed write leaves the old product or none, never part of one; locks are released again. Cleaning brings the cache within its configured limits by removing the oldest products, only as many as needed, and nothing else.",
  ["inputs", "crash_points", "fault_sequences"], "every product, every corruption or truncation of the stored file",
  "Tests flip one or two chosen bytes; the guarantee is over every stored byte, every truncation point and every hostile header.",
  ["src/persistent_cache.rs"], [("encode_envelope / decode_envelope", "src/persistent_cache.rs"), ("encode/decode_compiled_wasm_payload", "src/persistent_cache.rs"), ("validate_cache_id, cleanup_to_limits", "src/persistent_cache.rs")], None,
  ["PersistentDerivedProductCache public API"])

p("C09", "Type unions are canonical and unknown is never hidden",
  "Building a union of types gives the same result whatever the order, repetition or grouping of the members (a member that is itself a canonical union counts as its members); it contains every alternative it was given and nothing else, a single one is returned unchanged, and an unknown one makes the whole union unknown. The number of structural variants in a union stays within the documented limit, beyond which the result is unknown rather than a truncated claim. Adding or removing nil, merging two types and subtracting one give the union of exactly the alternatives meant. Evidence gathered from several places yields a union only when every place is known. The detectors find an unknown anywhere in a type, and a structural type is built exactly when its keys are distinct, its field count and depth are within the limits and nothing in it is unknown.",
  ["inputs"], "every collection of types, nested to any depth", "Tests join two or three types; order-independence, idempotence and associativity range over all collections, and an unknown can sit at any depth.",
  [RA + "core/ruby_type.rs", RA + "core/shape_type.rs"], [("RubyType::{union,union_with,optional,make_nilable,remove_nil,subtract}", RA + "core/ruby_type.rs"), ("canonical_union_members, union_from_proven", RA + "core/ruby_type.rs"), ("contains_unknown, union_members_contain_unknown", RA + "core/ruby_type.rs"), ("ShapeType::try_new", RA + "core/shape_type.rs")], None, ["RubyType and ShapeType public constructors"])

p("C10", "The Java class-file reader is total, bounded and faithful",
  "For every byte string and limits the class-file reader returns a class description or an error: it never panics, never reads outside the input, and never loops, nests or allocates beyond the limits (annotations nested too deep and types of more than 255 array dimensions are refused). Every well-formed class file within the limits is accepted, and the reported class, superclass, interfaces, members, flags, descriptors, signatures, annotations, line and parameter tables are those encoded in the file; text is decoded by Java's modified UTF-8 rules, and malformed text, dangling or mistyped pool references, duplicated attributes and trailing bytes are refused.",
  ["inputs"], "every byte string; every well-formed class file", "Tests parse a few compiler-made classes and a few mutations; hostile jars on a user's classpath can contain any bytes.",
  ["crates/jvm-metadata/src/classfile.rs", "crates/jvm-metadata/src/descriptor.rs"], [("parse_class, ClassParser, Cursor, ConstantPool", "crates/jvm-metadata/src/classfile.rs"), ("decode_modified_utf8", "crates/jvm-metadata/src/classfile.rs"), ("parse_field_descriptor, parse_method_descriptor", "crates/jvm-metadata/src/descriptor.rs")], None, ["parse_class, parse_field_descriptor, parse_method_descriptor"])

p("C11", "Argument-count diagnostics follow Ruby's calling rules exactly",
  "For every method signature and every call, a wrong-number-of-arguments problem is reported exactly when the positional arguments break the method's parameter list: fewer than the required ones (destructured ones included) or more than required plus optional without a rest parameter, where a splat or forwarding leaves the lower side open, keywords given to a method without keyword parameters count as one options hash, and a trailing argument that may be an options hash for a method with keyword parameters is only counted against the call if the call is wrong either way. So no call that Ruby accepts is reported. An unknown keyword is reported exactly for the given ones the method does not declare (unless it takes any), a missing keyword exactly when a required one is not given and nothing could supply it; a suggestion is always a declared keyword, the closest one within the allowed edit distance.",
  ["inputs", "programs"], "every parameter list and every call shape", "Tests check a dozen call shapes; the rule must hold for every combination of parameter kinds and argument counts.",
  [RA + "engine/diagnostic_helpers.rs", RA + "engine/diagnostics.rs"], [("MethodArity::from_params, arity_mismatch", RA + "engine/diagnostic_helpers.rs"), ("levenshtein, suggestion_threshold, closest_keyword", RA + "engine/diagnostic_helpers.rs")], None, ["diagnostics of indexed files"])

p("C12", "Identities are one-to-one and stale analysis is never committed",
  "For every history of registered files, the same path always gets the same file identity, two different paths never share one, and looking an identity up gives back the path it was made for; the same holds for the identities of names and constant lookups. Registering a file records exactly the given text, kind and package and changes no other file. A snapshot of a file stays valid exactly as long as that file's registered text, kind and package are unchanged: conditional registration and commit of collected facts go through when, and only when, the snapshot is still the current one of the same engine.",
  ["histories"], "every history of registrations, snapshots, conditional registrations and fact commits, over every path spelling",
  "Tests register two paths and one stale snapshot; identity and staleness bugs only appear for particular path spellings and histories.",
  [RA + "engine/file_id_map.rs", RA + "engine/state.rs"],
  [("FileIdMap::get_or_insert / path / get", RA + "engine/file_id_map.rs"), ("AnalysisEngine::register_indexed_file, source_snapshot_for_path", RA + "engine/state.rs"),
   ("AnalysisEngine::register_file_borrowed_if_snapshot, replace_facts_if_source_snapshot", RA + "engine/state.rs"), ("NameRegistry::intern_fqn / fqn_id / fqn", RA + "engine/state.rs")],
  None, ["FileIdMap", "AnalysisEngine public operations"])
p("C13", "Highlighting and selection ranges name the right stretches of text",
  "For every program, decoding the answer to a semantic-token request by the protocol's relative encoding yields exactly one token for each variable, constant and method name the server recognises in the syntax tree, at that name's line and UTF-16 column, with its length, kind and modifiers, in document order, and without overlaps in a valid program. The answer to a selection-range request has one chain per cursor, in the order asked: each range is the extent of a syntax element that contains the cursor, every range strictly encloses the one before it, the chain starts at the smallest such element, and an element containing the cursor is left out only if it crosses one that is in the chain; where no element contains the cursor, the answer is the empty range at the cursor.",
  ["inputs"], "every program text, valid or broken, Ruby or ERB, and every cursor position",
  "Tests decode a few token streams of programs whose nodes are visited in document order and one selection chain; the relative encoding goes wrong only where the syntax tree is not in the order of the text.",
  [RA + "indexer/semantic_tokens.rs", RA + "indexer/selection_ranges.rs", "src/capabilities/semantic_tokens.rs"],
  [("TokenVisitor::add_token and the encoding of tokens", RA + "indexer/semantic_tokens.rs"), ("SelectionRangeCollector::collect_location / finish", RA + "indexer/selection_ranges.rs"),
   ("get_semantic_tokens_full", "src/capabilities/semantic_tokens.rs"), ("handle_selection_ranges / selection_range_from_chain", "src/capabilities/selection_ranges.rs")],
  None, ["textDocument/semanticTokens/full", "textDocument/selectionRange"])
p("C14", "Renaming a local variable changes that variable everywhere and nothing else",
  "For every program and every cursor on a local variable, the edits of a rename are exactly one for each place that names the variable Ruby binds at the cursor - writes, operator writes, reads, targets of multiple assignments and patterns, parameters and block-local variables, through all nested blocks and lambdas - and never one for a variable of the same name that belongs to another method, class, module, block or lambda, or to the receiver, superclass or path of a definition. In a shorthand pair or pattern (x:) the key stays and the new name is added after the colon. A variable whose name is part of an interface (a keyword parameter, a numbered parameter) is not renamed at all. Renaming to an unused name, with the edits applied, turns a valid program into a valid program with the same syntax tree but for that name. A prepare request on a written-out name answers with that name's extent exactly when the rename has edits.",
  ["inputs"], "every program text, valid or broken, Ruby or ERB, every cursor position and new name",
  "Tests rename a dozen variables in short programs; the mistakes are in how scopes nest - parameters of blocks in default values, receivers of definitions, shorthand, block-local variables - and only an edit that silently changes what another variable means shows them.",
  [RA + "indexer/rename.rs", "src/capabilities/rename.rs"],
  [("RenameVisitor::find_rename_targets / visit_*", RA + "indexer/rename.rs"), ("handle_rename / handle_prepare_rename", "src/capabilities/rename.rs")],
  None, ["textDocument/rename", "textDocument/prepareRename"])
# ---- properties this technique cannot decide here (not_applicable) ----
p("C20", "Re-indexing after any edit history equals indexing from scratch",
  "After any sequence of opening, editing, renaming and deleting files, every query answers as if the current files had just been indexed from scratch.",
  ["histories", "inputs"], "every edit history over every program", "The simulation tests sample short histories of small projects.",
  [RA + "engine/state.rs", "src/indexer/coordinator.rs"], [("AnalysisEngine commit and resolution", RA + "engine/state.rs")])
p("C21", "Only results of the latest document version are ever shown",
  "Whatever the interleaving of edits, background indexing and cancellation, diagnostics and answers published for a document are computed from its latest version known at publication time.",
  ["schedules", "histories"], "every interleaving of tasks", "Tests exercise a few fixed interleavings.",
  ["src/capabilities/indexing.rs", "src/indexer/coordinator.rs"], [("snapshot checks before commit", "src/capabilities/indexing.rs")])
p("C22", "Projects opened together never see each other's code",
  "With several roots open, no query answered for a file of one project returns a definition, type or diagnostic that exists only in another project.",
  ["histories", "configurations"], "every set of roots and every history", "Tests use two fixture projects.",
  ["src/server.rs", "src/indexer/coordinator.rs"], [("project selection by path", "src/server.rs")])
p("C23", "The command line and the editor report the same problems",
  "For every project the check command reports exactly the problems the editor shows for the same files.",
  ["programs"], "every program", "Tests compare a handful of fixtures.", ["src/check.rs", "src/capabilities/diagnostics.rs"], [("check", "src/check.rs")])
p("C24", "No source text can crash the server",
  "For every file content, valid Ruby or not, indexing and every editor request on it terminate without crashing the process.",
  ["inputs"], "every byte string", "Tests feed a few broken snippets.", [RA + "indexer"], [("AST visitors over Prism", RA + "indexer")])

P.sort(key=lambda x: x["id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
