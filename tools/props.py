"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
HOOKS = ["6a1c7b1"]
def p(id, title, statement, over, text, why, files, mech, observe=None, note=None, claim=True, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files, mech=mech, observe=observe or [], note=note, claim=claim, hook=hook))
C = "crates/ass-core/"
E = "crates/ass-editor/"
RR = "crates/ass-renderer/src/"

p("C01", "Reading any input terminates without a panic",
  "For every text or byte input, parsing, tokenizing, analysing, linting, validating and decoding return a value or an error: no panic, no arithmetic overflow, no endless loop, no out-of-range access.",
  "inputs configurations", "every UTF-8 text and byte string, every analysis option and script version",
  "Tests feed a few dozen malformed files; totality ranges over all damaged, truncated, multi-byte and extreme-number inputs.",
  [C+"parser/", C+"tokenizer/", C+"analysis/", C+"utils/"],
  [("recovery in the main parser loop", C+"parser/main/helpers.rs"), ("override block scanner", C+"analysis/events/text_analysis/parser.rs"), ("checked time arithmetic", C+"utils/time.rs")],
  ["Script::parse", "ScriptAnalysis::analyze", "lint_script", "AssTokenizer::tokenize_all"])
p("C02", "Every parsed element points at exactly its own source text",
  "Every element of a parsed script lies inside the source at character boundaries, its reported line and column are those of its first byte, its borrowed fields are substrings of its own line, elements keep source order, looking up a position finds the section that contains it, the script's own check of its spans accepts it, and a position tracker counts offsets, lines and columns as the text has them.",
  "inputs", "every document, well-formed or damaged, with LF or CRLF and any Unicode",
  "Tests check positions of single-section ASCII samples; blank lines, CRLF, BOM, damage and multi-byte text move every offset.",
  [C+"parser/main/", C+"parser/sections/", C+"parser/position_tracker/", C+"parser/script/lookup.rs"],
  [("position tracker", C+"parser/position_tracker/tracker.rs"), ("section loop", C+"parser/main/section.rs")],
  ["Section::span", "Style::span", "Event::span", "Script::section_at_offset"])
p("C03", "Serializing and reparsing a script loses nothing",
  "For every parsed script, writing it out and parsing the result gives the same sections, fields, styles, events, embedded data and version, and writing again gives the same text; the same holds for single style and event lines under the script's formats.",
  "inputs", "every document with any column order, subset, extra columns, parents, event kinds and embedded files",
  "Tests round-trip default-format samples; a column dropped or reordered only under particular formats is not sampled.",
  [C+"parser/script/serialize.rs", C+"parser/ast/"],
  [("event/style serialization with format", C+"parser/ast/event/serialization.rs"), ("style conversion", C+"parser/ast/style/conversion.rs")],
  ["Script::to_ass_string", "to_ass_string_with_format", "parse_event_line_with_context"])
p("C04", "Parsing extracts exactly what the document says",
  "Each field of each line comes out under the column its Format line gives it (case-insensitively, trimmed, text keeping its commas), absent columns come out empty, and no line is lost, invented or attributed to another section, whatever the layout: comments, blank lines, BOM, line endings, padding; a line read alone, under its section or by its own look, says what it says in its document.",
  "inputs", "every document generated from a model, under every insignificant layout variation",
  "Tests assert a handful of fields of fixed samples; the mapping must hold for every column permutation and layout.",
  [C+"parser/sections/", C+"parser/main/", C+"parser/binary_data/"],
  [("format mapping", C+"parser/sections/events/static_parser.rs"), ("style rows", C+"parser/sections/styles/parse_internal.rs")],
  ["Script::sections", "ScriptInfo::get_field"])
p("C05", "Damage to one line does not change any other",
  "Inserting a malformed line, an unknown section, an unclosed header or stray text leaves every other line, and every other section, parsed exactly as without it; rejected structure is reported as an issue, and positions stay right.",
  "inputs fault_sequences", "every document with any number of damaged lines or structural faults inserted between its lines",
  "Tests damage one line of fixed samples; isolation must hold at every place and combination.",
  [C+"parser/main/", C+"parser/sections/"],
  [("skip to next section", C+"parser/main/helpers.rs"), ("per-line recovery", C+"parser/sections/")],
  ["Script::issues", "Script::sections"])
p("C06", "Incremental reparsing equals parsing the edited text",
  "After any edit described by a byte range and a replacement, incremental and partial reparsing of the previous script give the sections, fields, positions, formats and version that parsing the edited text from scratch gives, or an error that leaves the caller's text usable.",
  "inputs histories", "every document and every sequence of edits, at any position, including ones that create, split, rename or remove sections",
  "Tests edit one event of a sample; equality must hold for every edit position and every chain of edits.",
  [C+"parser/script/incremental.rs", C+"parser/script/partial.rs", C+"parser/incremental/"],
  [("affected sections", C+"parser/incremental/"), ("partial reparse", C+"parser/script/partial.rs")],
  ["Script::parse_incremental", "Script::parse_partial"])
p("C07", "Applying a computed delta yields the new script",
  "The difference computed between two scripts lists exactly the sections that changed, is empty only when they are equal, and applied to the old script yields the new one.",
  "inputs", "every pair of documents, related by edits or not",
  "Tests diff a few hand-made pairs; insertion, removal and reordering of sections of the same kind are not covered.",
  [C+"parser/script/delta.rs", C+"parser/script/delta_eq.rs"],
  [("delta computation", C+"parser/script/delta.rs"), ("section equality", C+"parser/script/delta_eq.rs")],
  ["calculate_delta", "ScriptDelta::apply"])
p("C08", "Streaming gives the same result for every chunking",
  "Feeding a document in any chunks, cut anywhere including inside characters and line endings, is accepted or rejected alike and gives the same sections, counts and line-processor state as feeding it at once.",
  "inputs schedules", "every document and every division of its bytes into chunks",
  "Tests use a few fixed chunk sizes on ASCII text; cuts inside multi-byte characters and CRLF pairs are not sampled.",
  [C+"parser/streaming/"],
  [("line buffering", C+"parser/streaming/"), ("state machine", C+"parser/streaming/")],
  ["StreamingParser::feed_chunk", "StreamingParser::finish"])
p("C09", "Tokens cover the input and do not depend on SIMD",
  "Tokens come in source order without overlapping, leave out only insignificant characters, report the line and column of their first byte, and are the same whether or not the vectorised scanner is compiled in.",
  "inputs configurations", "every text, in builds with and without SIMD",
  "Tests compare the two scanners on a few short strings; lane boundaries, multi-byte text and line counting need all lengths and alignments.",
  [C+"tokenizer/"],
  [("scalar scanner", C+"tokenizer/scanner/"), ("SIMD scanner", C+"tokenizer/simd/")],
  ["AssTokenizer::next_token"])
p("C10", "Times parse, format and round-trip exactly",
  "A time in range formats to text that parses back to it, parsing accepts exactly the written form with its fractional digits counting centiseconds, ordering is preserved, and out-of-range or malformed text is an error, never a wrong value.",
  "inputs", "every time value and every candidate time string",
  "Tests check a few dozen strings.",
  [C+"utils/"], [("parse_ass_time / format_ass_time", C+"utils/time.rs")], ["parse_ass_time", "format_ass_time"])
p("C11", "Colours and numbers parse to their value or an error",
  "A colour in any accepted notation yields its four channels, formatting and parsing are inverse, malformed colours and numbers are errors, and channel order never mixes.",
  "inputs", "every colour value in every notation and every candidate string",
  "Tests check a few dozen colours.",
  [C+"utils/"], [("parse_bgr_color", C+"utils/color.rs"), ("hex parsing", C+"utils/")], ["parse_bgr_color", "parse_numeric"])
p("C12", "Embedded files decode to the bytes that were encoded",
  "Bytes embedded with the format's encoding, split into lines in any legal way, decode to the same bytes through the library, for fonts and graphics alike, and malformed data is an error or a truncated prefix, never other bytes.",
  "inputs", "every byte string, line width and number of entries",
  "Tests decode a few short strings; padding, line splits and every residue length are not covered.",
  [C+"utils/", C+"parser/binary_data/", C+"parser/ast/media/"], [("UU decoder", C+"utils/uu.rs"), ("media entries", C+"parser/binary_data/")], ["decode_uu_data", "Font::decode_data"])
p("C13", "Text decoding utilities agree with the Unicode definitions",
  "Encoding detection, BOM handling, line-ending normalisation and UTF-8 repair agree with their definitions on every byte string: valid UTF-8 is accepted unchanged, a BOM is removed once, repaired text is valid UTF-8 that keeps every valid run.",
  "inputs", "every byte string", "Tests use short samples per encoding.",
  [C+"utils/utf8/"], [("detection", C+"utils/utf8/"), ("recovery", C+"utils/utf8/")], ["detect_encoding", "validate_utf8", "recover_utf8", "normalize_line_endings"])
p("C14", "Timing queries equal their brute-force definitions",
  "Reported overlapping pairs are exactly the pairs on screen at a common instant, and sorting, spans, averages and per-event timing relations equal their direct definitions, for any event order, including zero-length, reversed and identical events.",
  "inputs", "every list of event times", "Tests use two to five ordered events.",
  [C+"analysis/events/overlap/", C+"analysis/events/utils/", C+"analysis/events/dialogue_info/"],
  [("sweep line", C+"analysis/events/overlap/detection.rs")], ["find_overlapping_events", "calculate_total_duration", "DialogueInfo::timing_relation"])
p("C15", "Override tags and visible text are separated exactly",
  "Analysis of a line yields its visible text, its tags in order with name, arguments and position, and its counts, exactly as written, whatever tags, plain braces, escapes and drawings it mixes.",
  "inputs", "every dialogue text", "Tests analyse a few lines; positions in multi-byte text and unclosed blocks are not covered.",
  [C+"analysis/events/text_analysis/", C+"analysis/events/tags/"],
  [("text walk", C+"analysis/events/text_analysis/parser.rs"), ("tag scanner", C+"analysis/events/tags/parser.rs")], ["TextAnalysis::analyze", "parse_override_block"])
p("C16", "Style resolution follows the inheritance chain",
  "A resolved style has the value its own definition gives each property and otherwise (left empty, or at the neutral 0 or 100 where that means unset) its parent's resolved value, independent of definition order, layout scaling multiplies each scalable property once, and cycles and unknown parents are reported and terminate.",
  "inputs", "every style set: chains, forests, cycles, duplicates, any order", "Tests use chains of two or three styles in order.",
  [C+"analysis/styles/"], [("dependency order", C+"analysis/styles/analyzer/dependency.rs"), ("inheritance", C+"analysis/styles/resolved_style/inheritance.rs")], ["StyleAnalyzer::resolved_styles", "ResolvedStyle"])
p("C17", "Lint results are exactly what the rules define",
  "Each built-in rule reports an issue for a script exactly when its documented condition holds, counts and severities obey the configuration, and disabling a rule or raising the threshold only removes issues.",
  "inputs configurations", "every script and lint configuration", "Tests have one positive and one negative sample per rule.",
  [C+"analysis/linting/"], [("rules", C+"analysis/linting/rules/"), ("runner", C+"analysis/linting/runner.rs")], ["lint_script", "LintConfig"])
p("C18", "Script updates are exact, tracked and all-or-nothing",
  "Line updates, additions and batches change exactly the lines they name and read back through serialization, an atomic batch with any failing operation changes nothing, and the recorded changes are exactly those made.",
  "histories inputs", "every sequence of line updates, additions, batches and tracking switches", "Tests apply single updates to a small sample.",
  [C+"parser/script/update.rs", C+"parser/script/batch.rs", C+"parser/script/tracking.rs", C+"parser/script/mutate.rs"],
  [("update_line_at_offset", C+"parser/script/update.rs"), ("atomic batch", C+"parser/script/batch.rs")], ["Script::update_line_at_offset", "Script::atomic_batch_update"])
p("C19", "Built-in tag handlers and plugins follow their contracts",
  "Registered handlers are found by exactly their name, removal and clearing undo registration, processing and validation agree, and each built-in tag handler accepts exactly its tag's documented arguments.",
  "inputs histories", "every argument string for every built-in tag, and every registration history", "Tests try a few arguments per handler.",
  [C+"plugin/"], [("registry", C+"plugin/"), ("tag handlers", C+"plugin/tags/")], ["ExtensionRegistry::process_tag", "TagHandler::process", "TagHandler::validate"])

p("E01", "Text edits behave like edits of a string, and undo is exact",
  "Inserting, deleting and replacing text acts as on a plain string for every valid range, invalid ranges are rejected without change, and undoing and redoing any number of edits restores exactly the text before and after each, until a new edit discards the redone future; what undo and redo report of themselves - text changed, its range, the cursor - holds.",
  "histories", "every sequence of edits, undos and redos over any Unicode text", "Tests undo one or two edits of ASCII text.",
  [E+"core/document/", E+"core/history/"], [("undo/redo", E+"core/document/undo_redo.rs"), ("text operations", E+"core/document/")], ["EditorDocument::insert", "replace", "delete", "undo", "redo", "text"])
p("E02", "Positions, lines and ranges convert consistently",
  "Offsets and line/column positions convert into each other without loss at every character, line counts and line texts agree with the text, range set operations agree with sets of offsets, and text accessors return exactly the slice they name.",
  "inputs", "every text with any line endings and Unicode, every position and range", "Tests convert a few ASCII positions.",
  [E+"core/position/", E+"core/document/"], [("rope conversions", E+"core/position/"), ("range algebra", E+"core/position/")], ["LineColumn", "Position", "Range", "EditorDocument::text_range"])
p("E03", "Event commands change exactly the events they name",
  "Splitting, merging, deleting, toggling, timing and effect commands change the addressed fields of the selected events as documented and leave every other field and line of the document byte for byte as it was (scaled durations to the nearest centisecond); a command that fails changes nothing.",
  "inputs histories", "every document, selection, option and line layout", "Tests run each command on a two- or three-event sample whose lines have equal length.",
  [E+"commands/"], [("event commands", E+"commands/event_commands/")], ["EditorCommand::execute", "EditorDocument::text"])
p("E04", "Style commands change exactly the styles they name",
  "Creating, editing, cloning, deleting and applying styles changes the named style or the selected events' style field as documented and leaves everything else byte for byte as it was; nothing changes outside the range a command reports.",
  "inputs histories", "every document, style name and option", "Tests use one Default style at a fixed position.",
  [E+"commands/"], [("style commands", E+"commands/style_commands/")], ["EditorCommand::execute"])
p("E05", "Tag and karaoke commands keep the spoken text",
  "Inserting, removing, replacing, wrapping and parsing override tags and generating, splitting, adjusting or applying karaoke change only the override blocks of the addressed text; the visible text (for applied karaoke: up to the blanks between syllables) and all other lines stay the same, and documented totals hold.",
  "inputs", "every text, range and option", "Tests use short ASCII lines.",
  [E+"commands/"], [("tag commands", E+"commands/tag_commands/"), ("karaoke", E+"commands/karaoke_commands/")], ["EditorCommand::execute"])
p("E06", "Document-level setters change only what they set",
  "Setting script info, adding styles, events, comments, fonts and graphics makes the new value readable by parsing the document, and leaves every other line unchanged; what the document says of its fields, title, resolution and sections is what its lines say.",
  "inputs histories", "every document, key and value", "Tests set one key on a minimal script.",
  [E+"core/document/"], [("helpers", E+"core/document/")], ["EditorDocument"])
p("E07", "Undo restores the document before any command",
  "After executing any commands and fluent edits, undoing them one by one restores the exact text before each in turn, and redoing restores the text after each; a batch of commands is one step that undo undoes at once, tells where the text changed, and leaves no trace when one of its commands fails.",
  "histories fault_sequences", "every sequence of commands, batches, edits, undos and redos", "Tests undo a single command.",
  [E+"core/history/", E+"core/document/undo_redo.rs", E+"commands/"], [("history", E+"core/history/")], ["EditorDocument::execute_command", "undo", "redo"])
p("E08", "Incremental edits give what full edits give",
  "Editing through the incremental path yields the text, undo behaviour and parsed script that the plain path yields, for every edit sequence; applying a script delta removes, replaces and appends exactly the sections it names, in one step that undoes exactly.",
  "histories", "every sequence of incremental edits, undos and mixed edits", "Tests make one incremental edit.",
  [E+"core/document/", E+"core/incremental/"], [("incremental parser cache", E+"core/incremental/")], ["EditorDocument::edit_incremental", "validate"])
p("E09", "Search finds exactly the matches a naive scan finds",
  "For every query and option, search returns exactly the occurrences a naive scan of the text under those options returns, with their right positions, after any edits the index was told of and in any range or line scope, and replacing changes exactly those.",
  "inputs histories", "every text, query, option set, scope and edit history", "Tests search ASCII words in a sample.",
  [E+"utils/search/"], [("search index", E+"utils/search/")], ["DocumentSearch::search", "find_replace"])
p("E10", "SRT and WebVTT conversion keeps times and text",
  "Exporting and importing subtitle formats keeps every cue's times to the format's precision and its visible text, importing never panics, and importing an exported file gives the same cues; registered formats are found by the endings they name, whatever was registered before, and no other.",
  "inputs", "every cue list and every damaged file", "Tests convert one short file per format.",
  [E+"utils/formats/", E+"formats/"], [("SRT", E+"utils/formats/import_srt.rs"), ("WebVTT", E+"utils/formats/import_webvtt.rs")], ["FormatImporter", "FormatExporter"])
p("E11", "Builders produce lines that parse back to their values",
  "An event or style built from any values, set in any order, for any version or under any list of known columns, is one line that, under those columns, parses back to exactly the values last set and the documented defaults otherwise (values that hold no line break or surrounding blanks, and a comma only in a final text); no columns, or one the format does not know, is refused.",
  "inputs", "every field value, order of setting, version and column list", "Tests build default lines.",
  [E+"core/builders/"], [("event builder", E+"core/builders/event_build.rs"), ("style builder", E+"core/builders/style_build.rs"), ("style formats", E+"core/builders/style_format.rs")], ["EventBuilder::build", "EventBuilder::build_with_format", "StyleBuilder::build_with_version"])
p("E12", "Event queries equal filtering and sorting by hand",
  "Filtering, sorting, counting and limiting events through the query interface gives exactly what filtering and sorting the parsed events directly gives, before and after any edits.",
  "inputs", "every document and combination of criteria", "Tests query samples with one criterion.",
  [E+"core/fluent/"], [("event query", E+"core/fluent/")], ["EventQuery"])
p("E13", "Sessions keep documents apart and account for them",
  "Any history of creating, switching, editing, removing and cleaning sessions keeps each session's text, the active session and the counts equal to a simple model, within the configured limits.",
  "histories configurations", "every operation sequence and limit", "Tests create two or three sessions.",
  [E+"sessions/"], [("session manager", E+"sessions/")], ["EditorSessionManager"])
p("E14", "Events reach exactly their subscribers, in order",
  "Every dispatched change reaches each handler whose filter accepts it exactly once and in order, no one else, and history and statistics count exactly what was dispatched, across any registration history.",
  "histories configurations", "every sequence of registration, dispatch and removal, with any filters and batching", "Tests dispatch one event to one handler.",
  [E+"events/"], [("channel", E+"events/")], ["EventChannel"])
p("E15", "Lazy validation reports what a fresh validation reports",
  "Whatever edits, undos, questions and settings came before, and whichever document was asked about last, validating reports the present text's lint issues and missing structure, at or above the severity and up to the number the settings name, with the counts, validity and summary that follow from them; the kept result is that of the last validation, and none after clearing or changing settings.",
  "histories configurations", "every edit history, order of questions and configuration", "Tests validate once.",
  [E+"utils/validator/"], [("cache", E+"utils/validator/api.rs"), ("issues", E+"utils/validator/core_validation.rs"), ("result", E+"utils/validator/result.rs"), ("a document's validator", E+"core/document/validation.rs")], ["LazyValidator::validate", "EditorDocument::validate_comprehensive", "ValidationResult"])
p("E16", "Extension lifecycle stays consistent",
  "Any history of loading, unloading, initialising and executing extensions keeps states, registered commands and configuration equal to a simple model; a failed step leaves no trace, and no step blocks forever.",
  "histories fault_sequences", "every lifecycle history with failing extensions", "Tests load one extension.",
  [E+"extensions/"], [("extension manager", E+"extensions/")], ["ExtensionManager"])
p("E17", "History respects its limits without corrupting undo",
  "Under any entry or memory limit the history never exceeds it, drops the oldest entries first, and what remains still undoes exactly.",
  "histories configurations", "every limit and edit sequence", "Tests fill the stack once.",
  [E+"core/history/"], [("undo stack", E+"core/history/")], ["UndoStack", "HistoryConfig"])
p("E18", "Highlighting and completion speak of the present text",
  "For every document, edit and setting, highlighting tokens lie in the present text in order without overlapping, each covers the piece its kind names, and they are those a new highlighter gives; completions at any point fit what is typed there, leave out nothing that fits within the limit, and name the styles the document has now.",
  "inputs histories", "every text, edit, cursor position and setting", "Tests highlight and complete a dozen fixed lines.",
  [E+"extensions/builtin/"], [("highlighter", E+"extensions/builtin/syntax_highlight/document.rs"), ("completion", E+"extensions/builtin/auto_complete/extension.rs")], ["SyntaxHighlightExtension::tokenize_document", "AutoCompleteExtension::get_completions"])

p("E19", "Handles of a shared document see one document",
  "Through any number of handles, guards and pools, a shared document has one text, history and id: every edit made through one is seen through all, what is being written cannot be read or written through another handle and what is read can be read, a refused edit changes nothing, clones are apart, the pool holds exactly what was added and not removed, and no two documents get the same id.",
  "histories schedules", "every history of edits, locks, clones and removals through several handles, and threads making documents at once", "Tests edit one document through one handle.",
  [E+"core/thread_safety/", E+"core/document/constructors.rs"], [("shared document", E+"core/thread_safety/sync_document.rs"), ("pool", E+"core/thread_safety/document_pool.rs"), ("ids", E+"core/document/constructors.rs")], ["SyncDocument", "DocumentPool", "ScopedDocumentLock", "EditorDocument::id"])
p("E20", "Saving and opening files keeps the document",
  "A saved document's file holds exactly its text and opens as that text, unmodified, at that path; saving, opening, exporting and importing touch no file but the one named, a place that cannot be written or read is an error that leaves the document as it was, and exporting to or importing from a file does what converting its text by the format of its ending does.",
  "histories fault_sequences", "every history of edits, saves, openings, exports and failures over a set of files", "Tests never save to a file.",
  [E+"core/document/constructors.rs", E+"core/document/metadata.rs", E+"utils/formats/file_io.rs"], [("saving and opening", E+"core/document/constructors.rs"), ("files of other formats", E+"utils/formats/file_io.rs"), ("endings", E+"utils/formats/types.rs")], ["EditorDocument::save", "EditorDocument::save_to_file", "EditorDocument::from_file", "export_to_file", "import_from_file"])

p("R01", "Exactly the events on screen are selected",
  "For every script and time, the events chosen for rendering are exactly the dialogue events whose start is at or before and end after that time (comments only when asked for), in file order, whatever was asked before and whatever script was asked about before.",
  "inputs histories", "every script and every sequence of query times", "Tests query a few times in order.",
  [RR+"renderer/"], [("event selector", RR+"renderer/event_selector.rs"), ("time index", RR+"renderer/time_index.rs")], ["EventSelector::select_active"])
p("R02", "A picture depends only on its script, time and size",
  "The frame drawn for a script at a time and size is the same whatever the renderer drew before - other scripts, other times, other sizes, or the same text changed in place - and the same again when asked again; the list of bitmaps drawn for it is equally reproducible and, put together in order, is that frame; and an incremental frame, given the frame before, is the full frame.",
  "histories", "every sequence of scripts, edits, times and sizes drawn by one renderer", "Tests draw each script once with a renderer of its own.",
  [RR+"renderer/mod.rs", RR+"backends/software/"], [("renderer", RR+"renderer/mod.rs"), ("software backend", RR+"backends/software/mod.rs"), ("tile caches", RR+"backends/software/cache/"), ("bitmap list", RR+"backends/software/dirty.rs")], ["Renderer::render_frame", "Renderer::render_frame_bitmaps", "Renderer::render_frame_incremental"])
p("R04", "Rendering any script ends, without a panic, in the frame asked for",
  "Rendering any script at any time on any size of screen, as a frame, an incremental frame or bitmaps, ends in bounded time and memory with a frame of the size asked for or an error; no number in a style, tag, drawing, effect or header, no script and no order of calls makes it panic, overflow or hang.",
  "inputs", "every script text, tag argument, drawing, time and frame size", "Tests render a few samples.",
  [RR+"pipeline/", RR+"backends/software/", RR+"backends/geometry.rs"], [("pipeline", RR+"pipeline/"), ("software backend", RR+"backends/software/"), ("reach of the rasterizer", RR+"backends/geometry.rs"), ("blur of large parts", RR+"backends/blur.rs")], ["Renderer::render_frame", "Renderer::render_frame_bitmaps", "Renderer::render_frame_incremental"])
p("R05", "Compositing and blurring equal their scalar definitions",
  "Drawing a coverage tile or a bitmap at any position changes exactly the frame's pixels under it, each to the source-over of premultiplied colours rounded per product (a*b/255 to nearest), whether or not the vectorised kernels are compiled in; straight-alpha blending follows its formula and keeps opaque and clear sources exact; Gaussian blur equals the separable convolution with its normalised kernel and repeated edges within a step of rounding.",
  "inputs configurations", "every bitmap, size, position, alpha, colour and deviation, in builds with and without SIMD", "Tests blend a few pixels.",
  [RR+"backends/coverage/", RR+"backends/blur.rs", RR+"pipeline/compositing/"], [("blend kernels", RR+"backends/coverage/blend.rs"), ("clipping", RR+"backends/coverage/composite.rs"), ("blur", RR+"backends/blur.rs")], ["composite", "composite_bitmap", "alpha_blend"], hook="gaussian_blur is crate-private: reached through ass_renderer::vhook under cfg(vhook)")
p("R06", "Filled shapes cover exactly the area they enclose",
  "The coverage of a filled shape is, on every pixel, the size of its winding-weighted area there (at most full), to rounding for straight edges and within 0.2 pixel of flattening for curves, with and without SIMD, whatever the order of its edges; edges outside the bitmap leave what lies inside right; a path's tile holds all of it, and moves with it by whole pixels unchanged.",
  "inputs configurations", "every polygon and curve path, in builds with and without SIMD", "Tests fill a square.",
  [RR+"backends/raster/", RR+"backends/coverage/mod.rs"], [("rasterizer", RR+"backends/raster/mod.rs"), ("span accumulation", RR+"backends/raster/span.rs"), ("tiles", RR+"backends/coverage/mod.rs")], ["Rasterizer", "CoverageTile::rasterize"])
p("R07", "Override tags take effect exactly as written",
  "Every run of a line's text gets the state left by the override tags before it: the last well-formed value of each tag, \\alpha setting all four alphas, \\r returning to the line's or the named style while the tags that hold for the whole line stay, karaoke syllables starting where the one before ended; unknown or malformed tags and comments change nothing, and the text between blocks comes out as written. A drawing is the path its commands describe.",
  "inputs", "every sequence of tags and text, and every drawing", "Tests parse single tags.",
  [RR+"pipeline/tag_processor/", RR+"pipeline/text_segmenter/", RR+"pipeline/drawing/"], [("tag processor", RR+"pipeline/tag_processor/mod.rs"), ("text segmenter", RR+"pipeline/text_segmenter/mod.rs"), ("drawing parser", RR+"pipeline/drawing/parse.rs")], ["segment_text_with_tags", "process_drawing_commands"])
p("R08", "Animations interpolate exactly between their endpoints",
  "Every animated value - a track's, a \\move's, a \\fad's or \\fade's, a \\t transform's - equals its start before the animation, its end after it, and the documented interpolation (with its acceleration) in between; transform tags parse into exactly the times, acceleration and target values written.",
  "inputs", "every timing, acceleration and value pair", "Tests sample midpoints.",
  [RR+"animation/"], [("interpolation", RR+"animation/")], ["AnimationTrack::evaluate", "fade"])
p("R09", "Collision placement never overlaps and stays stable",
  "A box placed by collision resolution takes the nearest place, moving up for bottom alignments and down for the others, at which it keeps the margin from every box already placed on its layer, then is kept on the screen; fixed boxes, other layers and boxes already placed never move it or are moved. Lists are placed from the highest priority down, and those at or over the threshold stay put.",
  "histories inputs", "every sequence of box sizes, alignments, layers and priorities", "Tests place two lines.",
  [RR+"collision/"], [("collision resolver", RR+"collision/resolver.rs"), ("boxes", RR+"collision/mod.rs")], ["CollisionResolver::find_position", "SmartCollisionResolver::process_events"])
p("R10", "Renderer caches are transparent and bounded",
  "The render cache returns what was last stored under exactly that key or nothing, never exceeds its limits, drops entries only to make room, and counts hits and misses exactly; atlas allocations never overlap or leave the texture, are not refused while there is room, and the texture holds exactly what was written; a layer drawn after others, however alike, comes out as it does alone, whatever tiles and shaped text are kept.",
  "histories", "every sequence of stores, lookups, evictions, allocations, clears and layers drawn", "Tests insert a few entries.",
  [RR+"cache/", RR+"utils/caches.rs"], [("render cache", RR+"cache/mod.rs"), ("texture atlas", RR+"utils/caches.rs")], ["RenderCache", "TextureAtlas"])
p("R11", "Layout and geometry follow their definitions",
  "For every screen, margin, alignment, position and movement the computed anchors and corners are those the alignment grid defines, play-resolution coordinates scale to the screen, lines stack and align, legacy alignments map to the numpad; matrices compose, and transforms scale, then turn, then move.",
  "inputs", "every screen, margin, alignment, position and matrix", "Tests check a few alignments.",
  [RR+"layout/", RR+"utils/math.rs"], [("positioning", RR+"layout/positioning/"), ("lines", RR+"layout/multiline.rs"), ("matrices", RR+"utils/math.rs")], ["PositionInfo::calculate", "LayoutContext::calculate_position", "Matrix3x3"])
p("R12", "Frames and dirty regions hold exactly what they were given",
  "A frame keeps its pixels, size and timestamp through copies, and a change of one copy never shows in another; emptiness means no visible pixel. Dirty regions contain exactly their points, merging covers both and no more than their bounds, and a selector's gathered regions cover every region added.",
  "inputs histories", "every frame, and every set of rectangles up to the largest coordinates", "Tests merge a few regions.",
  [RR+"renderer/frame.rs", RR+"utils/regions.rs"], [("frame", RR+"renderer/frame.rs"), ("dirty regions", RR+"utils/regions.rs")], ["Frame", "DirtyRegion"])
p("R13", "Text and drawings come out where and how styles and tags put them",
  "Every run of an event's text, and every drawing, is laid out with the font, size, colours, opacity and effects its style (scaled from the layout resolution, if any) and the tags before it give it at that time; runs follow one another by their shaped widths on a shared baseline, lines stack about the point that \\pos, \\move or alignment and margins give. Wrapping keeps words and their order, fits the width, uses the fewest lines; events are drawn by layer, those without a position stack clear of each other and those with one stay put.",
  "inputs", "every script of styles, tags and texts, at every time and screen size", "Tests check that something is drawn.",
  [RR+"pipeline/build/", RR+"pipeline/shaping/"], [("event processing", RR+"pipeline/build/run.rs"), ("runs and lines", RR+"pipeline/build/text/"), ("wrapping", RR+"pipeline/build/wrap.rs"), ("drawings", RR+"pipeline/build/drawing.rs")], ["SoftwarePipeline::process_events"])
p("R14", "A layer is drawn as it describes itself",
  "Text layers show their glyphs filled, scaled, sheared, turned and projected about their centre or origin, with outline, shadow, box, blur, karaoke, decorations and clip of the colours and sizes they name; drawings show their path with fill, stroke, blur and clip; pixel layers their pixels at their opacity. A frame is its layers put over one another in order; a part redrawn equals the whole there; and the bitmaps handed out put together give the frame.",
  "inputs", "every layer of every combination of effects, at every place on and over the screen", "Tests look for a few pixels of a few layers.",
  [RR+"backends/software/text/", RR+"backends/software/vector.rs", RR+"backends/geometry.rs"], [("text layers", RR+"backends/software/text/"), ("drawings and pixels", RR+"backends/software/vector.rs"), ("cached tiles", RR+"backends/software/cache/"), ("projection and strokes", RR+"backends/geometry.rs")], ["RenderBackend::composite_layers", "render_layers_to_bitmaps", "composite_layers_incremental"])

p("R15", "The debugging tools report and show what the renderer does",
  "The inspector's counts, extents, averages and differences, and the images and reports it saves, are those of the frame's pixels; a traced frame is the frame rendered at the millisecond asked for. The player's position follows its operations and speed, stays within the script, and the frames it shows and exports are those of its position. The parameters, registries and compatibility reports that go with them hold and list what was put in.",
  "inputs histories", "every frame, script, region, and sequence of player operations", "Tests open a player and inspect one blank frame.",
  [RR+"debug/", RR+"plugin/"], [("inspector", RR+"debug/inspector/"), ("player", RR+"debug/player/"), ("traced frames", RR+"debug/mod.rs"), ("plugins", RR+"plugin/")], ["FrameInspector", "DebugPlayer", "DebugRenderer::render_frame_debug", "PluginRegistry"])

p("R16", "Text is drawn in the fonts its script brings",
  "A family a script embeds in any of its font sections, or names a file of, is laid out and drawn in that face, bold and italic faces included, however the text comes to use it (style or tag); a family it does not bring is drawn in what the system has. A renderer that drew other scripts before draws each with its own fonts and no other's.",
  "histories inputs", "every sequence of scripts, sets of fonts and uses of them", "No test draws a script with fonts of its own.",
  [RR+"pipeline/font_loader.rs", RR+"pipeline/build/mod.rs", RR+"backends/software/"], [("fonts of a script", RR+"pipeline/font_loader.rs"), ("drawing with them", RR+"backends/software/mod.rs")], ["Renderer::render_frame", "Pipeline::script_fonts"])

if __name__ == "__main__":
    claimed = set(open(V + "/tools/claimed").read().split())
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                             observe_at=q["observe"], hook_needed=q["hook"])), ensure_ascii=False) + "\n")
            assert len(q["title"]) <= 80, q["id"]
            for x in q["files"] + [b for _, b in q["mech"]]:
                if not os.path.exists("/repo/" + x): print("missing", q["id"], x)
    note = "Random search over generated inputs with an explicit oracle and shrinking; a pass says no counterexample was found among the cases counted in the evidence file. Trusts the generator's reach and the reference model in the harness."
    m = dict(version=1, setup_cmd="./check --build",
        hooks=dict(guard="cfg vhook", enable="RUSTFLAGS=\"--cfg vhook\" for the renderer harness (./check sets it)", source_commits=HOOKS),
        checks=[dict(property=q["id"], quick_cmd="./check " + q["id"], thorough_cmd="./check " + q["id"],
                     technique="property-based testing (choice-sequence generators, shrinking)", level="exploration",
                     level_note=q["note"] or note) for q in P if q["id"] in claimed],
        not_applicable=[dict(property=q["id"], reason="no check built yet; the technique applies") for q in P if q["id"] not in claimed])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(V + "/MANIFEST.json", "a").write("\n")
