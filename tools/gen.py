#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files,
# mechanisms [(name, where)], state [(name, meaning, where)], observe_at,
# technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note))


SC, PA, RE, DO, EM, ER, EV, LI = ("src/scanner.rs", "src/parser.rs", "src/reader.rs", "src/document.rs",
                                  "src/emitter.rs", "src/error.rs", "src/event.rs", "src/lib.rs")
SUITE = "The test suite compares one rendering of ~300 fixed files of the YAML test suite"
EXPL = ("Generated-input search against an explicit oracle; assurance is that of the cases explored (counts, "
        "classes and samples in the evidence), not a proof. ")

prop("P01", "Token stream equals libyaml's, with exact marks",
     "For every input text, the scanner produces the same sequence of tokens as libyaml: same kinds, values, styles, "
     "directives, handles and suffixes, and the same start and end mark (index, line, column) on every token. "
     "An input libyaml rejects is rejected after the same tokens.",
     ["inputs"], "every byte string in UTF-8, valid or malformed YAML, of any length",
     SUITE + " at the event level and ignores marks; one unit test pins the marks of one document. Token sequences "
     "depend on arbitrary combinations of indentation, flow context, simple keys and line breaks.",
     [SC, RE, LI], [("token fetching and simple keys", "src/scanner.rs Scanner::fetch_next_token"),
                    ("indentation to block tokens", "src/scanner.rs roll_indent/unroll_indent"),
                    ("scalar scanning", "src/scanner.rs scan_block_scalar, scan_flow_scalar, scan_plain_scalar")],
     [("simple_keys", "possible simple key per flow level", SC), ("indents", "open block indentations", SC)],
     ["Scanner::scan", "Scanner as Iterator"],
     "differential fuzzing (grammar + coverage-guided mutation) against a vendored port of libyaml",
     EXPL + "Trusts the vendored unsafe-libyaml 0.2.11 sources as libyaml's behaviour.")

prop("P02", "Event stream equals libyaml's, with exact marks",
     "For every input text, the parser produces the same sequence of events as libyaml: same kinds, anchors, resolved "
     "tags, values, styles, implicit flags, directives and reported encoding, and the same start and end mark on "
     "every event. An input libyaml rejects is rejected after the same events.",
     ["inputs"], "every byte string in UTF-8, valid or malformed YAML, of any length",
     SUITE + " (event kinds, values, tags, anchors, some styles) and never looks at marks, implicit flags, directives "
     "or what precedes an error.",
     [PA, SC], [("parser state machine", "src/parser.rs Parser::state_machine"),
                ("node properties and tag resolution", "src/parser.rs parse_node"),
                ("directives", "src/parser.rs process_directives")],
     [("states", "stack of states to return to", PA), ("tag_directives", "handles in scope", PA)],
     ["Parser::parse", "Parser as Iterator"],
     "differential fuzzing (grammar + coverage-guided mutation) against a vendored port of libyaml",
     EXPL + "Trusts the vendored unsafe-libyaml 0.2.11 sources as libyaml's behaviour.")

prop("P03", "Loading composes exactly the documents the events describe",
     "Loading a stream yields one document per document in it, in order, then an empty document; each document's "
     "nodes, tags (defaulted where absent), styles, marks, item and pair order are those of its events, and an alias "
     "refers to the very node that carries that anchor in the same document. "
     "An undefined alias or a duplicate anchor is an error as in libyaml, and anchors never carry over to another "
     "document.",
     ["inputs"], "every input text, including those with aliases to open collections, re-used names across "
     "documents, and errors in a later document",
     "No test loads a document: the load/dump test binaries are exercised only through other files' emitter runs, and "
     "sharing and cross-document scoping need generated graphs.",
     [DO, PA], [("composition", "src/document.rs load_document/load_nodes"),
                ("anchors", "src/document.rs register_anchor, load_alias")],
     [("aliases", "anchors of the current document", PA)],
     ["Document::load", "Document::nodes"],
     "differential and model-based testing: generated texts loaded by both libraries and composed by an independent "
     "model of the event stream",
     EXPL + "Oracles: libyaml's loader and a separate composer written from the statement.")

prop("P04", "Emitted bytes equal libyaml's",
     "For every sequence of events and every combination of emitter settings, also settings changed between the "
     "events, the bytes written are those libyaml writes for the same events and settings, and an event is refused "
     "exactly when libyaml refuses it.",
     ["inputs", "configurations"], "every event sequence over every tag, anchor, value, style, implicit flag, "
     "directive, and every setting of canonical, indent, width, unicode, line break and UTF-8 output",
     "The emitter test re-emits fixed files under default settings; style selection, escaping, width and the other "
     "settings interact in ways a list of files cannot cover.",
     [EM], [("scalar analysis", "src/emitter.rs analyze_scalar"), ("style choice", "src/emitter.rs select_scalar_style"),
            ("writers", "src/emitter.rs write_*_scalar"), ("state machine", "src/emitter.rs state_machine")],
     [("column/whitespace/indention", "what the output ends with", EM)],
     ["Emitter::emit", "Emitter::flush"],
     "differential fuzzing of generated event sequences and settings against a vendored port of libyaml",
     EXPL + "Trusts the vendored unsafe-libyaml 0.2.11 sources. UTF-16 output is judged by P13.")

prop("P05", "What is emitted parses back to the same events",
     "Parsing what the emitter wrote for a well-formed event sequence gives back an equivalent sequence: the same "
     "structure, anchors, aliases, scalar values and tags, with nothing lost, added or reordered. "
     "This holds for every choice of styles and of emitter settings.",
     ["inputs", "configurations"], "every well-formed event sequence whose values are Unicode text, every style "
     "requested, every setting of canonical, indent, width, unicode and line break",
     "The emitter test round-trips a fixed list of files, whose values are mostly short plain words; line folding, "
     "leading and trailing white space, indentation hints and special characters need a search.",
     [EM, SC, PA], [("scalar analysis", "src/emitter.rs analyze_scalar"),
                    ("block scalar hints", "src/emitter.rs write_block_scalar_hints"),
                    ("simple keys", "src/emitter.rs check_simple_key")],
     [], ["Emitter::emit", "Parser::parse"],
     "round-trip property over generated event sequences and settings, with shrinking",
     EXPL + "The domain excludes cases listed in DESIGN.md in which libyaml's own output does not parse back.")

prop("P06", "Dumping and loading a document preserves its graph",
     "Dumping any document and loading the result gives an isomorphic document: same tags, values, styles where "
     "representable, order of items and pairs, and the same sharing of nodes. "
     "The output is deterministic, and what dump writes is exactly what the emitter writes for that document's events.",
     ["programs", "configurations"], "every document built through the API or loaded, with shared nodes anywhere in "
     "the graph, and every emitter setting",
     "No test dumps a document, and sharing (which node gets an anchor, where the alias goes) only shows on generated "
     "graphs.",
     [DO, EM], [("anchor assignment", "src/document.rs anchor_node"), ("serialisation", "src/document.rs dump_node")],
     [("anchors", "reference counts and names of nodes", EM)],
     ["Document::dump", "Document::load"],
     "model-based round trip over generated node graphs",
     EXPL + "Cyclic documents are loaded (P03) but their dump is only required to agree with the model.")

prop("P07", "No input makes the library panic, hang or run away",
     "Scanning, parsing, loading, re-emitting and dumping terminate without panicking for every byte string, reader "
     "behaviour and emitter setting; the number of tokens and events is bounded by a multiple of the input length. "
     "The same holds for calls made after an error or after the end of the stream.",
     ["inputs", "fault_sequences"], "every byte string in any supported encoding, including random bytes, cut-off "
     "and deeply nested input, any split into reads, read faults at any offset, calls continued after the end",
     "Tests feed complete, mostly valid files; panics hide in combinations such as end of input inside an escape.",
     [SC, PA, RE, DO, EM], [("bounded look-ahead", "src/scanner.rs cache"), ("error returns", "src/macros.rs")],
     [], ["Scanner", "Parser", "Document::load", "Document::dump", "Emitter"],
     "coverage-guided and structured fuzzing of every entry point, with overflow checks, memory and time limits",
     EXPL + "Built with overflow and debug assertions on. dump() recursion is exercised to 3000 levels.")

prop("P08", "How the input arrives in reads makes no difference",
     "Tokens, events, documents, marks, the reported encoding and errors depend only on the bytes of the input, never "
     "on how the reader splits them into reads, how much it buffers, or whether reads are interrupted and retried. "
     "The input is consumed no further than its end and ends when the reader reports no more bytes.",
     ["inputs", "schedules"], "every input in every encoding and every way of splitting it, down to single bytes and "
     "across characters, byte order marks and buffer boundaries",
     "Tests always present the whole file in one slice.",
     [RE, SC], [("buffered decoding", "src/reader.rs read_utf8_buffered, read_utf16_buffered"),
                ("characters across reads", "src/reader.rs read_utf8_char_unbuffered, read_utf16_char_unbuffered")],
     [("buffer/unread/eof", "decoded characters not consumed", SC)],
     ["Scanner::set_input", "Parser::set_input"],
     "metamorphic testing: the same bytes under generated read schedules against a single-slice run",
     EXPL)

prop("P09", "The encoding of a text does not change what it means",
     "The same text in UTF-8, UTF-16LE or UTF-16BE, with a byte order mark or with the encoding set by the caller, "
     "yields the same tokens, events, documents, marks and errors apart from the encoding that is reported. "
     "The reported encoding is the one the input was in.",
     ["inputs", "configurations"], "every Unicode text, with or without byte order mark, encoding detected or set",
     "All test files are UTF-8; no test reads UTF-16 at all.",
     [RE], [("detection", "src/reader.rs yaml_parser_determine_encoding"), ("decoding", "src/reader.rs")],
     [("encoding", "encoding in use", SC)],
     ["Scanner::set_encoding", "Parser::set_encoding"],
     "metamorphic testing across an independent transcoder",
     EXPL)

prop("P10", "Exactly the malformed and forbidden characters are rejected",
     "Input that is not valid in its encoding, or contains a character YAML does not allow in a stream, is always "
     "reported as a reader error at the offset of the first such character, and nothing from beyond it is reported "
     "before. Input that is valid is never rejected by the decoder, and its characters reach the tokens unchanged.",
     ["inputs"], "every byte string, in particular truncated, overlong, surrogate and out-of-range sequences and "
     "control characters at any position, in all three encodings",
     "One test file at most contains an invalid character; boundaries of the decoder tables need a search.",
     [RE], [("character ranges", "src/reader.rs push_char"), ("UTF-8 width", "src/reader.rs utf8_char_width"),
            ("surrogates", "src/reader.rs is_utf16_surrogate")],
     [], ["Scanner::scan", "Parser::parse", "Error"],
     "differential testing against an independent decoder over generated and damaged byte strings",
     EXPL)

prop("P11", "Read faults surface once, unchanged, after all that preceded them",
     "When the reader fails, every token, event or document complete in the bytes read before may still be delivered, "
     "then the call returns an I/O error carrying the reader's error; nothing is made up from the missing rest, and "
     "no fault is swallowed or taken for the end of the input. Interrupted reads are retried.",
     ["fault_sequences", "inputs"], "every input, every offset at which the reader fails, every error kind, every "
     "split into reads",
     "No test uses a reader that fails.",
     [RE, ER], [("error conversion", "src/error.rs From<std::io::Error>"), ("retry", "src/reader.rs")],
     [], ["Scanner::scan", "Parser::parse", "Document::load", "Error"],
     "fault injection at generated offsets, compared with the fault-free run",
     EXPL)

prop("P12", "Write faults surface unchanged; what was written is a prefix",
     "When the writer fails, the failing emit, flush, open, close or dump call returns an I/O error carrying the "
     "writer's error, no success is reported for data that was lost, and the bytes written are a prefix of those of "
     "the fault-free run. Short writes and interrupted writes lose and duplicate nothing.",
     ["fault_sequences", "inputs"], "every event sequence, every offset and call at which the writer or its flush "
     "fails, every error kind, every pattern of short writes",
     "Tests write to memory, which never fails and never writes short.",
     [EM, ER], [("output", "src/emitter.rs Emitter::flush"), ("error conversion", "src/error.rs")],
     [("buffer/raw_buffer", "output not yet written", EM)],
     ["Emitter::emit", "Emitter::flush", "Emitter::open", "Emitter::close", "Document::dump"],
     "fault injection at generated offsets and calls, compared with the fault-free run",
     EXPL + "Behaviour of calls repeated after a write fault is not claimed.")

prop("P13", "Output encodings, buffering and flushing deliver the same text",
     "The text written is the same in every output encoding, to a string or to a writer, whatever the pattern of "
     "flush calls; UTF-16 output starts with a byte order mark and is valid UTF-16. "
     "After a document's end or an explicit flush, all text emitted so far has reached the writer.",
     ["inputs", "configurations", "histories"], "every event sequence, output encoding, kind of output and pattern "
     "of flush calls, with outputs longer than the internal buffer",
     "Tests write UTF-8 into a buffer and look at it once at the end.",
     [EM], [("encoding of output", "src/emitter.rs flush"), ("byte order mark", "src/emitter.rs write_bom"),
            ("string output", "src/emitter.rs set_output_string")],
     [("buffer/raw_buffer", "output not yet written", EM)],
     ["Emitter::set_encoding", "Emitter::flush", "Emitter::set_output_string"],
     "metamorphic testing across encodings, outputs and flush schedules, with an independent decoder",
     EXPL)

prop("P14", "Token and event streams are well formed and their marks are true",
     "Every stream of tokens or events is well formed: collections, documents and the stream open and close in "
     "proper nesting, mapping contents come in pairs, and only an error can leave them open. "
     "Marks never run backwards, each start is not after its end, each index lies on a character boundary of the "
     "input and its line and column are those of that index, and a token's span covers the text it was read from.",
     ["inputs"], "every input text, valid or not, in any encoding, with any mixture of line breaks and characters",
     "The tests never check marks on more than one document and rely on well-formedness instead of testing it.",
     [SC, PA, ER], [("position keeping", "src/scanner.rs skip_char, skip_line_break, read_char"),
                    ("state machine", "src/parser.rs state_machine")],
     [("mark", "current position", SC)],
     ["Scanner::scan", "Parser::parse", "Mark"],
     "invariant checking over generated inputs with an automaton and an independent position map",
     EXPL)

prop("P15", "Errors are libyaml's errors, at libyaml's positions",
     "For every input libyaml rejects, the error has the same kind, problem, context and marks as libyaml's, and its "
     "text shows the problem, the context and positions counted from one. Error values give the marks they print.",
     ["inputs"], "every rejected input text",
     "One test pins the rendering of one error; which error is raised where is otherwise untested.",
     [ER, SC, PA, DO], [("error construction", "src/scanner.rs set_scanner_error, src/parser.rs"),
                        ("rendering", "src/error.rs Display")],
     [], ["Error::kind", "Error::problem_mark", "Error::context_mark", "Display"],
     "differential fuzzing of rejected inputs against a vendored port of libyaml",
     EXPL + "Decoder errors are compared by kind only (README allows other wording); 'hexdecimal' spelling ignored.")

prop("P16", "Errors are final and reset gives a new object",
     "After an error or the end of the stream, further calls only report the end of the stream and never resume in "
     "the middle; a refused event keeps being refused. A scanner, parser or emitter that is reset, in whatever state "
     "it was, then behaves exactly as a newly created one.",
     ["histories"], "every history: a first stream used to its end, to an error of any kind or abandoned anywhere, "
     "further calls, then reset and a second stream",
     "No test calls anything after an error or calls reset.",
     [SC, PA, EM, DO], [("reset", "src/scanner.rs reset, src/parser.rs reset, src/emitter.rs reset"),
                        ("end of stream", "src/parser.rs parse, src/scanner.rs scan")],
     [("all object state", "must be cleared by reset", SC)],
     ["Scanner::reset", "Parser::reset", "Emitter::reset"],
     "model-based histories: the reused object against a fresh one",
     EXPL)

prop("P17", "Iterating gives the call-by-call results and ends for good",
     "Iterating over a scanner or a parser yields exactly the items that repeated calls yield, also when calls and "
     "iteration are mixed; it ends after the end of the stream or right after the first error and never yields again. "
     "Reading from a string equals reading from a reader.",
     ["inputs", "histories"], "every input, reader and point at which a caller changes from calls to iteration",
     "Tests use either the calls or the iterator, on valid input only.",
     [SC, PA], [("iterators", "src/scanner.rs Iterator for Scanner, src/parser.rs Iterator for Parser")],
     [], ["Iterator for Scanner", "Iterator for Parser"],
     "metamorphic testing: iteration against the call loop over generated inputs and switch points",
     EXPL)

prop("P18", "Building documents through the API means what it says",
     "Nodes get consecutive one-based ids, lookups by id return the node that was added under it (nothing for ids "
     "never given out), the root is the first node, and items and pairs appear in the order they were appended. "
     "Absent tags default to the YAML core tags, and nothing else of the document changes.",
     ["programs"], "every sequence of document-building calls, interleaved with lookups by any id",
     "No test builds a document.",
     [DO], [("building", "src/document.rs add_scalar, add_sequence, add_mapping, append_*"),
            ("lookup", "src/document.rs get_node, get_node_mut, get_root_node")],
     [("nodes", "the node table", DO)],
     ["Document::new", "Document::add_*", "Document::append_*", "Document::get_*"],
     "stateful model-based testing of generated call sequences",
     EXPL + "Appending to ids that are not collections panics by contract and is not generated.")

prop("P19", "The emitter refuses exactly the ill-formed event sequences",
     "An event that cannot follow those before it, or that carries an invalid anchor, alias, tag or directive, is "
     "refused with the error libyaml gives, at the same event, and never silently accepted or turned into malformed "
     "output; well-formed sequences are never refused. After a refusal every further event is refused the same way.",
     ["histories", "inputs"], "every sequence of events, in and out of order, with valid and invalid properties",
     "Tests only emit what a parser produced.",
     [EM], [("state machine", "src/emitter.rs state_machine"), ("analysis", "src/emitter.rs analyze_event")],
     [("state/states", "what may come next", EM)],
     ["Emitter::emit"],
     "stateful fuzzing of event sequences against a grammar automaton and a vendored port of libyaml",
     EXPL)

prop("P20", "Every way of writing a document in YAML reads as that document",
     "Any tree of scalars, sequences and mappings with tags, anchors and aliases, written out by the rules of YAML in "
     "any mixture of block and flow styles, quoting, indentation, comments and line breaks, is read as exactly that "
     "tree, with exactly those scalar values, tags and anchors.",
     ["inputs", "configurations"], "every tree and every rendering of it within the language libyaml supports",
     "The test suite contains a few hundred fixed renderings; combinations of styles and layouts are unbounded.",
     [SC, PA, DO], [("scalar scanning", "src/scanner.rs scan_*_scalar"), ("structure", "src/parser.rs")],
     [], ["Parser::parse", "Document::load"],
     "property-based testing with an independent renderer: generated trees and layouts, exact expected result",
     EXPL + "Independent of libyaml: the expected result is the generated tree.")

prop("P21", "Emitter settings do what they promise and nothing else",
     "Settings change only presentation: the content of the output is the same under all of them. Line breaks are "
     "those chosen, indentation is in steps of the chosen indent, non-ASCII text is escaped unless allowed, "
     "canonical output is explicit and fully quoted, and values out of range mean the defaults. A setting changed "
     "between two documents holds for the documents after it and for none before.",
     ["configurations", "inputs"], "every setting of canonical, indent (any integer), width (any integer), unicode, "
     "line break, on every well-formed event sequence",
     "Tests leave every setting at its default.",
     [EM], [("setting defaults", "src/emitter.rs emit_stream_start"), ("writers", "src/emitter.rs write_*")],
     [("best_indent, best_width, line_break", "settings in force", EM)],
     ["Emitter::set_*"],
     "metamorphic and invariant testing of generated event sequences under generated settings",
     EXPL)

prop("P22", "Documents are independent, and layout outside content is neutral",
     "Documents of one stream are read exactly as if each were alone, with marks shifted by what precedes, and one "
     "document's tags, anchors and directives never reach another. Comments, blank lines, the kind of line break, "
     "a byte order mark and a leading or trailing document marker change nothing but positions.",
     ["inputs"], "every sequence of documents and every insertion of neutral layout",
     "The test files are mostly single documents and fixed layouts.",
     [SC, PA], [("document boundaries", "src/parser.rs parse_document_start, parse_document_end"),
                ("scope of directives", "src/parser.rs process_directives"),
                ("comments and blanks", "src/scanner.rs scan_to_next_token")],
     [("tag_directives, aliases", "per document", PA)],
     ["Parser::parse", "Document::load"],
     "metamorphic testing: concatenation and neutral edits of generated documents",
     EXPL)

prop("P23", "Tag shorthands and directives resolve by the rules of the document",
     "A tag is the handle's prefix as declared in its own document (or the defaults for the primary and secondary "
     "handle) followed by its suffix with escapes decoded; verbatim tags are taken literally. Undeclared handles, "
     "duplicate declarations and unsupported versions are errors, and document-start events report exactly the "
     "directives written.",
     ["inputs"], "every set of directives in every document of a stream, and every tag written under them",
     "Test files declare a handful of handles; scope, shadowing of defaults and escapes need generated combinations.",
     [PA, SC], [("directives", "src/parser.rs process_directives, append_tag_directive"),
                ("tag scanning", "src/scanner.rs scan_tag, scan_uri_escapes"), ("resolution", "src/parser.rs parse_node")],
     [("tag_directives", "handles in scope", PA)],
     ["Parser::parse", "Document::load"],
     "model-based testing: generated directives and tags against an independent resolver",
     EXPL)

PP, PE = "src/bin/run-parser-test-suite.rs", "src/bin/run-emitter-test-suite.rs"

prop("P24", "The parser program prints exactly the events of its files",
     "run-parser-test-suite FILE... prints, for each file in turn, one line per event of the file in the notation of "
     "the YAML test suite (+STR, +DOC with --- if explicit, +SEQ, +MAP, =VAL, =ALI with anchor, tag, style and the "
     "value with backslash, NUL, backspace, tab, line feed and carriage return escaped; -DOC with ... if explicit), "
     "and exits successfully. For a file that is not valid YAML it prints the events before the error, then "
     "'Parse error: ' and the error on standard error, reads no further file and fails. Without arguments, or for a "
     "file it cannot open, it fails.",
     ["inputs", "histories"], "every list of files with any content, in any supported encoding",
     "The tests that run the programs need a download and look at one rendering of fixed files; errors, several files, "
     "escapes and large outputs are never run.",
     [PP], [("events to lines", PP + " test_main"), ("escapes", PP + " print_escaped"),
            ("files, messages, exit code", PP + " main")],
     [], ["standard output, standard error and exit code of the program"],
     "generated files run through the built program, against an independent writer and reader of the notation",
     EXPL + "Runs real processes; the library's own events are the reference (P02 decides those).")

prop("P25", "The emitter program writes YAML that says its events",
     "run-emitter-test-suite FILE... reads files of event lines in the notation of the YAML test suite and writes, "
     "for each, the YAML the emitter produces for exactly these events (anchor and tag taken from their places in the "
     "line, never out of a value, escapes undone, ASCII output, block collections); run-parser-test-suite on that "
     "YAML prints the same events again, styles aside. A line that is no event or a sequence the emitter refuses "
     "makes it fail with a message on standard error.",
     ["inputs", "histories"], "every sequence of event lines, and every list of such files",
     "The tests that run the programs need a download and look at fixed files; values that look like notation, "
     "refused sequences and several files are never run.",
     [PE], [("lines to events", PE + " test_main"), ("anchor, tag, value", PE + " get_anchor, get_tag, get_value"),
            ("files, messages, exit code", PE + " main")],
     [], ["standard output, standard error and exit code of the program"],
     "generated event files run through both built programs: differential with the library's emitter, and round trip",
     EXPL + "Runs real processes; the library's own output is the reference (P04 decides that).")

prop("P26", "Public values hold, compare, copy and convert as what they are",
     "An event built by a constructor holds exactly its arguments and zero marks; events, tokens, marks and directives "
     "are equal exactly if all their parts are equal; a copy equals its original; a mark is displayed as its line and "
     "column counted from one. Everything an error says - kind, problem, context, marks, display, source, conversion "
     "to an I/O error - agrees, and only an I/O error converts, into the very error it was.",
     ["inputs"], "every argument of every constructor, every pair of values, every error",
     "Unit tests build a few events and never compare near misses; one test displays one mark.",
     [EV, "src/token.rs", ER, LI], [("constructors", EV + " Event::scalar and others"),
                                    ("equality", "derived PartialEq of Event, Token, Mark, TagDirective"),
                                    ("display and conversion", ER + " impl Display, TryFrom<Error>")],
     [], ["Event, Token, Mark, Error, VersionDirective, TagDirective"],
     "property-based testing: generated values and near misses against a plain model",
     EXPL)

prop("P27", "Cost grows with the text, not faster",
     "Scanning, parsing, loading, re-emitting and dumping a text in which something is repeated take CPU time about in "
     "proportion to the length of the text, however it is read and encoded. Scanning, parsing and emitting a stream "
     "of entries or documents takes no more memory when the stream is longer.",
     ["inputs", "configurations"], "every text made of a repeated unit (entries, pairs, documents, words, escapes, line "
     "breaks, comments, white space), every size, read size, encoding and emitter setting; nesting, the number of "
     "anchors in a loaded document and of directives in one document are bounded",
     "The test suite has no file over a few kilobytes and measures nothing.",
     [SC, PA, RE, DO, EM], [("buffer and token queue", SC + " cache, skip_char, Scanner::fetch_more_tokens"),
                            ("loader", DO + " load_node_add"), ("output buffer", EM + " put, write_str, flush")],
     [("buffer", "decoded characters not yet scanned", SC), ("events", "events the emitter holds back", EM)],
     ["CPU time of the calling thread", "heap memory of the calling thread"],
     "metamorphic performance testing: generated repeated texts at three sizes, cost compared between sizes",
     EXPL + "Out of proportion means over five times the proportional cost, again and again; memory is counted by an "
     "allocator and compared between 128 KiB and 1 MiB.")

prop("P28", "Objects in use at the same time do not affect each other",
     "Several scanners, parsers, loaders and emitters in use at once each give exactly what they give alone: with their "
     "calls interleaved in any order, with one used from inside another's reader or writer, and on threads of their own. "
     "Documents stay what they are while others are loaded.",
     ["schedules", "inputs", "histories"], "every set of objects, every input, event sequence and setting, every "
     "interleaving of their calls, also nested through readers and writers, and every timing of threads",
     "The tests use one object at a time, and use it up.",
     [SC, PA, RE, DO, EM], [("all state is in the object", SC + " struct Scanner, " + PA + " struct ParserInner, " + EM + " struct Emitter"),
                            ("anchors of a dump", DO + " anchor_node, " + EM + " reset_anchors")],
     [("last_anchor_id, anchors", "numbering of the anchors of the document being dumped", EM),
      ("buffer, raw_buffer", "text not yet written", EM)],
     ["results of every call, and the bytes written by then"],
     "stateful testing with generated schedules: each object among others against the same object alone",
     EXPL + "Interleavings at calls and at reads and writes are generated and replayable; on threads the timing is the "
     "machine's.")

DONE = set(open(os.path.join(HERE, "tools", "done.txt")).read().split())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in DONE:
                continue
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
         "notes": "run.py builds the harness against /repo's working tree and runs fixed amounts of generated "
                  "work; VERIF_SEED selects the cases. No hooks are needed: everything is observed through the public API."}
    for p in P:
        if p["id"] not in DONE:
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s quick" % p["id"],
                            "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip()})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
