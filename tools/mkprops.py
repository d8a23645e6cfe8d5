#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, observe, mech=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

LANG = "vimwiki-core/src/lang/"
PV = LANG + "parsers/vimwiki/"
EL = LANG + "elements/"

p("C01", "Parsing any vimwiki text terminates normally with a page",
  "For every valid UTF-8 text, parsing it as a vimwiki page returns a page: it never panics, aborts, overflows the stack (for nesting up to about a hundred levels) or reports an error. Every other typed parse entry point (a single block, inline element, link, table, ...) likewise either returns a value or an ordinary error for every text, and never panics. The work of parsing a page stays polynomial in the size of the text.",
  ["inputs"], "all UTF-8 texts up to a few KiB: generated vimwiki documents, mutations of them, hostile fragments (multi-byte whitespace, unbalanced delimiters, control characters), and scaled families for the work bound",
  "Unit tests parse a few hundred well-formed fragments; the claim is about every text a user may have in a .wiki file, including malformed and non-ASCII ones.",
  [LANG + "mod.rs", PV + "mod.rs", PV + "blocks/code.rs", PV + "blocks/math.rs", PV + "blocks/lists.rs", PV + "blocks/inline/links/diary.rs", LANG + "parsers/utils/bytes.rs", LANG + "parsers/span.rs"],
  ["Language::from_vimwiki_str(..).parse::<T>()"],
  [("block/inline dispatch", PV + "blocks/mod.rs"), ("indentation removal", PV + "blocks/code.rs"), ("diary uri construction", EL + "blocks/inline/links/mod.rs")],
  hook="counter of parser-span operations, to bound work by logical steps instead of time")

p("C02", "Located regions are exact, nested and ordered",
  "Every element of a parsed page carries a region that lies inside the input on character boundaries; a child's region lies inside its parent's, and siblings are in source order without overlapping. The top-level blocks cover the input: whatever lies outside all of their regions is only blank lines. The region of an element cuts out source text that contains exactly what the element holds, so that an inline element's text parsed on its own gives an equal element.",
  ["inputs"], "all texts: generated documents with known element positions, mutated and hostile texts",
  "Existing tests check offset/length for a handful of fragments; wrong offsets only show with multi-byte text, nesting, trailing whitespace or several blocks in sequence.",
  [EL + "utils/region.rs", EL + "utils/mod.rs", LANG + "parsers/utils/convert.rs", LANG + "parsers/span.rs", PV + "blocks/definitions.rs", PV + "blocks/inline/mod.rs"],
  ["Located::region()", "Page::elements", "IntoChildren"],
  [("region capture", LANG + "parsers/utils/convert.rs"), ("span slicing", LANG + "parsers/span.rs")],
  [("region", "offset, length, depth of an element in the source", EL + "utils/region.rs")])

p("C03", "Block structure is parsed as written",
  "A page made of vimwiki blocks (headers, paragraphs, blockquotes in both styles, code blocks, math blocks, definition lists, dividers, placeholders, tables, lists), in any order and with any blank-line separation the syntax allows, parses to exactly those blocks in that order. Each block has the attributes written: header level and centering, code language and metadata, math environment, terms and definitions, placeholder kind and value, and its content lines with indentation and blank lines kept.",
  ["inputs"], "documents constructed from a block model, rendered with random but legal layout choices",
  "Tests parse each block kind mostly alone; precedence and boundaries between block kinds depend on what precedes and follows, on indentation and on content that resembles another block.",
  [PV + "blocks/mod.rs", PV + "blocks/headers.rs", PV + "blocks/paragraphs.rs", PV + "blocks/blockquotes.rs", PV + "blocks/code.rs", PV + "blocks/math.rs", PV + "blocks/definitions.rs", PV + "blocks/placeholders.rs", PV + "blocks/dividers.rs"],
  ["Language::from_vimwiki_str(..).parse::<Page>()"], [("block order of precedence", PV + "blocks/mod.rs")])

p("C04", "Inline markup is parsed as written",
  "A line composed of text, bold, italic, strikeout, superscript and subscript (nested where the syntax allows), keywords, tags, inline code, inline math, comments, and wiki, interwiki, diary, raw, external-file and transclusion links parses to exactly those elements in that order, with the text, link target, anchor, description, date, wiki index or name, and properties written. Markup characters that do not form an element stay in the text unchanged. No word of a line is lost, duplicated or moved, except that what follows the properties of a link inside its brackets is ignored.",
  ["inputs"], "lines constructed from an inline model inside paragraphs, headers, list items, table cells and definitions; random punctuation-heavy lines for the conservation part",
  "Tests cover each element alone or in a few pairs; adjacency, nesting and near-miss delimiters make a combinatorial space.",
  [PV + "blocks/inline/mod.rs", PV + "blocks/inline/typefaces.rs", PV + "blocks/inline/links/mod.rs", PV + "blocks/inline/links/wiki.rs", PV + "blocks/inline/links/interwiki.rs", PV + "blocks/inline/links/diary.rs", PV + "blocks/inline/links/transclusion.rs", PV + "blocks/inline/links/raw.rs", PV + "blocks/inline/tags.rs", PV + "blocks/inline/code.rs", PV + "blocks/inline/math.rs", PV + "blocks/inline/comments.rs"],
  ["Paragraph lines, header/cell/list content of the parsed page"], [("element precedence", PV + "blocks/inline/mod.rs")])

p("C05", "Lists keep items, nesting, markers, to-do state and progress",
  "A list written with any supported marker (-, *, #, 1., 1), a), A), i), I), alphabetic ones with up to three letters) and any indentation-based nesting parses to exactly the items written: text, continuation lines, sublists at the right depth, and the to-do attribute given by [ ], [.], [o], [O], [X] or [-]; the first item's marker decides the kind of the list. Item positions count from zero in order, and the marker an item is written back with is that of its list type at its position. Asking an item for its to-do progress gives the mean over its to-do sub-items, recursively, or its own marker's value when it has none.",
  ["inputs"], "random list trees up to depth 5 with all marker kinds and to-do states, rendered with random indentation",
  "Tests use fixed short lists; nesting transitions (dedent by several levels, sibling after sublist, mixed markers) and positions beyond one alphabet or numeral step are unbounded.",
  [PV + "blocks/lists.rs", EL + "blocks/lists/mod.rs", EL + "blocks/lists/item.rs", LANG + "output/vimwiki/mod.rs"],
  ["List/ListItem API", "ListItem::to_prefix", "ListItem to-do accessors"])

p("C06", "Tables keep every cell, alignment and span, also when ragged",
  "A table parses to exactly the rows and cells written, with content, alignment cells and span cells (> and \\/) in place, also when rows have different lengths. Iterating rows, columns or all cells visits each existing cell exactly once in order, by reference or by value, and tells at each step the position of the next cell, how many are left at least and at most, and whether content is left; header and body rows are those before and after the first divider row. The row span, column span and alignment reported for a cell are those implied by the grid.",
  ["inputs"], "random grids up to 7x7, ragged or not, with content, empty, span and alignment cells",
  "Tests use rectangular tables of fixed shape; iterator termination and span counting depend on where cells are missing.",
  [PV + "blocks/tables.rs", EL + "blocks/tables.rs", LANG + "output/html/mod.rs", LANG + "output/vimwiki/mod.rs"],
  ["Table::cells/rows/column/row/get_cell/get_cell_rowspan/get_cell_colspan/get_column_alignment", "IntoChildren for Table"])

p("C07", "Formatting a page never changes what it means",
  "For every page and every formatting configuration, parsing the formatted output gives the same page as parsing the text: same blocks, nesting, inline elements, links, attributes and text, up to the whitespace the configuration says it normalises. In particular no cell, line, item, link part or word of the user is dropped, duplicated or moved.",
  ["inputs", "configurations"], "generated documents over all element kinds and random formatter configurations; links with reserved and non-ASCII characters",
  "The fixture tests compare a few files under the default configuration; round-trip is a property of every document and configuration.",
  [LANG + "output/vimwiki/mod.rs", LANG + "output/vimwiki/formatter.rs", LANG + "output/vimwiki/config.rs", EL + "blocks/inline/links/data.rs"],
  ["Page::to_vimwiki_string", "Language::from_vimwiki_str(..).parse::<Page>()"])

p("C08", "Formatting is deterministic, idempotent and obeys its options",
  "Formatting already formatted output with the same configuration changes nothing, and formatting the same text twice, also in another process, gives identical bytes. Each option has its documented effect and no other: indentation unit, separation of blocks, blockquote style, comment, header and table padding and trimming, term placement, to-do characters.",
  ["inputs", "configurations"], "generated documents x random configurations, repeated across processes with different hash seeds",
  "Tests fix one configuration at a time on one element; idempotence and independence are relational properties over all inputs.",
  [LANG + "output/vimwiki/mod.rs", LANG + "output/vimwiki/formatter.rs", LANG + "output/vimwiki/config.rs"],
  ["Page::to_vimwiki_string"])

p("C09", "HTML output is well-nested and user text cannot inject markup",
  "For every text and HTML configuration, the produced HTML consists of correctly nested tags from the set the converter is documented to emit, with properly quoted attributes. Text written by the user never introduces an element, an attribute or a comment boundary: wherever it appears in the output (content, attribute values, ids, comments) its special characters are escaped. Attribute names that HTML does not allow, or that the element has already, are left out.",
  ["inputs", "configurations"], "generated documents with HTML metacharacters planted in every user-controlled position, arbitrary mutated texts, random HTML configurations",
  "Tests compare exact HTML for benign text; escaping has to hold in each of some thirty output positions for every text.",
  [LANG + "output/html/mod.rs", LANG + "output/html/utils.rs"],
  ["Page::to_html_string"])

p("C10", "HTML shows exactly the content of the page, in order",
  "The HTML of a page contains, in document order, the elements its blocks call for (headings by level, lists, definition lists, tables with spans and header/body split, code, math, quotes, emphasis, links, images) holding exactly the page's text, and nothing else; to-do items carry the class of their state. Text hidden by the syntax (comments unless configured, placeholders) does not appear. Options such as newline handling change only what they describe.",
  ["inputs", "configurations"], "documents constructed from the block/inline model, compared with independently computed HTML event streams",
  "Tests render single elements; order, nesting and interaction of elements and options are not sampled.",
  [LANG + "output/html/mod.rs", LANG + "output/html/config.rs"],
  ["Page::to_html_string"])

p("C11", "Links in HTML lead to the page, file or anchor they name",
  "In the HTML of a page, the href of every wiki, interwiki (by index or name), diary, directory, absolute, relative and local-file link, resolved from the location of that page's own HTML file, is the location where the converter writes the target page (or the target file itself), with the anchor kept; external links are unchanged. This holds for any layout of wikis, source and target directories, and names that need URI escaping. A link to a wiki that is not configured is reported as an error and never silently misdirected.",
  ["inputs", "configurations"], "random multi-wiki layouts, source pages and link targets including ., .., directories, spaces, percent escapes and non-ASCII names",
  "Tests check a dozen fixed source/target pairs; correctness is relative to two output paths and a wiki layout.",
  [LANG + "output/html/utils.rs", LANG + "output/html/config.rs", EL + "blocks/inline/links/data.rs", EL + "blocks/inline/links/anchor.rs"],
  ["href/src attributes in to_html_string output", "HtmlWikiConfig::make_output_path"])

p("C12", "Anchors of headers, bold text and tags exist and links reach them",
  "Every header, bold text and tag in the HTML of a page carries an id derived from its text (for headers also one with the path of headers above it), and all ids of a page are distinct when those texts are. A link to an anchor path (#Header, #Header#Subheader, #tag, #bold, and the same below a header) has a fragment that, decoded, equals the id of that element in the target page's HTML. Table-of-contents headers are marked as such.",
  ["inputs"], "random header trees with bold texts and tags, texts with case, spaces and non-ASCII letters, repeated texts",
  "Tests cover id generation and anchor encoding separately, never that the two agree across nesting histories.",
  [LANG + "output/html/mod.rs", LANG + "output/html/formatter.rs", LANG + "output/html/utils.rs", EL + "blocks/inline/links/anchor.rs"],
  ["id and href attributes in to_html_string output"],
  state=[("last seen headers", "header path used to build nested ids", LANG + "output/html/formatter.rs")])

p("C13", "HTML pages fill their template with the right values and nothing else",
  "Converting a page yields the chosen template (the one named by the page's %template inside the template directory, otherwise the configured text) with every placeholder variable replaced by the page's title (escaped), date, root path, wiki path, stylesheet, encoding and content. The title is the last %title or the file name, the date the %date given; root path followed by the wiki path leads back to the page. Page content is inserted verbatim: template-variable text inside the page is never expanded.",
  ["inputs", "configurations"], "random templates, placeholders, page depths and page contents containing template variables",
  "Tests check one variable per test with one value.",
  [LANG + "output/html/convert.rs", LANG + "output/html/config.rs", LANG + "output/html/formatter.rs", PV + "blocks/placeholders.rs"],
  ["Page::to_html_page"])

p("C14", "Every page maps to one output file inside its own wiki's output",
  "For any set of wikis, a page belongs to the deepest wiki whose directory contains it, and its output path is that wiki's output directory plus the page's path within the wiki with the extension replaced. Output paths of pages in a wiki never leave its output directory, two pages of a wiki that differ other than in extension never share an output path, and the reported relative path to the root leads from the page back to the wiki root.",
  ["inputs", "configurations"], "random wiki layouts (nested, sibling with common name prefix) and page paths with dots, unicode, . and .. segments",
  "Tests check a few paths; containment and injectivity are universal over paths.",
  [LANG + "output/html/config.rs", LANG + "output/html/utils.rs"],
  ["HtmlConfig::find_wiki_index_by_path", "HtmlWikiConfig::make_output_path/path_to_root/path_within"])

p("C15", "Pages survive serialization unchanged",
  "Serializing any parsed page to JSON and reading it back gives a page strictly equal to the original, regions included, which formats and converts to HTML identically. Damaged JSON is rejected with an error or read as some page, never with a panic.",
  ["inputs"], "all parsed pages from the generators; truncated and byte-mutated JSON",
  "No test round-trips whole pages; each element kind has its own hand-written or derived encoding.",
  [EL + "mod.rs", EL + "utils/mod.rs", EL + "blocks/mod.rs", EL + "blocks/tables.rs", EL + "blocks/definitions.rs", EL + "blocks/inline/links/mod.rs", EL + "blocks/inline/links/data.rs"],
  ["serde Serialize/Deserialize of Page"])

p("C16", "Copies, ownership changes and traversal preserve the page",
  "Cloning a page, borrowing from it or turning it into an owned value gives a strictly equal page with the same formatted text and HTML, valid after the source text is gone. Strict equality implies equality, equality ignores only positions, and equal values hash equally where hashing is offered. Decomposing an element into its children yields exactly its nested elements, in source order, each once.",
  ["inputs"], "all parsed pages from the generators, pairs of pages differing in one position or one element",
  "Each type implements these conversions by hand; tests exercise few of them and never on whole pages.",
  [EL + "mod.rs", EL + "utils/mod.rs", EL + "blocks/mod.rs", EL + "blocks/tables.rs", EL + "blocks/definitions.rs", EL + "blocks/lists/item.rs", EL + "blocks/inline/typefaces.rs", EL + "blocks/inline/links/mod.rs"],
  ["Page::to_borrowed/into_owned", "StrictEq", "IntoChildren"])

p("C17", "The convert command writes exactly the right HTML files",
  "Running convert over configured wikis writes, for every page file with the wiki's extension in the wikis selected by --include (all by default), exactly one HTML file at that page's output location, whose bytes equal converting that page through the library; plus the stylesheet where asked. Nothing else in the file system is created, modified or removed outside the cache, sources are never touched, and with --stdout no file is written and the same pages are printed. Failures are reported by a non-zero exit status.",
  ["inputs", "configurations"], "random wiki trees, nested wikis, extra files and directories, --include by index and name, --stdout, --no-cache, extra path arguments",
  "CLI tests check option parsing and two cache cases; no test runs a conversion end to end.",
  ["vimwiki-cli/src/subcommand/convert.rs", "vimwiki-cli/src/ast.rs", "vimwiki-cli/src/utils.rs", "vimwiki-cli/src/opt.rs"],
  ["vimwiki convert: file tree before/after, stdout, exit status"])

p("C18", "The format command rewrites only what it was asked to, faithfully",
  "format PATHS prints, and with --inline replaces each file with, exactly the library's formatting of that file under the given configuration. A file argument is always processed; a directory is searched recursively for the given extensions (wiki by default) and every other file stays byte-identical. Running it again formats the results in the same way (so that nothing changes wherever formatting is idempotent), without --inline no file changes, and a file that cannot be read or parsed is left as it was with a failing exit status.",
  ["inputs", "configurations"], "random directory trees with mixed extensions, hidden and nested directories, unreadable or non-UTF-8 files, random formatter configuration files",
  "No existing test runs the format command.",
  ["vimwiki-cli/src/subcommand/format.rs", "vimwiki-cli/src/utils.rs", "vimwiki-cli/src/opt.rs"],
  ["vimwiki format: file tree before/after, stdout, exit status"])

p("C19", "Inspect and cached runs report the current content of the wikis",
  "inspect JSONPATH reports, for the selected wikis, every page file once with its path, content checksum and parsed page, equal to a fresh parse of the file's current content. What convert and inspect produce never depends on the state of the cache: cold, warm, disabled, shared between wikis, and after any sequence of edits, additions, renames and deletions the results equal those of a run with no cache. After a pruning run the cache holds exactly the entries of the current pages; with pruning or caching disabled nothing is removed.",
  ["histories", "configurations"], "random sequences of file edits and CLI runs with different cache options against one cache directory",
  "Two unit tests load one file each; staleness and pruning are properties of histories.",
  ["vimwiki-cli/src/ast.rs", "vimwiki-cli/src/subcommand/inspect.rs", "vimwiki-cli/src/utils.rs"],
  ["vimwiki inspect output", "cache directory contents"],
  state=[("cache directory", "JSON page per content checksum", "vimwiki-cli/src/ast.rs")])

p("C20", "A damaged or interrupted cache never harms results",
  "If cache entries are truncated, overwritten with something that is no page, replaced by directories, unreadable or unwritable, or if a run is killed at any file-system operation, the next run either gives the same results as with an empty cache or fails with a non-zero status having left the sources untouched. It never panics or uses a damaged entry's content, and a run with a usable cache directory repairs damaged entries.",
  ["fault_sequences", "crash_points"], "each cache entry damaged in each way (truncations, garbage, holes, wrong types), kill at every write/rename/unlink system call of a run",
  "One unit test feeds one corrupt file; truncation points and kill points are not enumerated.",
  ["vimwiki-cli/src/ast.rs"],
  ["vimwiki convert/inspect output and exit status after faults", "cache directory contents"],
  state=[("cache directory", "JSON page per content checksum", "vimwiki-cli/src/ast.rs")])

p("C21", "Compile-time macros build the same values as runtime parsing",
  "For any vimwiki text a macro accepts, the value built by the compile-time macro (page, block, inline and per-element macros, raw and trimmed) is strictly equal to parsing the same text at run time. The formatting variants give what parsing the text with the arguments substituted gives, for positional, numbered and named arguments wherever they occur in text content.",
  ["programs"], "generated Rust programs invoking the macros on generated documents, compared at run time with the parser",
  "Macro tests use fixed short literals per element; each element type has its own token generator.",
  ["vimwiki_macros/src/lib.rs", "vimwiki_macros/src/formatter.rs", "vimwiki_macros/src/utils.rs", "vimwiki_macros/src/tokens/utils.rs", "vimwiki_macros/src/tokens/elements/blocks/mod.rs"],
  ["values built by vimwiki_*! macros"])

p("C22", "No undefined behaviour in parsing, conversion or traversal",
  "On every input, parsing, traversing, converting and formatting perform no out-of-bounds or misaligned access, no use after free, no data race and create no invalid value: in particular every text slice handed out is valid UTF-8 taken from the input on character boundaries.",
  ["inputs", "schedules"], "generated and hostile multi-byte texts under an undefined-behaviour interpreter, address and thread sanitizers, and a hook on every unchecked conversion",
  "Tests run without any instrumentation; an invalid slice usually goes unnoticed until much later.",
  [LANG + "parsers/span.rs", LANG + "parsers/utils/convert.rs", LANG + "parsers/utils/bytes.rs", LANG + "parsers/utils/line.rs"],
  ["sanitizer / interpreter reports", "hook on span-to-str conversion"],
  [("unchecked UTF-8 conversion of spans", LANG + "parsers/span.rs")],
  hook="monitor on each unchecked bytes-to-str conversion reporting slices that are not on character boundaries")

p("C23", "Line-ending style and surrounding blank lines do not change meaning",
  "A text with CRLF line endings parses to the same page (positions aside) as the same text with LF endings. Adding or removing blank lines at the start or end of a document, or a final line break, does not change its blocks.",
  ["inputs"], "generated documents and mutated texts, each in LF, CRLF and re-padded variants",
  "Tests use LF fragments; each block parser handles line ends on its own.",
  [LANG + "parsers/utils/line.rs", PV + "mod.rs", PV + "blocks/code.rs", PV + "blocks/math.rs", PV + "blocks/blockquotes.rs", PV + "blocks/lists.rs", PV + "blocks/tables.rs"],
  ["Language::from_vimwiki_str(..).parse::<Page>()"])

p("C24", "Results are independent of threads, order and timing instrumentation",
  "Parsing, formatting and converting are pure: the result depends only on text and configuration, whatever was processed before in the same process, in how many threads, and whether time keeping is compiled in or enabled. Time keeping, when enabled, counts every parser call exactly once without panicking under concurrent use.",
  ["schedules", "histories"], "the same documents processed in random order by 1..16 threads, with time keeping off and on, and in separate processes",
  "Tests run each fragment once in an arbitrary thread with the feature off.",
  ["vimwiki-core/src/timekeeper.rs", LANG + "parsers/mod.rs", LANG + "output/html/mod.rs", LANG + "output/html/formatter.rs"],
  ["results of parse/to_vimwiki_string/to_html_string/to_html_page across threads and builds"],
  state=[("time keeping map", "per-parser call statistics shared by threads", "vimwiki-core/src/timekeeper.rs")])

p("C25", "Configuration files mean what they say, missing options mean defaults",
  "Reading a formatter or HTML configuration that sets any subset of options gives the documented default for each option not set and exactly the given value for each one set, in every section; writing a configuration out and reading it back gives an equal configuration. Wiki paths are expanded and normalised to absolute paths, and relative ones are rejected; a value of the wrong type, or one that is no URI where one is needed, is rejected with an error. The wikis of vim's g:vimwiki_list are used where the configuration has none or merging is asked for, and then come before the configured ones.",
  ["configurations"], "random subsets of all options with random values; random wiki paths with ., .., ~ and environment variables",
  "No test loads a partial configuration; each option has its own default function.",
  [LANG + "output/vimwiki/config.rs", LANG + "output/html/config.rs", LANG + "output/html/utils.rs", "vimwiki-cli/src/utils.rs"],
  ["serde deserialization of VimwikiConfig/HtmlConfig", "effect on output"])

p("C26", "JavaScript bindings show and build exactly the library's pages",
  "For any text, parse_vimwiki_str gives a page through whose accessors (positions and counts, is_ and into_ conversions, lines, attributes, regions, children, descendants, conversions to JavaScript values, HTML and debug strings) exactly the page that the library parses is seen, each element once and in order; positions past the end and conversions to another kind give nothing. Dates are the calendar dates written. Constructors build the elements that their arguments describe. A configuration object given for HTML is honoured, and an invalid one is rejected with an error. No accessor panics.",
  ["inputs", "configurations"], "generated and hostile pages seen through every accessor; random configuration objects; constructors with random arguments",
  "The crate has no tests at all, and each accessor is written by hand or by a macro for each kind of element.",
  ["vimwiki-wasm/src/lib.rs", "vimwiki-wasm/src/elements.rs", "vimwiki-wasm/src/utils.rs"],
  ["every function exported to JavaScript"])

p("C27", "Links that programs build hold what they were given and say what they are",
  "A link built from an address, a description, properties, a date, a wiki's index or name, or an anchor gives exactly these back through its accessors and is of exactly that kind; scheme, path, fragment, anchor pieces, whether it is local, remote, a directory or a local anchor, and the text or fallback text shown follow from the address written. Decoding an address turns every percent-encoded sequence that is text into that text and keeps all others; encoding leaves no character that an address may not have and decodes to the same text. A built link that the syntax can express is written as vimwiki and read back as an equal link.",
  ["inputs"], "links of every kind built from random parts; random texts and bytes as addresses and anchors",
  "Tests build a handful of plain links; encodings, anchors and fallbacks interact.",
  [EL + "blocks/inline/links/mod.rs", EL + "blocks/inline/links/data.rs", EL + "blocks/inline/links/anchor.rs", EL + "blocks/inline/links/description.rs"],
  ["constructors and accessors of Link, LinkData, Anchor, Description", "Page::to_vimwiki_string"])

p("C28", "Every view of an element agrees with the element",
  "For every element of any page, all that can be asked of it agrees with its content: exactly one is_, as_, as_mut_ and into_ conversion applies and gives that very element; iterators (shared, mutable, owned), counts, lookups by number and slices show each part once and in order; sublists and other contents of list items, groups of lines of a quote, blank lines of a paragraph, the definitions of a term (of the first with that name), list order and to-do states are those of the content; collecting the parts gives an equal element; the text shown is that of its parts without decoration and comments. Located values keep their region through every conversion, regions contain exactly their offsets, and positions of cells are read as they are written.",
  ["inputs"], "every element of generated and hostile pages, elements built from random parts, random regions and positions of cells",
  "Accessors are hand-written for each of thirty kinds of element and tests use only a few.",
  [EL + "mod.rs", EL + "blocks/mod.rs", EL + "blocks/definitions.rs", EL + "blocks/blockquotes.rs", EL + "blocks/paragraphs.rs", EL + "blocks/lists/mod.rs", EL + "blocks/lists/item.rs", EL + "blocks/inline/mod.rs", EL + "blocks/inline/typefaces.rs", EL + "utils/mod.rs", EL + "utils/region.rs"],
  ["public methods of all element types"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
