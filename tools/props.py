"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the texts below:  python3 tools/props.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS = [], []

PARSER, RULES, HTMLEM = "creole/parser/creol2html_parser.py", "creole/parser/creol2html_rules.py", "creole/emitter/creol2html_emitter.py"
HPARSER, BASE = "creole/parser/html_parser.py", "creole/shared/base_emitter.py"
TREE = "creole/shared/document_tree.py"
CREM, REEM, TEEM, MDEM = ("creole/emitter/html2%s_emitter.py" % t for t in ("creole", "rest", "textile", "markdown"))
TABLE = "creole/shared/markup_table.py"
UNK = "creole/shared/unknown_tags.py"
STRIP, DEENT, TOOLS = "creole/html_tools/strip_html.py", "creole/html_tools/deentity.py", "creole/html_tools/text_tools.py"
UTILS = "creole/shared/utils.py"

TLA = "TLA+ specification checked with TLC; "
TRACE = "recorded conversions of the real code checked against it (trace validation)"
BOTH = "its exhaustive small documents replayed on the real code, and " + TRACE


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=("return value of the public function",)):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, pid
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})
    CHECKS.append({"property": pid, "quick_cmd": "python3 check.py %s --quick" % pid, "thorough_cmd": "python3 check.py %s --thorough" % pid,
                   "technique": TLA + technique, "level": "model_checking", "level_note": note})


EXH = ("The grammar and emitter are transcribed as a TLA+ specification; every document over a small alphabet of fragments is enumerated by TLC and replayed, and seeded larger "
       "documents are judged by TLC.  Assurance is bounded by those alphabets and generators; trusted: TLC and the recorder.")
TR = ("The html reader and the emitter are transcribed as a TLA+ specification; seeded documents of a focused generator are converted by the real code and TLC judges every result.  "
      "Assurance is bounded by the generator; trusted: TLC and the recorder.")
ANYDOC = "every text of any length and every combination of the conversion options"
FEW = "The tests convert some dozens of fixed documents; "

prop("C01", "Creole block structure",
     "For every Creole text the html contains exactly the blocks (paragraphs, headings of the level given by the number of equal signs, rules, lists, tables, preformatted areas, block macros) that the Creole rules assign to its lines, "
     "in source order, for every kind of line end and every adjacency of blocks. Lines that only look like block markup are paragraph text.",
     ["inputs", "configurations"], "all texts, line end styles (LF, CR, CRLF, mixed) and both line break modes",
     FEW + "which block follows which, blank or whitespace-only lines between them and near-miss markup are unbounded combinations.",
     [PARSER, RULES, HTMLEM], [("block rules and their order", RULES), ("blocks open and close in the document tree", PARSER), ("block tags", HTMLEM)], BOTH, EXH)
prop("C02", "Creole lists nest as their bullets say",
     "For every sequence of list lines, bullets of a deeper level nest inside the item before, shallower ones continue the enclosing list, a change between bullet and numbered markup at the same level starts a new list, and every item keeps its whole content with its inline markup. "
     "The list ends exactly where the list markup ends.",
     ["inputs", "configurations"], "all sequences of list lines with any bullets (any depth, jumps, mixed kinds), indentation, continuation lines and item contents, in both line break modes",
     FEW + "nesting depends on the whole history of the lines before.",
     [PARSER, RULES, HTMLEM], [("search of the list level to append to", PARSER + ":_item_repl"), ("nested ul/ol code", HTMLEM + ":_list_emit")], BOTH, EXH)
prop("C03", "Creole tables keep every row and cell",
     "Every table line becomes one row whose cells are exactly the parts between the unescaped pipes, in order, header cells where marked with an equal sign, and each with its inline markup. Pipes inside links, images, macros and inline code do not split cells.",
     ["inputs", "configurations"], "all tables: any number of rows and cells, empty cells, missing closing pipes, any cell content",
     FEW + "cell splitting has to be right for every combination of markup in cells.",
     [PARSER, RULES, HTMLEM], [("cell splitting", PARSER + ":_table_repl"), ("cell rules", RULES)], BOTH, EXH)
prop("C04", "Creole inline markup",
     "Bold, italic, monospace, superscript, subscript, underline, small and deleted markup opens at its marker, closes at the matching marker, nests in any order and to any depth, works in every block, and unmatched or empty markers stay literal text. Slashes of addresses never start italics.",
     ["inputs", "configurations"], "all inline texts: any nesting, overlap, adjacency and whitespace of markers, in every kind of block",
     FEW + "pairs of markers interact in unboundedly many nestings and overlaps.",
     [PARSER, RULES, HTMLEM], [("inline patterns and their order", RULES), ("recursive inline parsing", PARSER), ("tags of typefaces", HTMLEM)], BOTH, EXH)
prop("C05", "Creole links and images",
     "Every link markup yields an anchor with exactly the given target and its (parsed) label, every image markup an image with the given source, title and size, and every bare address of a supported protocol a link without trailing punctuation. A tilde before an address or markup makes it plain text.",
     ["inputs"], "all targets, labels, titles, sizes, protocols and surrounding characters, including malformed markup",
     FEW + "targets and labels are arbitrary texts.",
     [PARSER, RULES, HTMLEM], [("address, link and image patterns", RULES), ("a and img tags", HTMLEM)], BOTH, EXH)
prop("C06", "Line breaks follow the chosen mode",
     "With blog style breaks every single line end inside a paragraph, list item or table cell text becomes one line break, with wiki style breaks lines are joined by a space character or line end, and in both modes a double backslash forces a break and an empty line ends the paragraph. No break is lost, doubled or added next to other blocks.",
     ["inputs", "configurations"], "all texts with any mixture of line ends, backslashes, blank lines and blocks, in both modes",
     FEW + "breaks next to other markup form unbounded combinations.",
     [PARSER, RULES, HTMLEM], [("line break rules", RULES), ("needless breaks removed", PARSER + ":cleanup_break"), ("br code", HTMLEM + ":break_emit")], BOTH, EXH)
prop("C07", "No markup injection through Creole text",
     "Whatever the text, the html contains only elements and attributes that Creole markup stands for; every other character of the document, in text, attribute values, macro error messages, unknown macros and tables of contents, is escaped exactly once. Only a macro given by the application can put raw html into the result.",
     ["inputs", "configurations"], ANYDOC + ", including html tags, quotes, entities in every position",
     FEW + "an attacker chooses the text and the position.",
     [HTMLEM], [("escaping of text and attributes", HTMLEM + ":html_escape, attr_escape"), ("error messages", HTMLEM + ":error"), ("headlines of the table of contents", HTMLEM + ":TableOfContent")], BOTH,
     EXH + "  Known finding F1 (macro argument message).")
prop("C08", "Generated html is always well formed",
     "For every text the html has all its tags closed in the right order, list items only in lists, rows only in tables and cells only in rows, and nothing but text in preformatted areas. This holds for unclosed, overlapping and nested markup (application macros excepted).",
     ["inputs", "configurations"], ANYDOC, FEW + "unclosed and overlapping markup has unboundedly many forms.",
     [PARSER, HTMLEM], [("tree building", PARSER), ("matching start and end tags", HTMLEM)], BOTH, EXH)
prop("C09", "No text is lost or changed; preformatted text is verbatim",
     "Every visible character of the text that is not markup appears exactly once and in order in the html, and the content of preformatted areas, inline code and tilde escapes appears literally, with no markup interpreted in it. A tilde before a non-markup character stays.",
     ["inputs", "configurations"], ANYDOC, FEW + "conservation has to hold for arbitrary content.",
     [PARSER, RULES, HTMLEM], [("preformatted and escape rules", RULES), ("verbatim content", PARSER + ":_pre_block_repl, _pre_inline_repl, _escape_repl")], BOTH, EXH)
prop("C10", "Macros are called with exactly the given name, arguments and text",
     "A macro tag calls the application's macro of that name (from a dictionary or an object) exactly once, with the arguments as written (quoted texts, numbers, True, False, None) and the unparsed text between start and end tag, and its result appears unchanged at that place. Tags without a fitting end, or escaped, are plain text.",
     ["inputs", "configurations"], "all macro names, argument lists, contents and positions (block, inline, in lists, tables, links)",
     FEW + "argument lists are a small language with quoting.",
     [PARSER, RULES, HTMLEM, UTILS], [("macro rules", RULES), ("dispatch", HTMLEM + ":macro_emit"), ("argument parsing", UTILS + ":string2dict")], BOTH,
     EXH + "  Numbers are specified for ASCII digits.", ("return value of creole2html()", "arguments the application's macros receive"))
prop("C11", "Failing macros are contained and reported as configured",
     "A missing macro, wrong arguments, or an exception in a macro never ends the conversion (unless the highest verbosity asks for it): the rest of the document is unaffected, and the failure shows in the html and on the given error stream exactly as the verbosity says. Nothing else is ever written to the process's output or error streams.",
     ["inputs", "configurations", "fault_sequences"], "all verbosity levels, failing and missing macros, wrong arguments, positions and numbers of failures",
     FEW + "failures combine with positions, levels and the rest of the document.",
     [HTMLEM], [("macro error handling", HTMLEM + ":macro_emit, error")], BOTH, EXH + "  Known finding F1 (macro argument message).",
     ("return value of creole2html()", "given stderr object", "sys.stdout and sys.stderr"))
prop("C12", "The table of contents matches the document",
     "A toc macro is replaced by the list of exactly the document's headings in order, nested by level and limited by the given depth, escaped, at the place of the macro; an invalid depth is a macro error. A toc macro of the application takes precedence, and the given macros are never modified.",
     ["inputs", "configurations"], "all sequences of heading levels, depths, heading texts and positions and numbers of toc macros",
     "The tests have a dozen documents; nesting depends on the whole sequence of levels.",
     [HTMLEM], [("toc", HTMLEM + ":TableOfContent")], BOTH, EXH)
prop("C13", "Creole conversion always ends with a result",
     "For every text and every combination of options the conversion to html ends with a text (nested markup up to 50 levels deep); it never raises an exception, hangs or takes exponential time.",
     ["inputs", "configurations"], ANYDOC, FEW + "arbitrary, malformed and large texts are unbounded.",
     [PARSER, RULES, HTMLEM], [("every text matches some rule", RULES + ": line and char rules"), ("parser", PARSER)], TRACE + "; termination of the specified parser as a liveness property", EXH)

HDOC = "all html documents: well formed, malformed, truncated, any nesting"
HFEW = "The tests compare some dozens of fixed documents; "
prop("H01", "No text is lost from html",
     "Every word of the html's text content appears in the result of each of the four html converters, exactly once, in document order and with its characters unchanged, for every nesting of known and unknown tags (transparent mode), lists, tables and preformatted areas. Comments and tags themselves leave no text.",
     ["inputs", "configurations"], HDOC + ", all four targets", HFEW + "conservation has to hold for every nesting.",
     [HPARSER, BASE, CREM, REEM, TEEM, MDEM, STRIP], [("reading text into the tree", HPARSER), ("emitting children in order", BASE)], TRACE, TR)
prop("H02", "html to Creole: each element becomes its markup",
     "html2creole writes each paragraph, heading, rule, typeface, link, image, list, table, line break and preformatted area as the Creole markup that stands for it, with exactly its content, once, in order and separated as blocks (an empty line behind paragraphs, headings, tables and preformatted areas).",
     ["inputs", "configurations"], HDOC + "; strict and normal mode", HFEW + "elements nest without bound.",
     [CREM, BASE, HPARSER], [("Creole emitter", CREM), ("shared emitter", BASE)], TRACE, TR + "  Known finding F2 (image size swapped).")
prop("H03", "html to ReStructuredText: each element becomes its markup",
     "html2rest writes each element as its ReStructuredText markup with exactly its content: heading underlines as wide as the text (two columns for wide characters, at least four), lists indented by nesting, tables as simple grids, preformatted areas (with the tags on lines of their own) as literal blocks with the indent of every line. Every link or image is a reference that is defined exactly once, right behind its block, with the right target, and a name with two targets is refused.",
     ["inputs", "configurations", "histories"], HDOC, HFEW + "reference names and targets accumulate over the document.",
     [REEM, BASE, TABLE, HPARSER], [("ReSt emitter", REEM), ("collected link definitions", REEM + ":_get_block_data, a_emit, img_emit"), ("tables", TABLE)], TRACE, TR)
prop("H04", "html to Textile: each element becomes its markup",
     "html2textile writes each paragraph, heading, rule, typeface, link, image, list, table, line break and preformatted area as the Textile markup that stands for it, with exactly its content, once, in order and separated as blocks (an empty line behind paragraphs, headings, tables and preformatted areas).",
     ["inputs", "configurations"], HDOC, HFEW + "elements nest without bound.", [TEEM, BASE, HPARSER], [("Textile emitter", TEEM), ("shared emitter", BASE)], TRACE, TR)
prop("H05", "html to Markdown: each element becomes its markup",
     "html2markdown writes each element as its Markdown markup (or html where Markdown has none) with exactly its content, once and in order: links quoted so that the target survives, list items numbered (always 1., which Markdown counts) and everything in them indented below their text, fenced code blocks with language and verbatim content.",
     ["inputs", "configurations"], HDOC, HFEW + "elements nest without bound.", [MDEM, BASE, TABLE, HPARSER], [("Markdown emitter", MDEM), ("shared emitter", BASE)], TRACE, TR)
prop("H06", "html tables keep every row, cell and header in every target",
     "For every html table each target's table has the same rows and cells in the same order, with header cells marked, columns aligned to the widest cell where the target pads them, and cell content on one line with pipes and line breaks kept harmless. Rows may have different numbers of cells, and tables may be empty or nested.",
     ["inputs"], "all html tables (any shape and content), all four targets", HFEW + "row and cell shapes are unbounded.",
     [BASE, TABLE, REEM, MDEM], [("table collection", BASE + ":table_emit, _fill_table"), ("layout", TABLE)], TRACE, TR + "  Known finding F2 (image size swapped).")
prop("H07", "Character and entity references denote their character",
     "Every decimal, hexadecimal or named reference in text, attributes and preformatted areas is converted to exactly the character it denotes, once and not twice, in all four targets; unknown or invalid references stay readable text. Never is anything else decoded.",
     ["inputs"], "all references, valid and invalid, in text, attribute values and preformatted areas", HFEW + "references form an unbounded set.",
     [BASE, DEENT, HPARSER], [("references in text", BASE + ":entityref_emit, charref_emit"), ("references in preformatted areas", DEENT)], TRACE, TR)
prop("H08", "Unknown tags are treated exactly as the chosen policy says",
     "For each policy (transparent, escape, html macro, preformat, raise) an unknown tag shows its content once with the tag removed, escaped, masked or refused as the policy says, with its attributes kept where the policy shows the tag; known tags and the rest of the document are converted as without it.",
     ["inputs", "configurations"], "all unknown tag names, attributes, contents and nestings; all policies and targets", HFEW + "policies, names, attributes and nesting combine freely.",
     [UNK, BASE, TREE], [("policies", UNK), ("dispatch", BASE + ":emit_node"), ("attributes", TREE + ":get_attrs_as_string")], TRACE, TR)
prop("H09", "Only whitespace that html shows matters; preformatted text is kept",
     "Indentation, line ends and other whitespace between and around tags never changes the converted markup beyond what html itself shows, while every line, space and blank line of preformatted areas is kept as it is, for every target.",
     ["inputs"], "all placements of whitespace in a document; all preformatted contents", HFEW + "whitespace can be anywhere.",
     [STRIP, TOOLS, HPARSER], [("whitespace removal", STRIP), ("preformatted areas cut out first", HPARSER + ":feed")], TRACE + "; re-spaced variants of one document compared", TR)
prop("H10", "html conversion always ends with a result",
     "Each html converter ends with a text for every input whatever (tag soup, truncated tags, stray end tags, any attribute), nested up to 50 levels; the only exceptions are the refusals that the policy or a conflicting ReStructuredText reference asks for. It never hangs.",
     ["inputs", "configurations"], HDOC, HFEW + "malformed inputs are unbounded.",
     [HPARSER, BASE, STRIP], [("html reader", HPARSER), ("emitters", BASE)], TRACE + "; termination of the specified reader as a liveness property", TR)
prop("H11", "Tag soup is read as a browser-like tree",
     "Whatever the order of start and end tags, each tag's content is converted inside that tag only: stray end tags are ignored, missing ones are closed at the end of the enclosing element, empty tags never swallow what follows, and names are compared without case. Truncated tags are text.",
     ["inputs"], "all sequences of tags", HFEW + "sequences of tags are unbounded.",
     [HPARSER, "creole/parser/html_parser_config.py"], [("tree building", HPARSER + ":handle_starttag, handle_endtag, _upto")], TRACE, TR)
prop("H12", "html lists keep items, nesting and kind in every target",
     "For every nesting of ordered and unordered lists each item appears once, in order, at its depth, with the marker of its list's kind and its own content, in all four targets. Text behind a nested list still belongs to its item.",
     ["inputs"], "all nestings of lists, item contents and whitespace; all four targets", HFEW + "nesting depends on the whole history of open lists.",
     [BASE, CREM, REEM, TEEM, MDEM], [("nested list code", BASE + ":_list_emit"), ("ReSt lists", REEM + ":_list_emit"), ("Markdown lists", MDEM + ":list_emit, li_emit")], TRACE, TR)
prop("H13", "html links and images keep target, label, title and size",
     "For every anchor and image each target's markup has exactly the given address, the label with its inline markup, and the title or alternative text, whichever attributes are present, missing or empty, and in whatever order; anchors without address show only their label.",
     ["inputs"], "all attribute combinations, values and labels; all four targets", HFEW + "attributes are optional, in any order, with arbitrary values.",
     [CREM, REEM, TEEM, MDEM], [("a and img", CREM + ":a_emit, img_emit"), ("Markdown link quoting", MDEM + ":quote_link")], TRACE, TR + "  Known finding F2 (image size swapped).")
K = ("The tools are specified as transitions of a directory of files (byte contents), on top of the specification of the conversions; TLC checks frame conditions as action properties and judges recorded "
     "histories of calls.  Assurance is bounded by the generated histories; trusted: TLC and the recorder.")
CMD, SETUP = "creole/cmdline.py", "creole/setup_utils.py"
prop("K01", "Command line tools write exactly the conversion, or nothing",
     "For every source file, destination and encoding the tool writes to the destination exactly the result of its library function for the decoded source, in the same encoding, and changes no other file, even if source and destination are the same. "
     "If the source cannot be read or decoded or the result cannot be encoded, the call fails and no file is created or changed.",
     ["inputs", "histories"], "all file contents (valid or not in the codec), codecs, existing and missing files, and sequences of calls",
     "The tests run a few conversions of ASCII files; undecodable bytes, other codecs, existing destinations and sequences of calls are unbounded.",
     [CMD], [("read, decode, convert, encode, write", CMD + ":CreoleCLI.convert"), ("entry points", CMD + ":cli_creole2html, cli_html2creole, cli_html2rest, cli_html2textile")],
     "histories of calls enumerated by TLC and replayed on the real tools, frame conditions as action properties, and " + TRACE, K,
     ["contents of all files in the directory after every call", "exit status"])
prop("K02", "Generated README files match their source until it changes",
     "After an update of the ReSt or Markdown README an assertion succeeds and a repeated update changes nothing; after every change of the Creole source that changes the conversion the assertion fails until the next update. Updates never change the source nor the other README, whatever the locale.",
     ["inputs", "histories", "configurations"], "all README texts, contents of the generated files, sequences of edits, updates and assertions, and locales",
     "The tests check this repository's own README once; other texts, stale or foreign files, sequences and locales are unbounded.",
     [SETUP], [("up to date test", SETUP + ":_is_up_to_date"), ("update", SETUP + ":update_rst_readme, update_markdown_readme"), ("assertion", SETUP + ":assert_rst_readme, assert_markdown_readme")],
     TRACE, K, ["contents of all files after every call", "result or exception of the call"])
prop("K03", "Long description is the README's ReSt, or the README itself",
     "For every README the long description is its conversion to ReSt, and errors (missing file, undecodable text, unsupported markup) are raised when errors should be raised; otherwise they are reported in front of the original text and never raised. No file is changed.",
     ["inputs", "configurations"], "all README contents (including missing and undecodable files), modes and command line arguments",
     "The tests convert this repository's README only.",
     [SETUP], [("conversion and error handling", SETUP + ":get_long_description"), ("when errors are raised", SETUP + ":should_raise_errors, RAISE_ERRORS_ARGS")],
     TRACE, K, ["return value or exception", "contents of all files"])
prop("S01", "Conversions do not influence each other",
     "The result of a conversion depends only on its arguments: not on the conversions made before, on conversions another thread makes at the same time, nor on conversions a macro or a handler of unknown tags makes meanwhile. No conversion changes the objects it was given (macros, block rules).",
     ["histories", "schedules"], "all sequences, nestings and thread interleavings of conversions",
     "The tests make one conversion at a time with fresh arguments; interleavings and histories are unbounded.",
     [PARSER, HTMLEM, HPARSER, BASE, REEM, MDEM], [("per conversion state", HTMLEM + ":HtmlEmitter, TableOfContent"), ("placeholders of preformatted areas", HPARSER + ":_pre_cut"), ("substitutions", REEM)],
     "schedules of two conversions' steps enumerated by TLC and replayed on real threads (line level), and histories of begin and end events judged by the specification (trace validation)",
     "Conversions are specified as transition systems; TLC enumerates their interleavings (bounded number of switches), real threads are driven along them, and seeded histories (sequences, nested conversions, two or three threads with dense or random switches) are judged by TLC.  "
     "Bounded by these schedules; trusted: TLC, the recorder and the thread scheduler based on line tracing.", ["return values of the calls", "the given objects"])
prop("S02", "Diagnostics do not change the result",
     "With debug output switched on, every conversion returns or raises exactly what it does without. Where the error reports of macros are written has no influence on the html code.",
     ["inputs", "configurations"], "all documents, all five functions, debug on and off, every verbosity, given or default stderr",
     "No test converts with debug output and compares; the debug code runs in every node and every piece of text.",
     [PARSER, HPARSER, BASE, HTMLEM, TABLE, TREE], [("debug output", BASE + ":debug_msg, emit_node"), ("DebugList", TREE), ("error reports", HTMLEM + ":error")], TRACE, TR, ["return value or exception", "stderr"])
prop("M01", "The example macros show exactly their text",
     "The macros of example_macros show the text given to them, called directly or from a Creole page: html as it is, pre escaped inside a pre element, and code as pygments highlights it for the language of the extension (guessed from the text if there is no such language), "
     "with every line end also written as a tag, or escaped inside a pre element if pygments is missing or fails. The html code of pre and code is well formed whatever the text, and shows it completely.",
     ["inputs", "configurations"], "all texts and extensions; macros given as dictionary or object, in every place of a page, with right and wrong arguments", "The tests call code once; text and extension are arbitrary.",
     ["creole/shared/example_macros.py", UTILS, HTMLEM], [("macros", "creole/shared/example_macros.py:html, pre, code"), ("lexer and formatter", UTILS + ":get_pygments_lexer, get_pygments_formatter"), ("calls", HTMLEM + ":macro_emit")],
     BOTH, "Highlighting is pygments' business: its own html code for the lexer that the specification names is part of a record.  Bounded by the alphabet and the generators; trusted: TLC, pygments, the recorder.")
REST, PYPI = "creole/rest_tools/clean_writer.py", "creole/rest_tools/pypi_rest2html.py"
R = ("What the text means is docutils' business: its own html4css1 output (settings as documented) is part of a record, the specification (Rest.tla) defines what is left of it in clean html code and what is refused, "
     "TLC checks that cleaning keeps text and nesting on all small pieces of html code, and judges the recorded calls.  Bounded by the generated documents; trusted: TLC, docutils, the recorder.  Formulas, page headers and footers are left out.")
RDOC = "all ReStructuredText documents (apart from formulas, page headers and footers) and settings"
prop("R01", "rest2html shows the whole document as clean html",
     "rest2html returns the html code that docutils' html4css1 writer makes of a text, with all text, tags, links and image alignments, but without div, blockquote and thead tags and without classes, ids and other style attributes, properly nested. "
     "Errors and exit codes are those of docutils, and the documents before have no influence.",
     ["inputs", "configurations", "histories"], RDOC, "The tests convert a dozen documents; docutils has 60 kinds of nodes that nest freely, and the writer keeps state between them.",
     [REST], [("start tags", REST + ":CleanHTMLTranslator.starttag"), ("tables and field lists", REST + ":visit_table .. depart_docinfo"), ("images", REST + ":visit_image"), ("settings", REST + ":rest2html")],
     TRACE + "; cleaning itself explored by TLC", R)
prop("R02", "No raw html, no inserted files, and PyPI's strictness",
     "Unless it is asked to, rest2html never passes raw html and never inserts a file, however the text asks for it; pypi_rest2html never does. pypi_rest2html returns docutils' html body if the text has no warnings and all its links and images have a scheme PyPI allows, and raises otherwise.",
     ["inputs", "configurations"], "all ReStructuredText documents, settings and encodings", "The tests check one raw directive and one include; directives, roles, options and schemes combine freely.",
     [REST, PYPI], [("settings", REST + ":rest2html"), ("settings, schemes", PYPI + ":pypi_rest2html")], TRACE, R)
MEAN = ("plain documents: paragraphs, headings, lists nested at will, tables with a header row, preformatted areas, links, images and typefaces of the markup, in divs or not, with words of letters and digits of any script, "
        "typefaces and links between spaces")
BT = ("The specification (Meaning.tla) defines what a document means to its reader; the converted markup is read back %s and TLC compares both meanings.  "
      "TLC also enumerates all sequences of blocks, and of pieces inside of each kind of block, up to a bound%s, and each is replayed.  Bounded by fragments and generator; trusted: TLC, the reader, the recorder.")
BACK = "specified meaning of documents; " + BOTH
def back(pid, name, call, extra, files, reader, also=""):
    prop(pid, "html to %s and back: the document means the same" % name,
         "An html document (%s) converted by %s means the same to %s: the same blocks in the same order and nesting, with the same words, typefaces, link targets%s." % (MEAN[len("plain documents: "):], call, reader, extra),
         ["inputs"], MEAN, "The tests compare fixed markup texts character by character, whether or not a reader of the markup understands them; blocks and pieces combine freely.",
         files, [("emitter", files[0]), ("tables", TABLE), ("shared emitter", BASE), ("whitespace around tags", STRIP)], BACK, BT % ("by " + reader, also),
         ("return value of the public function", "what a reader of the markup makes of it"))
back("X01", "Creole", "html2creole", ", images and line breaks", [CREM, BASE, TABLE, STRIP, HTMLEM, PARSER, RULES], "creole2html",
     "; there the specified way back is checked as well, as an invariant")
back("X02", "ReStructuredText", "html2rest", " and images", [REEM, BASE, TABLE, STRIP], "docutils, which reports no warning")
back("X03", "Textile", "html2textile", ", images and line breaks", [TEEM, BASE, TABLE, STRIP], "python-textile")
back("X04", "Markdown", "html2markdown", " and images", [MDEM, BASE, TABLE, STRIP], "commonmark (Python-Markdown for tables)")
# MORE


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": CHECKS, "not_applicable": NOT_APPLICABLE, "notes": NOTES}, f, indent=1)
        f.write("\n")


NOT_APPLICABLE = []
NOTES = ("No hooks: the recorder only calls public functions of /repo.  check.py starts TLC (java) and workers with /opt/venv/bin/python; nothing is built.  "
         "Fixed defects and known findings: known_findings.json.")
if __name__ == "__main__":
    main()
