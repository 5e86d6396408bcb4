#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
CORE = "vimwiki-core/src/lang/"
PB = CORE + "parsers/vimwiki/blocks/"
EL = CORE + "elements/"
OH = CORE + "output/html/"
OV = CORE + "output/vimwiki/"

prop("C01", "Every text parses as a page, without failing, panicking or losing input",
 "Parsing any UTF-8 text as a vimwiki page terminates and succeeds without a panic, and every non-blank line of the text lies inside exactly one top-level element of the page. Parsing the same text under a language that is not supported reports an error instead of returning a page. What was parsed can be rendered as HTML and as vimwiki text without a panic.",
 ["inputs"], "all texts over an alphabet of every markup character, whitespace, CR/LF, digits, letters and multi-byte characters, and all documents the other specifications generate",
 "The tests parse a few hundred well-formed fixtures; totality quantifies over every string, including unterminated, overlapping and truncated markup.",
 [CORE+"mod.rs", CORE+"parsers/vimwiki/mod.rs", PB+"mod.rs", CORE+"parsers/span.rs"],
 [("page = many0(blank line | top-level block), all consumed", CORE+"parsers/vimwiki/mod.rs"), ("paragraph as the fallback of every line", PB+"paragraphs.rs")],
 ["Language::from_vimwiki_str(..).parse::<Page>()", "Page::to_html_string", "Page::to_vimwiki_string"])

prop("C02", "Each line of a page becomes part of the block its markup announces",
 "A page is the sequence of blocks its lines announce, in order: headers (level 1-6, balanced, centered when indented), dividers, placeholders, arrow and indented blockquotes, lists, definition lists, tables, closed code and math blocks, and paragraphs for everything else. Precedence between the blocks, the lines at which a block starts, continues and ends, and the text each block holds (with its documented trimming) depend only on the lines, with LF and CRLF line ends alike. Blank lines separate blocks and leave no trace in the page.",
 ["inputs"], "all sequences of lines of every kind, in every order and adjacency, with LF/CRLF ends and with or without a final line end",
 "Unit tests try each block parser on its own with a handful of lines; interactions between adjacent blocks (what interrupts a paragraph, a quote, a list) are only sampled.",
 [PB+"mod.rs", PB+"headers.rs", PB+"paragraphs.rs", PB+"blockquotes.rs", PB+"dividers.rs", PB+"placeholders.rs", CORE+"parsers/utils/line.rs"],
 [("ordered choice between block parsers", PB+"mod.rs"), ("guards that end a paragraph", PB+"paragraphs.rs")],
 ["Page elements"])

prop("C03", "Lists nest by indentation and keep their items, order, kinds and positions",
 "The lines of a list form the tree their indentation describes: an item indented deeper than another one that is still open belongs to it, an item at the same indentation is its next sibling, and a shallower one closes the inner list. Every item keeps its own text lines and nested blocks in order, its checkbox state and its 0-based position among its siblings, and the items of one list all have the bullet or number style of the first, suffix included. A list ends at the first line that is neither an item nor a continuation of one.",
 ["inputs"], "all sequences of item and continuation lines with indentation 0-8 (spaces and tabs), all bullet, number, letter and roman prefixes, all checkbox states",
 "Tests hold a few nested lists of two levels; the tree depends on every sequence of indentations.",
 [PB+"lists.rs", EL+"blocks/lists/mod.rs", EL+"blocks/lists/item.rs"],
 [("item indentation compared with the parent's", PB+"lists.rs"), ("normalisation of item types", EL+"blocks/lists/mod.rs")],
 ["List/ListItem of a parsed page"])

prop("C04", "Checkbox progress of a list item is the mean over its non-rejected sub-items",
 "The progress of an item is 0, 25, 50, 75 or 100 percent by its own checkbox when no sub-item carries progress, and otherwise the mean of the progress of the sub-items that have one, over all of its nested lists. Rejected and checkbox-less leaves have no progress and do not count. The HTML class of an item reflects its own checkbox only.",
 ["inputs"], "all trees of items with every checkbox state to depth 3",
 "Tests check a handful of trees; the recursion with absent progress at several depths is not enumerated.",
 [EL+"blocks/lists/item.rs", OH+"mod.rs"], [("recursive fold over nested lists", EL+"blocks/lists/item.rs")],
 ["ListItem::compute_todo_progress", "class attribute of <li>"])

prop("C05", "Tables keep every cell at its row and column with its kind",
 "Every cell of a table line is found at its row and column as content, a span from the left or from above, or a column alignment; a row is the divider exactly when all of its cells are alignments. The number of rows and columns, header and body rows, the column alignment and centering follow from those cells, and a block whose rows are all dividers is no table.",
 ["inputs"], "all tables of up to 3x3 (ragged rows included) over every kind of cell, with indentation and padding variants",
 "The tests contain a dozen fixed tables; ragged rows, misplaced dividers and partial alignments are combinations.",
 [PB+"tables.rs", EL+"blocks/tables.rs"], [("row parsers and cell positions", PB+"tables.rs"), ("cell map with row/column counts", EL+"blocks/tables.rs")],
 ["Table accessors on a parsed table"])

prop("C06", "Walking a table visits each of its cells once, with spans and counts that agree",
 "The rows, columns and cells iterators of any table, borrowed or owning, yield exactly the cells that exist, once each, in row-major (or row, or column) order with their positions, whatever cells are missing. Remaining-length hints never claim fewer or more than what is left for a full table and never panic. The row and column span of a content cell is one plus the number of span cells directly following it, and zero for anything else.",
 ["inputs", "histories"], "all tables over a 3x3 grid with every subset of present cells, and every sequence of iterator calls",
 "Tests iterate over complete rectangular tables only.",
 [EL+"blocks/tables.rs"], [("iterators over the cell map", EL+"blocks/tables.rs")],
 ["Table::cells/into_cells/rows/row/columns/column", "get_cell_rowspan/get_cell_colspan"])

prop("C07", "Code and math blocks hold their lines verbatim",
 "A closed code or math block holds exactly the lines between its opening and closing line, in order and character for character, except that the common block indentation is removed from each line. Its language, properties or environment are those of the opening line, nothing inside it is interpreted as other markup, and a fence that is never closed opens no block.",
 ["inputs"], "all sequences of fence, content, blank and markup-looking lines with varied indentation, at top level and inside list items",
 "Tests cover one example per feature; content that looks like markup or like a fence, and indentation differences, are combinations.",
 [PB+"code.rs", PB+"math.rs"], [("fence parsers with indentation removal", PB+"code.rs")],
 ["CodeBlock/MathBlock of a parsed page"])

prop("C08", "Definition lists group each term with its own definitions",
 "A definition list groups every definition with the term before it, in order, whether the definition is on the term's line or on a following line, and terms without definitions stay terms. Looking a term up yields exactly the definitions of the first term with that text, and a text that is no term yields none.",
 ["inputs"], "all sequences of term, term-with-definition, definition and other lines",
 "Tests use a few fixed lists.",
 [PB+"definitions.rs", EL+"blocks/definitions.rs"], [("term and definition parsers", PB+"definitions.rs")],
 ["DefinitionList accessors"])

prop("C09", "Inline markup nests and takes precedence as documented",
 "Text of a line is split into comments, math, code, tags, links, bold/italic/strikeout/super-/subscript (nesting included), keywords and plain text, each delimiter being markup only when it is properly closed and plain text otherwise. Comments win over everything, the content of code, math and comments is never interpreted, and concatenating the pieces gives back the line's text: nothing is lost, duplicated or reordered.",
 ["inputs"], "all token sequences over the inline delimiters, words, spaces and multi-byte text up to a bounded length, in paragraphs, headers, cells and items",
 "Tests try each construct alone; unclosed, crossed and adjacent delimiters are exponentially many.",
 [PB+"inline/mod.rs", PB+"inline/typefaces.rs", PB+"inline/code.rs", PB+"inline/math.rs", PB+"inline/tags.rs", PB+"inline/comments.rs"],
 [("ordered choice of inline parsers with backtracking", PB+"inline/mod.rs")],
 ["inline elements of a parsed page"])

prop("C10", "Links keep their kind, target, anchor, description and properties",
 "Every link written in a page is read with the kind its markup states (wiki, numbered or named interwiki, diary, raw, transclusion), the target and anchor as written (percent-decoding back to the written text, up to the normalisation of URIs), its description or embedded transclusion and its properties. A malformed link (unknown date, missing target, unclosed bracket) is not read as that kind of link.",
 ["inputs"], "all combinations of link kind, path shape, anchors, description and properties, and their malformed variants",
 "Tests hold one example per feature; combinations and special characters are not enumerated.",
 [PB+"inline/links/mod.rs", PB+"inline/links/wiki.rs", PB+"inline/links/interwiki.rs", PB+"inline/links/diary.rs", PB+"inline/links/transclusion.rs", PB+"inline/links/raw.rs", EL+"blocks/inline/links/data.rs"],
 [("link parsers", PB+"inline/links/mod.rs")], ["Link of a parsed page"])

prop("C11", "Every element knows exactly where it is in the source",
 "The region of every block, list item, term, definition, table cell and inline element (offset, length, nesting depth) delimits in the source text exactly the markup the element was read from, never splits a character, lies inside its parent's region, and does not overlap or precede its earlier siblings. The depth of an element is its parent's plus one. Neither multi-byte characters nor CRLF line ends shift it.",
 ["inputs"], "all documents generated by the block, list, table and inline specifications",
 "Tests check a few regions; offsets through nested re-parsing of trimmed or joined text depend on every combination.",
 [CORE+"parsers/span.rs", EL+"utils/region.rs", EL+"utils/mod.rs", CORE+"parsers/utils/convert.rs"],
 [("span offsets carried through nested parsers", CORE+"parsers/span.rs")], ["Located::region of every element"])

prop("C12", "Anchors in generated HTML are distinct and follow the header hierarchy",
 "Every header, bold text and tag of a page gets an anchor named after its text, and repeats of the same text get distinct numbered anchors, so that no two anchors are alike unless a text itself ends in a number after a dash. A header below other headers additionally gets an anchor made of the texts of the latest headers of each higher level, and its own link points to it. The first-level table-of-contents header is marked as such and gets only its own anchor.",
 ["inputs", "histories"], "all sequences of headers of several levels, bold texts and tags with repeated and colliding texts",
 "Tests render up to three headers; the state (ids used, last headers) depends on the whole history of the page.",
 [OH+"formatter.rs", OH+"mod.rs"], [("id cache and last seen headers", OH+"formatter.rs")],
 ["id/href attributes of the rendered HTML"],
 [dict(name="id_cache", meaning="ids handed out and repeat counts", where=OH+"formatter.rs"), dict(name="last_seen_headers", meaning="latest header text per level", where=OH+"formatter.rs")])

prop("C13", "Generated HTML mirrors the page and never lets text become markup",
 "Rendering a page yields well-nested HTML whose elements mirror the page: blocks in order, ordered and unordered lists with their items, table header and body with spans, definition terms, code with its language, quotes, emphasis, links and images. Text of the page appears in it escaped, so that no `<`, `>`, `&` or quote in text, code, math, descriptions or attribute values becomes markup (the target of a link is a URI reference and is written as one). Comments are left out unless asked for, and line breaks follow the configuration.",
 ["inputs", "configurations"], "all documents generated by the specifications, with HTML-special characters in every text position, over the rendering options",
 "Tests compare small outputs; escaping must hold in every position and every combination of nesting.",
 [OH+"mod.rs", OH+"utils.rs"], [("Output<HtmlFormatter> implementations", OH+"mod.rs")], ["Page::to_html_string"])

prop("C14", "A page fills its template: title, date, paths, style and content, each once",
 "Rendering a full page substitutes into the selected template the page's title, its date, the path back to the wiki root, the page's path, the style sheet, the encoding and the content, and leaves the rest of the template, and what was put in, as it is. Title, date and template come from the page's placeholders, the last one of each winning, with the file's name and today's date as defaults. A named template is looked up in the template directory, with the configured extension unless the name has one, and its absence is an error.",
 ["inputs", "configurations", "histories"], "all sequences of placeholders and content, templates with every combination of variables, and page locations of several depths",
 "Tests use one template and one placeholder at a time.",
 [OH+"convert.rs", OH+"mod.rs", OH+"config.rs"], [("template substitution", OH+"convert.rs")], ["Page::to_html_page"])

prop("C15", "Links resolve to the right relative target from wherever the page is",
 "The target written for a link, followed from the output location of the page that holds it, is the output location of the page (or file) the link names: relative to the linking page, or to the wiki root for absolute paths, in the numbered or named wiki for interwiki links, and in the diary for diary links. Directories lead to their index page, wiki links to a page with the html extension, transclusions keep theirs, anchors and external targets are kept. An interwiki link to an unknown wiki is reported as an error.",
 ["inputs", "configurations"], "all pairs of page location and link path of depth 0-3 (with `.` and `..`), all kinds of link, several wikis",
 "Tests fix one page and one target each; relative paths depend on both locations and the wiki layout.",
 [OH+"utils.rs", OH+"config.rs", OH+"mod.rs"], [("output paths made relative", OH+"utils.rs")], ["href/src attributes of the rendered HTML", "resolve_link"])

prop("C16", "Output files stay under the output directory at the mirrored place",
 "The output file of a page lies under its wiki's output directory at the page's path relative to the wiki with the extension replaced, for relative and absolute inputs alike, as long as the input does not step out of the wiki. A page belongs to the innermost configured wiki containing it (alone in its directory when there is none), a wiki name means the first wiki of that name, and the path from a page back to its wiki root has one step per directory. Configured paths are accepted only when absolute after the shell's ~ and variables are replaced, and are normalised.",
 ["inputs", "configurations"], "all paths up to depth 4 over names, `.` and `..`, with nested, sibling and prefix-named wikis",
 "Tests use a couple of paths each.",
 [OH+"config.rs", OH+"utils.rs"], [("output path computation", OH+"config.rs")], ["HtmlWikiConfig/HtmlConfig path functions"])

prop("C17", "Formatting a page keeps its meaning and is stable",
 "Rendering a parsed page back as vimwiki text lays every element out as the formatting options say (padding, trimming, indentation, blank lines, checkbox characters). With the default layout, whatever the indentation unit, parsing that text again gives an equal page (same blocks, items, cells, inline elements, links and texts up to blanks around them), and formatting it again changes nothing. The items of a list are written with the number, letters or roman number of their place.",
 ["inputs", "configurations"], "all documents generated by the specifications over five sets of formatting options, and lists of up to 1000 items",
 "Tests compare formatted output of single hand-made elements; they never parse it again.",
 [OV+"mod.rs", OV+"formatter.rs", OV+"config.rs"], [("Output<VimwikiFormatter> implementations", OV+"mod.rs")], ["Page::to_vimwiki_string"])

prop("C18", "Copies, owned and borrowed forms and JSON of a page are the page",
 "Cloning, borrowing, taking ownership and a JSON round trip, in any sequence, preserve a page with all regions. Plain equality ignores regions and strict equality does not; both are symmetric and tell any two pages of different content apart, where plain equality takes terms and definitions by the text they show.",
 ["inputs", "histories"], "all documents generated by the specifications and all sequences of conversions up to length 3",
 "Tests round-trip no JSON and borrow only single elements.",
 [EL+"mod.rs", EL+"blocks/mod.rs", EL+"utils/mod.rs", CORE+"mod.rs"], [("to_borrowed/into_owned/StrictEq/serde of every element", EL+"blocks/mod.rs")],
 ["Page and its conversions"])

prop("C19", "Compile-time vimwiki macros give the page that parsing gives",
 "An element produced at compile time by the quoting macros from a literal is strictly equal to the one obtained by parsing at run time the text of that literal, regions included: its lines from the first to the last that is not blank, without the indentation they share (which the raw macros keep). The formatting macros give the same element with the arguments put in the place of the braces in its texts.",
 ["programs", "inputs"], "programs invoking the macro on documents generated by the specifications",
 "Tests invoke the macros on about one fixed text per element type.",
 ["vimwiki_macros/src/lib.rs", "vimwiki_macros/src/tokens/mod.rs"], [("tokenisation of every element", "vimwiki_macros/src/tokens/mod.rs")], ["vimwiki! output"])

prop("C20", "The conversion cache never changes what is produced",
 "Whatever happened before (earlier runs, edits, renames and deletions of pages, pruning, damaged, half-written or missing cache files, runs killed or out of room, runs without cache), converting a wiki produces for each page the output of its current text. After a run the cache holds an entry for every current text, a damaged one replaced, and, when pruning is on, no other file; without caching the cache directory is neither read nor written.",
 ["histories", "crash_points", "fault_sequences"], "all histories of edits, runs, prunes, corruption and truncation of cache files over two pages and their texts, longer ones sampled",
 "No test runs the tool twice on one cache directory.",
 ["vimwiki-cli/src/ast.rs", "vimwiki-cli/src/subcommand/convert.rs"], [("cache keyed by content checksum", "vimwiki-cli/src/ast.rs")],
 ["output files and cache directory after vimwiki convert"],
 [dict(name="cache directory", meaning="one JSON page per content checksum", where="vimwiki-cli/src/ast.rs")])

prop("C21", "Convert processes exactly the selected pages and writes each to its place",
 "Without paths, converting writes for every page file (by the extension of the wiki) of every selected wiki (all, or those included by number or name) one HTML file at its output place, rendered in the innermost wiki the file lies in; given paths (files or directories, with the default extension), it writes those instead, each path being a temporary wiki. It touches no other file but the style sheet when asked for it, and prints the pages instead of writing them when asked to. A missing path gives a failing exit status and nothing is written.",
 ["inputs", "configurations"], "all wiki layouts over two or three wikis (nested included), include filters, extra paths and extensions",
 "No test runs the convert command.",
 ["vimwiki-cli/src/subcommand/convert.rs", "vimwiki-cli/src/ast.rs", "vimwiki-cli/src/utils.rs", "vimwiki-cli/src/opt.rs"], [("directory walk with extension filter", "vimwiki-cli/src/subcommand/convert.rs")],
 ["file system after vimwiki convert"])

prop("C22", "Format and inspect commands touch exactly what they are asked to",
 "The format command rewrites in place, when asked to, exactly the given files and the files of the given directories with a selected extension, each with its formatted text, and otherwise prints those texts and changes no file; a missing path gives a failing exit status. The inspect command prints, or writes to the given file, the values its query selects from the parsed selected wikis (number, name, path and the page of every page file), and changes no page.",
 ["inputs", "configurations", "histories"], "all layouts of files and directories with several extensions, option combinations, and repeated runs",
 "No test runs these commands.",
 ["vimwiki-cli/src/subcommand/format.rs", "vimwiki-cli/src/subcommand/inspect.rs"], [("path walk", "vimwiki-cli/src/subcommand/format.rs")],
 ["file system and standard output"])

prop("C23", "Walking a page meets every element once, in the order of the text",
 "Taking the children of a page, and of their children in turn, meets every block, item, term, definition, cell content and inline element of the page exactly once, parents before their children and siblings in the order of the text. Every element met on the way, whatever its level, survives borrowing, taking ownership and a JSON round trip unchanged.",
 ["inputs"], "all documents generated by the block, list, table, definition and inline specifications",
 "Tests walk one hand-made element per type; the order and completeness over nested elements of every kind are not checked together.",
 [EL+"mod.rs", EL+"blocks/mod.rs", EL+"blocks/tables.rs", EL+"blocks/definitions.rs", EL+"blocks/lists/mod.rs", EL+"blocks/inline/mod.rs"],
 [("IntoChildren of every element", EL+"blocks/mod.rs")], ["Page::into_children, Element::into_children"])

prop("C24", "A piece of text parsed as one element is the element it is on its page",
 "Parsing the text that starts where a block of a page starts, with or without what follows it, as a block or as that kind of block gives the block of the page, placed relative to where the text starts, and a block's own source is a page of just this block. The same holds for the first item of a list, for the line of a paragraph, and for an inline element of it parsed from its start to the end of its line, as an inline element or as its own kind (unless it is text that would be tags at the start of a line). Parsing a text as any kind of element fails or returns and never panics, and nothing is parsed from a language without a parser.",
 ["inputs"], "all documents generated by the block, list, table, definition and inline specifications, and every element of them",
 "Tests parse one well-formed sample per kind of element and check only that it succeeds; agreement with the page and independence from what follows are not checked.",
 ["vimwiki-core/src/lang/mod.rs", "vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs", "vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/mod.rs"],
 [("FromLanguage of every element", "vimwiki-core/src/lang/mod.rs")], ["Language::parse::<Located<...>>()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
