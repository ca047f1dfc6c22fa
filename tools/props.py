# Source of properties.jsonl and MANIFEST.json: run `python3 tools/gen.py`.
CORE = "vimwiki-core/src/lang/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, state=state))

BMC = "bounded exhaustive exploration of the real parser over token sequences"
ALPH = "exhaustive within the stated token alphabets and depths; nothing is sampled; the oracle is independent of the implementation"

prop("P01", "Parsing is total and terminates on every text",
 "Parsing any UTF-8 text as a vimwiki page succeeds: it never panics, never reports an error and always terminates. Parsing the same text as any single element type (header, list, link, ...) returns either the element or an error, and never panics.",
 ["inputs"], "every document made of up to 3-8 tokens (by alphabet) of each language feature, and long repetitions of every construct",
 "The tests parse a few dozen well-formed snippets; panics come from byte offsets, unusual nesting and malformed marks, which only appear in combinations nobody writes down.",
 [CORE+"parsers/vimwiki/mod.rs", CORE+"parsers/span.rs", CORE+"parsers/utils/", CORE+"mod.rs"],
 ["page(): repeatedly parses a block element, falling back to paragraphs", "Span arithmetic on byte offsets", "Link::new_diary_link and other infallible constructors"],
 BMC, ALPH + "; also the deep repetition space")
prop("P02", "Element regions point at the source they were read from",
 "Every located element of a parsed page carries a region (byte offset and length) that lies inside the source, starts and ends on character boundaries, lies inside its parent's region, and does not overlap or precede its earlier siblings; the covered text is the text the element was read from. Nesting depth is 0 for blocks of the page and increases towards the inside.",
 ["inputs"], "every document of the token spaces, with LF, CRLF and multi-byte characters",
 "Unit tests compare elements with an equality that ignores regions, so wrong offsets pass; errors depend on line endings, prefixes and multi-byte text before the element.",
 [CORE+"elements/utils/", CORE+"parsers/utils/mod.rs", CORE+"parsers/span.rs"],
 ["capture()/locate()/deeper() in the parsers", "Region::new_at_depth"], BMC, ALPH)
prop("P03", "Parsing loses, duplicates and reorders no content",
 "Every word of a document appears exactly once, in document order, in the parsed page: as text, code, math, link target or description, tag, comment, placeholder, cell or attribute. Only markup characters and white space are left out, and segments after the properties of a transclusion link, which are documented as ignored.",
 ["inputs"], "every document of the token spaces, each word made unique",
 "A dropped or doubled word shows only when two constructs meet in one place; tests assert on the construct they aim at and not on its neighbours.",
 [CORE+"parsers/vimwiki/blocks/", CORE+"parsers/vimwiki/blocks/inline/"],
 ["inline_element_container alternatives and text()'s stop conditions", "list item, table, definition and fence parsers that consume lines"], BMC, ALPH)
prop("P04", "Formatting a page as vimwiki preserves its meaning",
 "Writing a parsed page as vimwiki text and parsing that text yields the same page: same elements, nesting, order, attributes and text (up to white space, and empty cells that complete a table's rows). This holds for every formatter configuration: indentation, padding, trimming and quoting style.",
 ["inputs", "configurations"], "every document of the token spaces whose paragraph lines have no surrounding white space, under seven configurations",
 "The formatter tests compare with expected strings per element; whether neighbouring elements, nesting and escapes survive needs all combinations.",
 [CORE+"output/vimwiki/mod.rs", CORE+"output/vimwiki/formatter.rs", CORE+"output/vimwiki/config.rs"],
 ["Output<VimwikiFormatter> of every element", "indentation and trimming in VimwikiFormatter"], BMC, ALPH)
prop("P05", "Formatting vimwiki text is idempotent",
 "Formatting an already formatted page changes nothing: the text written for a parsed page, parsed and written again, is byte for byte the same.",
 ["inputs"], "every document of the token spaces whose paragraph lines have no surrounding white space",
 "A formatter that keeps adding or removing padding or indentation is stable on the sample files and drifts on others.",
 [CORE+"output/vimwiki/mod.rs", CORE+"output/vimwiki/formatter.rs"],
 ["column width computation of tables", "list indentation and padding of items"], BMC, ALPH)
prop("P06", "Line endings do not change what is parsed",
 "A document written with CRLF line endings parses to a page equal to that of the same document with LF line endings.",
 ["inputs"], "every document of the token spaces, in both forms",
 "Tests use LF except for a few; every place that looks for the end of a line has to agree.",
 [CORE+"parsers/utils/line.rs", CORE+"parsers/utils/bytes.rs", CORE+"parsers/vimwiki/blocks/"],
 ["end_of_line_or_input, take_line_while, blank_line and direct memchr on '\\n'"], BMC, ALPH)
prop("P07", "A page survives JSON serialisation unchanged",
 "Serialising a parsed page to JSON succeeds, and reading it back yields a page with the same elements, text, attributes and regions that is strictly equal to the original.",
 ["inputs"], "every document of the token spaces, through a JSON string and through a JSON value",
 "There are no round trip tests; custom serialisers (tables, definition lists, uri references) fail only on particular content.",
 [CORE+"elements/", CORE+"elements/blocks/definitions.rs", CORE+"elements/blocks/tables.rs"],
 ["serde derives and serde(with) of tables, definition lists, uris", "the CLI's AST cache relies on it"], BMC, ALPH)
prop("P08", "Copies of a page equal the page; strictness is about location",
 "Cloning a page, turning it into an owned page and borrowing from it all yield pages with the same content and regions that compare strictly equal. Plain equality ignores where elements are located, strict equality does not.",
 ["inputs"], "every document of the token spaces",
 "to_borrowed/into_owned are written by hand per element; a field that is dropped or defaulted shows only for content that uses it.",
 [CORE+"elements/", CORE+"elements/utils/mod.rs"],
 ["to_borrowed()/into_owned() of each element", "StrictEq implementations"], BMC, ALPH)
HB = "bounded exhaustive exploration of the real HTML converter over token sequences"
HTML = "vimwiki-core/src/lang/output/html/"
GR = "exhaustive enumeration of documents from a grammar on the real parser, compared with a model of what they mean"
GN = "exhaustive within the stated sets and sizes; the oracle is generated with the document and independent of the parser"
prop("P09", "A page is the sequence of its blocks",
 "What a block means does not depend on the other blocks of the page: the page read from blocks written one after the other, apart by blank lines (or directly, where one ends by itself), is the sequence of the elements read from each of them alone, moved by where it begins. Headings and dividers between them change nothing either.",
 ["inputs"], "every sequence of up to two (three) of the complete blocks with four ways of separating them, and pages of up to 90 blocks",
 "Unit tests read one element at a time; state kept between blocks, and a block that takes too much or too little, show in sequences only.",
 [CORE+"parsers/vimwiki/mod.rs", CORE+"parsers/vimwiki/blocks/mod.rs", CORE+"parsers/utils/"],
 ["page() and block_element alternatives", "where lists, tables, quotes, definitions and paragraphs end"], BMC + ", compared with the parts parsed alone", "exhaustive over the stated blocks; the oracle is the composition of separately parsed parts")
prop("P10", "Headers, dividers and placeholders are read from lines as documented",
 "A line with one to six equals signs, text and the same number of equals signs is a header of that level, centered when indented; a line of four or more hyphens is a divider; a line of a percent sign, a known placeholder name (title, nohtml, template, date or another word) and its argument is a placeholder with that value. Lines that are none of these are text.",
 ["inputs"], "every line of up to 5 (6) tokens of marks, blanks and words, alone and among other lines",
 "The decision is on whole lines with unbalanced or doubled marks, which single examples do not reach.",
 [CORE+"parsers/vimwiki/blocks/headers.rs", CORE+"parsers/vimwiki/blocks/dividers.rs", CORE+"parsers/vimwiki/blocks/placeholders.rs"],
 ["header(), divider(), placeholder()"], GR, GN)
prop("P11", "Lists are read as the tree that their indentation draws",
 "Items with the same indentation make one list, deeper ones a sublist of the item above, with every kind of marker (-, *, #, 1. 1) a. a) A. A) i. i) I. I)) and the items' types, positions, todo states and contents (text over several lines, blocks and sublists); a blank line or a line with less indentation ends the list. Formatting writes the same list again, with as many items as it has.",
 ["inputs"], "every forest of up to 4 (5) items over the markers, todo states and contents, and lists of up to 100 items",
 "The tree depends on all items' indentations at once; tests have a handful of lists.",
 [CORE+"parsers/vimwiki/blocks/lists.rs", CORE+"elements/blocks/lists/"],
 ["list(), list_item(), list_item_tail()", "List::normalize, ListItemType::to_prefix"], GR, GN)
prop("P12", "Tables are read as the grid that is drawn",
 "Rows of cells between bars make a table with a cell at every row and column drawn (rows may be uneven), each with its content, as span from above or from the left, or with the alignment it states; the first row of alignments divides header from body, and its columns have its alignments. Row and column counts, lookups and row and column spans agree with what is drawn.",
 ["inputs"], "every grid of up to 3x3 or 1x4 cells (4x2) over ten kinds of cells, and tables of up to 64 rows and 33 columns",
 "Spans, uneven rows and alignment rows interact across the whole grid.",
 [CORE+"parsers/vimwiki/blocks/tables.rs", CORE+"elements/blocks/tables.rs"],
 ["table(), row(), cell()", "Table::new, get_cell, get_cell_rowspan/colspan, get_column_alignment, header_rows/body_rows"], GR, GN)
prop("P13", "Code, math and quote blocks keep their lines as they are",
 "A code block keeps its language, metadata and every line between its marks exactly, whatever they look like; a math block its environment and lines; a quote, with > or by indentation, its lines. What follows the closing mark is read as if nothing preceded it, and a block that is not closed is no block.",
 ["inputs"], "every block of up to 3 (4) lines over marks, look-alikes, blanks and multi-byte text, with all headers and line ends",
 "Verbatim lines that look like markup or like the closing mark are the unusual input.",
 [CORE+"parsers/vimwiki/blocks/code.rs", CORE+"parsers/vimwiki/blocks/math.rs", CORE+"parsers/vimwiki/blocks/blockquotes.rs"],
 ["code_block(), math_block(), blockquote()"], GR, GN)
prop("P14", "Inline markup means the same wherever text may be",
 "Typefaces (nested in one another), code, math, keywords, tags, links, comments and plain text are read as such, one after the other, in paragraphs, headers, list items, cells, terms and definitions; marks without partner or next to blanks are text. Each element is said to be exactly where it was written.",
 ["inputs"], "every sequence of up to two of 51 pieces with four separators in eight places, of three in paragraphs (everywhere), and lines of up to 400 pieces",
 "Each piece is tested alone; its neighbours and the element around it decide where it ends.",
 [CORE+"parsers/vimwiki/blocks/inline/"],
 ["inline_element_container and its stop conditions", "typefaces, code, math, tags, keywords, links, comments"], GR, GN)
prop("P16", "Definition lists keep terms with their definitions, in order",
 "Every term of a definition list is kept in the order written, with its definitions in order, whether they are on the term's line or on the lines below; a term can be looked up by its text. A definition list ends at a blank line or where a line is neither term nor definition.",
 ["inputs"], "every list of up to three (four) terms over their contents and definitions",
 "Order among several terms and definitions is not visible to equality in the tests, which have one or two.",
 [CORE+"parsers/vimwiki/blocks/definitions.rs", CORE+"elements/blocks/definitions.rs"],
 ["definition_list(), term_and_definitions()", "DefinitionList::get, terms, IntoChildren"], GR, GN)
prop("P17", "Converted pages are well-formed HTML that page text cannot break",
 "The HTML written for any page is well formed: every element is closed in order, attribute names and values are valid and quoted, each element appears where HTML allows it, and text of the page (in any construct: cells, links, properties, code, tags, comments, math) is escaped, so that it can neither open elements nor leave attributes or comments.",
 ["inputs", "configurations"], "every document of the token spaces and hostile text in some forty contexts, under three configurations",
 "Tests compare small expected strings; whether every construct escapes its text in every position can only be seen by putting hostile text everywhere.",
 [HTML+"mod.rs", HTML+"formatter.rs", HTML+"utils.rs"],
 ["Output<HtmlFormatter> of every element", "escape::escape_html and write_link"], HB, ALPH + "; the HTML is read by a strict reader written for this purpose")
prop("P18", "The HTML of a page has the structure its elements stand for",
 "Converting a page yields exactly the documented HTML for its elements, in order: headers by level, lists ordered or not with todo classes and nested lists, tables with head, body, row and column spans, definition lists, quotes, preformatted code with language and metadata, math, typefaces, keywords, tags, links and images with text and properties. Comments are written only where configured, and line breaks follow the configuration.",
 ["inputs", "configurations"], "every document of the token spaces under three configurations",
 "Expected strings in tests cover each element alone; spans, nesting and neighbours interact.",
 [HTML+"mod.rs", HTML+"config.rs"],
 ["Output<HtmlFormatter> of every element", "table span computation", "list item classes"], HB, ALPH + "; compared with a model of the documented conversion over the parsed page")
prop("P19", "HTML ids are unique and lead links to headers, tags and bold text",
 "Every header, tag and bold text of a page gets an id made from its text (lower case, white space as dashes) and, below other headers, one that also names its sections; ids are never given twice and repeated ones are numbered. A header's own link and any link of the page to a section such as [[#a]] or [[#a#b]] lead to ids that exist.",
 ["inputs"], "every sequence of up to 4 (5) headers of all levels, bold texts and tags with few names",
 "Uniqueness and the sections on top of a header depend on the whole history of headers before it.",
 [HTML+"formatter.rs", HTML+"mod.rs", HTML+"utils.rs"],
 ["HtmlFormatter::ensure_unique_id, build_complete_id, insert_header_text", "make_fragment in resolve_link"], "bounded exhaustive exploration of header histories on the real converter against a reference id model", "exhaustive within the stated alphabet and depth; titles that end in a number like a-1 are left out, since a test pins that they may collide",
 state=["header history", "id counters"])
prop("P24", "The same text always yields the same page, HTML and vimwiki text",
 "Parsing, converting to HTML, formatting as vimwiki and listing the children of a text depend on nothing but the text and the configuration: repeated in the same process, in another thread, with other hash seeds, the results are identical.",
 ["inputs", "schedules"], "every document of the token spaces, three times, and documents with many attributes, cells and terms",
 "A test that runs once cannot see an order that comes from a randomly seeded hash map.",
 [HTML+"mod.rs", CORE+"elements/blocks/tables.rs", CORE+"elements/blocks/definitions.rs", CORE+"output/vimwiki/mod.rs"],
 ["iteration over HashMap typed properties, metadata, cells and definitions"], "bounded exhaustive exploration over token sequences, repeated with differently seeded hash maps", ALPH + "; orders of up to 24 entries that agree three times by chance are not told apart")
prop("P20", "Links lead to the file that their target is converted to",
 "Resolved as a browser does from the output file of a page, the address written for a link is the output file of the page it names: relative to the page, to the wiki's root for a leading slash, index.html for a directory, in the other wiki for interwiki links by number or name, in the diary directory for diary links; file:, local: and transclusion links lead to the file itself and remote links stay as they are. Anchors lead to the id of the section they name, and links to a wiki that is not configured are reported as errors.",
 ["inputs", "configurations"], "every combination of six sites (wikis with spaces, nested, inside the output of others, without wikis), eight pages, some thirty targets and eight anchors, by every kind of link",
 "Tests try single links from flat pages of simple wikis; relative paths depend on where both ends are.",
 [HTML+"utils.rs", HTML+"config.rs", CORE+"elements/blocks/inline/links/"],
 ["resolve_link, make_relative_link, make_fragment", "HtmlWikiConfig::make_output_path"], "exhaustive enumeration of sites, pages and links on the real converter against a model of the web site", "exhaustive over the stated finite sets; oracle is an independent resolution of references as in RFC 3986")
prop("P21", "A template is filled with the page's values and nothing else",
 "The HTML page is the template with each variable (%title%, %date%, %root_path%, %wiki_path%, %css%, %encoding%, %content%) replaced, everywhere it occurs, by the page's value, and nothing within a value or elsewhere replaced. Title and date come from the page's last such placeholder or else from the file name and today's date; a %template placeholder selects a file of the template directory and a missing one is an error.",
 ["inputs", "configurations"], "every template of up to 3 (4) tokens with 17 pages in four places",
 "Replacement that meets variables inside of values, partial variables or repeated ones is not reached by the one sample template.",
 [HTML+"convert.rs", HTML+"formatter.rs", HTML+"config.rs"],
 ["to_html_page and fill_template", "Placeholder output, take_title/date/template"], "exhaustive enumeration of templates and pages on the real converter against a model of substitution", "exhaustive over the stated tokens and sets")
prop("P22", "A page belongs to the deepest wiki that contains it",
 "For any list of wikis, a page belongs to the deepest wiki whose directory contains it (by whole path components), wikis are found by index and, first match first, by name; the path within the wiki, the way back to its root and the output path in the wiki's HTML directory follow from it. A page outside of every wiki is the only page of a wiki at its own directory.",
 ["configurations"], "every list of up to three wikis over eight nested directories and four names, with sixteen paths",
 "Which wiki wins depends on order, nesting and common prefixes of several wikis at once.",
 [HTML+"config.rs"],
 ["find_wiki_index_by_path/name, path_within, path_to_root, make_output_path", "to_tmp_wiki, to_current_wiki"], "exhaustive enumeration of wiki lists on the real configuration against a model over path components", "exhaustive over the stated sets")
prop("P23", "Todo progress is the mean of the sub-items that have one",
 "The progress of a list item is the mean progress of the items of its sublists that have any, in whatever number of sublists, or else its own: 0, 25, 50, 75 or 100 % by its todo state, and none for rejected items and items without state. Todo states are read and written without loss.",
 ["inputs"], "every forest of up to 4 (5) items under every assignment of the seven states, two sublists per item, and up to 100 items",
 "Means over nested lists depend on which items are left out at each level.",
 [CORE+"elements/blocks/lists/item.rs", CORE+"parsers/vimwiki/blocks/lists.rs"],
 ["ListItem::compute_todo_progress", "todo status parser"], "exhaustive enumeration of item forests and states on the real parser against a model", "exhaustive up to the stated number of items")
CLI="vimwiki-cli/src/"
CB="exhaustive enumeration of executions of the real vimwiki binary (explicit-state over operation histories, fault injection by a preloaded shim) against a model of the file system and the core library as oracle for page contents"
CN="exhaustive within the stated sets; every run is the real binary as an unprivileged user in a scratch directory"
prop("P26", "The cache never changes what a run produces",
 "Whatever has happened before (edits and deletions of pages, runs with or without cache and pruning, damaged, foreign or stray files in the cache directory), a run of convert or inspect yields what a run without cache yields. After a run the cache holds the current pages, and only these unless told not to prune; a run with --no-cache leaves it untouched, and pages are only ever read.",
 ["inputs", "histories"], "every history of up to 3 (5) operations out of 12, from several starts",
 "A stale, shared or damaged cache entry shows only in a later run of a particular history of edits and runs.",
 [CLI+"ast.rs", CLI+"lib.rs"],
 ["load_wiki_file (checksum, cache lookup and update)", "load_ast (pruning)"], CB, CN, state=["cache directory", "pages"])
prop("P27", "An interrupted or failing run leaves nothing wrong behind",
 "Wherever a run of convert or inspect is cut off (between or within its writes, or with a cache entry left torn or zero-filled) or one of its operations fails, pages stay as they are and the next run produces exactly what it would have produced anyway, with a sound cache. A run that reports success despite a failing write has produced its output in full, and short or interrupted writes are carried on with.",
 ["crash points", "faults", "histories"], "every mutating operation of every command from three states of the cache, as crash point before, within or after, failing, short or interrupted; every torn length of every cache entry",
 "Tests never end the tool in the middle; a torn cache entry that is trusted would show wrong pages from then on.",
 [CLI+"ast.rs", CLI+"subcommand/convert.rs", CLI+"subcommand/inspect.rs"],
 ["load_wiki_file (corrupt entries are removed, written through BufWriter)", "process_file", "inspect output"], "exhaustive enumeration of crash points, torn writes and faults on the real binary (preloaded shim that counts operations), followed by a recovery run compared with the reference", CN+"; operations are not reordered by a crash", state=["cache directory", "output directory"])
prop("P28", "Formatting rewrites exactly the files it is asked to",
 "vimwiki format writes, for each file named and each file with a chosen extension below each directory named, the text that the library formats the page to under the configuration: to the file itself with -i, else to standard output. No other file changes, and a path that is missing or a file that cannot be read ends the run with a failure and without damage to any file.",
 ["inputs", "configurations"], "every combination of texts, paths, extensions, configurations and destinations stated",
 "The tests of the tool cover loading of files only; no test runs the command.",
 [CLI+"subcommand/format.rs", CLI+"utils.rs"],
 ["format(), process_file", "load_format_config"], CB, CN)
prop("P29", "Convert writes every page once, where it belongs, and nothing else",
 "vimwiki convert writes for every page of every wiki (by the wiki's extension, at any depth, nested wikis each with their own pages) and every standalone page named exactly the library's HTML page to its place in the HTML directory of the wiki it belongs to, the style sheet if asked for, and no other file besides the cache. With --stdout it prints these pages and writes no file; a missing path is a failure.",
 ["inputs", "configurations"], "every subset of up to 2 (5) of ten files in six layouts of wikis with eight ways to call it",
 "Which output a page gets depends on all the wikis at once (nesting, order, extension, common prefixes); no test runs the command.",
 [CLI+"subcommand/convert.rs", CLI+"utils.rs", CLI+"ast.rs", HTML+"config.rs"],
 ["convert(), process_path, process_file", "load_html_config, load_file"], CB, CN)
prop("P30", "Include selects wikis by index and name and renumbers nothing",
 "With --include only the wikis whose index or name is among the values are loaded, converted and inspected; without it all are. Wikis keep their index, name and path, so that links between wikis resolve as without the filter, and inspect yields the selected part of the data, whole and in order, on standard output or in the file named.",
 ["configurations"], "every set of up to 3 (8) of eight include values for four namings of three wikis and four commands",
 "Filtering twice or by position within the filtered list goes wrong only for particular sets of indexes.",
 [CLI+"ast.rs", CLI+"utils.rs", CLI+"opt.rs", CLI+"subcommand/inspect.rs"],
 ["load_ast filter", "CommonOpt::filter_by_wiki_idx_and_name", "IndexOrName", "inspect()"], CB, CN)
MB="exhaustive enumeration of invocations of the real macros (one generated call per case, compiled and run) compared with parsing at run time"
MN="exhaustive within the stated token depths; parsing at run time is the oracle and is itself checked by P01 to P16"
prop("P31", "Macros yield at compile time what parsing yields at run time",
 "For every text and element type, a vimwiki macro compiles exactly if the text parses as that element at run time, and then yields the same element, down to every nested element, property and region. The text is the value of the literal (raw, escaped or byte string) without blank lines at its ends and, unless the macro is a raw one, without the smallest indentation of its lines that are not blank.",
 ["inputs"], "every page of up to 2 (4) of 16 tokens, every element macro with sixty texts, every sequence of up to 3 (4) indented lines",
 "The tests call each macro once or twice; each field of every element must be written out again as Rust code.",
 ["vimwiki_macros/src/lib.rs", "vimwiki_macros/src/utils.rs", "vimwiki_macros/src/tokens/"],
 ["impl_macro!, input_to_string", "Tokenize for every element, Located and Region"], MB, MN)
prop("P32", "Format macros fill in arguments as format! does",
 "A vimwiki format macro yields the element parsed from its text with every string of the element passed through format! with the arguments: by name, by number or in the order of the text, with format specifications and doubled braces. A text whose argument is missing or whose braces do not match does not compile.",
 ["inputs"], "every page of up to 2 (3) of 19 tokens with arguments, sequences of up to 3 (4) positional ones, up to 13 arguments in a row, pairs of similar names, widths and precisions that are arguments, wrong ones, and every element macro",
 "Arguments are renumbered per string; which ones a string uses, repeats or skips multiplies with the elements around it.",
 ["vimwiki_macros/src/formatter.rs", "vimwiki_macros/src/args.rs", "vimwiki_macros/src/tokens/primitives.rs"],
 ["Formatter::quote_format_str", "FormatArgs::parse", "tokenize_cow_str"], MB, MN+"; {} within lists, tables and definition lists is documented as unsupported")
PB="exhaustive exploration of all states of the real objects"
prop("P33", "Elements are equal exactly if they say the same",
 "strict_eq of pages and elements holds exactly if they agree in every field, nested element and region, and == exactly if they agree in everything but regions. Elements that are equal have equal hashes, and equality is symmetric.",
 ["inputs"], "every pair of a list of documents in which for every field of every element two differ in it alone, and every pair of values of each type without a place of its own",
 "Equality is written by hand for many elements; the tests compare pages that are equal or differ grossly.",
 [CORE+"elements/mod.rs", CORE+"elements/blocks/", CORE+"elements/blocks/inline/links/mod.rs", CORE+"elements/utils/"],
 ["StrictEq, PartialEq and Hash of every element", "LinkData::eq"], PB+": all pairs of documents, compared with a field by field comparison", ALPH)
prop("P34", "Tables and their iterators yield exactly the cells they hold",
 "For every table, the numbers of rows and columns, get and get_cell, row and column access, header and body rows, columns and cells (borrowed or consumed) yield exactly the cells of the map, in order and where they are; iterators report exact remaining lengths at each step and stay ended. A row or column is said to have content, and spans are computed, just as the cells say. A position of a cell is read from its text (two numbers with a comma between) and from no other.",
 ["inputs", "histories"], "every grid up to 3x3 of five cell kinds (3x4 and 4x3 of fewer), every state of every iterator",
 "What an iterator reports in its middle, on sparse grids or after its end is not reached by tests of a full table.",
 [CORE+"elements/blocks/tables.rs"],
 ["Table and its Rows, Columns, Cells, HeaderRows, BodyRows, CellIter and into_ iterators", "get_cell_rowspan, get_cell_colspan, has_content"], PB+": every table within bounds, every iterator driven through all of its states against a model grid", "exhaustive within the stated grids; nothing is sampled", state=["iterator position", "cells"])
prop("P35", "Walking the children of elements reaches each of them once",
 "into_children of a page or element yields each of its nested elements exactly once, in document order and with its region; the slices and mutable slices of list items, contents, definitions and containers hold the same elements. Taking an element apart, or making it owned or borrowed, changes nothing in it.",
 ["inputs"], "every document of the token spaces",
 "Each element has its own hand-written traversal; tests walk one level of a few.",
 [CORE+"elements/mod.rs", CORE+"elements/blocks/", CORE+"elements/mod.rs"],
 ["IntoChildren, AsChildrenSlice, AsChildrenMutSlice", "into_owned and to_borrowed of every element"], "bounded exhaustive exploration over token sequences against a model of the element tree", ALPH)
prop("P36", "The formatter's options mean what they say in any combination",
 "Written under any combination of the formatter's options (indented blockquotes, trimming, padding, terms on their own lines, separated blocks, indentation, todo characters and so on) a page is exactly the documented text: each option affects its own elements alone and the columns of tables line up.",
 ["configurations", "inputs"], "all 4096 combinations of twelve switches with several indentations and todo characters, on every pair of some eighty documents",
 "Tests set one option at a time on one element.",
 [CORE+"output/vimwiki/mod.rs", CORE+"output/vimwiki/config.rs", CORE+"output/vimwiki/formatter.rs"],
 ["Output<VimwikiFormatter> of every element", "VimwikiConfig", "and_trim, indentation"], "exhaustive enumeration of all configurations on the real formatter against a reference formatter", "exhaustive over the stated switches, values and pages; an empty line of an indented blockquote has no written form and is left out")
prop("P37", "Items of ordered lists are numbered correctly at any position",
 "The marker written for the item at any position of an ordered list is that position's numeral in the list's notation (numbers, letters counted a to z, aa and on, or roman numerals) with its suffix, and is read back as the item it was written for.",
 ["inputs"], "every notation and suffix with positions 0 to 70 000 and around the bounds of number types",
 "Tests number the first few items.",
 [CORE+"elements/blocks/lists/item.rs", CORE+"parsers/vimwiki/blocks/lists.rs"],
 ["ListItem::to_prefix, pos_to_alphabet, pos_to_roman", "list item prefix parsers"], "exhaustive enumeration of positions on the real code against independent numerals", "exhaustive over the stated positions")
prop("P25", "A configuration file sets what it names and nothing else",
 "From a configuration file, in TOML or JSON, every setting that it names has the value given (paths of wikis with ~ and variables expanded and without . and ..), and every other one has its default, whether the setting or its whole section is missing. A value of the wrong kind or a relative path of a wiki is an error, and a configuration written out reads back the same.",
 ["configurations"], "every subset of the settings for HTML and for vimwiki text, every list of up to two wikis over all subsets of their settings, every wrong value",
 "Each setting has its own default function; the tests build configurations in code and read none.",
 [HTML+"config.rs", HTML+"utils.rs", CORE+"output/vimwiki/config.rs"],
 ["Deserialize of HtmlConfig, HtmlWikiConfig and VimwikiConfig", "deserialize_absolute_path, normalize_path"], "exhaustive enumeration of configuration files on the real deserialisers against a table of settings", "exhaustive over the subsets of the settings with two or more values each; the defaults are those of this version")
prop("P38", "Wikis come from vim, the configuration file and the paths, in that order",
 "The wikis of a run are those of the configuration file; those in vim come before them if it has none or with --merge, and are left out without harm if vim or a sound list is missing; then one for each path given. They are numbered in that order, for inspect, for --include and for links, and convert writes the pages of the paths given or else those of all wikis.",
 ["configurations"], "every combination of four configuration files, nine states of vim, --merge, eight sets of paths, four filters and three commands",
 "The order decides which wiki an index stands for; no test runs the tool with vim or with paths.",
 [CLI+"utils.rs", CLI+"lib.rs", CLI+"ast.rs", CLI+"subcommand/"],
 ["load_html_config, load_vimwiki_list", "convert() with and without paths"], CB, CN+"; neovim is a stand-in that prints the list")
prop("P15", "A link says exactly what its parts say",
 "For every link, its kind, wiki index or name or date, target (decoded), scheme, anchor parts, description (text or transclusion) and properties are exactly those written, and so are the answers of every accessor (local or remote, directory, path, anchor, description or fallback). A raw link is recognised by its scheme and ends where its URI ends; taken apart, copied or made by hand from the same parts a link is the same.",
 ["inputs"], "every combination of nine kinds, thirty-three targets, nine anchors, ten descriptions and six sets of properties; raw links of nine schemes, ten rests and twenty surroundings",
 "The tests vary one part of a link at a time; encoding, anchors and descriptions interact.",
 [CORE+"elements/blocks/inline/links/", CORE+"parsers/vimwiki/blocks/inline/links/"],
 ["link_data, link_uri_ref, link_description, link_properties", "LinkData and Link accessors, Anchor"], "exhaustive enumeration of links on the real parser against their parts", "exhaustive over the stated parts; characters that a URI cannot hold even encoded (such as braces) are left out")
prop("P39", "An element parsed by itself is the one on the page; errors say where",
 "Each element type's parser, given any text, yields an element whose region lies in the text, or an error whose message gives the line, the column and the text at which parsing failed, and never panics. An element's own text parsed as that element by itself gives the element that the page has, and markdown and mediawiki are refused as unsupported.",
 ["inputs"], "every text of the token spaces given to each of the element types, and each element of every page parsed again by itself",
 "The tests parse each element from one sound text; positions of errors are untested.",
 [CORE+"parsers/errors.rs", CORE+"parsers/vimwiki/mod.rs", CORE+"parsers/span.rs", CORE+"mod.rs"],
 ["ParseError, Display of errors", "Language::parse, FromLanguage", "Span line and column"], "bounded exhaustive exploration over token sequences of each element parser", ALPH)
prop("P40", "An element shows and converts by itself as it does within its page",
 "The vimwiki text and the HTML of a page are those of its elements one after another (but for ids), and those of inline content are those of its parts; they are the same through every wrapper of an element (located, owned, borrowed, Element, BlockElement). Displayed as text an element shows exactly its text: of links the description or else the target, of comments within content nothing.",
 ["inputs"], "every document of the token spaces and each of its elements at every depth",
 "The tests convert and display one element of most kinds on its own, and pages by a few samples.",
 [CORE+"output/html/mod.rs", CORE+"output/vimwiki/mod.rs", CORE+"output/vimwiki/formatter.rs", CORE+"elements/blocks/"],
 ["Display of every element", "Output of Page, Element, BlockElement, InlineElementContainer", "and_trim"], "bounded exhaustive exploration over token sequences: the whole against its parts and a model of displayed text", ALPH)
prop("P41", "Elements and regions answer truly what they are",
 "Of all accessors that ask an element for its kind exactly those of its own kind answer, with that very element, and elements made from their content are the same. A located element keeps its region and content through every conversion, and a region made from a range, pair or depth contains exactly the positions of it.",
 ["inputs"], "every element of every document of the token spaces; every region up to the stated size in every form",
 "Sixty accessors are written out by hand and most are called by no test.",
 [CORE+"elements/mod.rs", CORE+"elements/blocks/mod.rs", CORE+"elements/utils/"],
 ["BlockElement::as_*, as_mut_*, into_*, is_*", "Located::map, as_ref, transpose, take_with_region", "Region::from, contains"], "bounded exhaustive exploration over token sequences, exhaustive enumeration of regions", ALPH)

WASM = "vimwiki-wasm/src/elements.rs"
prop("P42", "The JavaScript binding shows the page that the library reads",
 "Whatever an object of the JavaScript binding answers (counts, elements at an index, casts, lines, dates, attributes, cells, properties, children and descendants, regions) is what the parsed page holds, and nothing beyond the last index. Its conversions to HTML, with or without a configuration object, and to JavaScript values are those of the library and never fail.",
 ["inputs"], "every document of the token spaces, every object reachable from it and every accessor of it",
 "The binding has no tests; it is two thousand lines of hand written casts.",
 [WASM, "vimwiki-wasm/src/lib.rs"],
 ["parse_vimwiki_str, Page", "impl_convert!, impl_iter!, impl_region!", "into_* and is_* of every class"], "bounded exhaustive exploration over token sequences: the binding against the library",
 "The sources of the binding are compiled for the machine at hand against stand-ins for wasm-bindgen and js-sys (/verif/wasm), time zone UTC; the glue that wasm-bindgen generates is not run. " + ALPH)
prop("P43", "Elements made from JavaScript are what they were made from",
 "Every constructor of the JavaScript binding makes the element that the library makes from the same parts: its text, address, description, anchor, date (the day that was given), properties, cells and region are the given ones. An address that is none is refused with an error.",
 ["inputs"], "every combination of texts, addresses, descriptions, anchors, properties and regions of the lists, every day of two years, every table of up to 2 by 3 cells (3 by 3 when thorough)",
 "The binding has no tests.",
 [WASM, "vimwiki-wasm/src/utils.rs"],
 ["Link::new_*", "Table::new, Cell::new, Tags::new", "DecoratedText::new_*", "cast_value"], "exhaustive enumeration of constructor calls against the library",
 "The sources of the binding are compiled for the machine at hand against stand-ins for wasm-bindgen and js-sys (/verif/wasm), time zone UTC. No table row that is not an array is tried.")
