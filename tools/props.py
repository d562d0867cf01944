#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if "/" in f and f.split("/")[0] in ("asg", "sdd") else "parser/src/" + f for f in files],
            state=[dict(name=a, meaning=b, where="parser/src/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where=b if b.split("/")[0] in ("asg", "sdd") else "parser/src/" + b) for a, b in mech],
            observe_at=obs, hook_needed=None)))

p("C01", "Parsing is total: every text gives a document",
  "Parsing any UTF-8 text, with any attribute settings and any included text, ends and returns a document; it never panics, aborts, overflows an integer or loops forever. Malformed markup is reported as warnings, never as a failure.",
  ["inputs", "configurations"], "All input texts and parser configurations.",
  "Tests feed a few hundred chosen documents; a slice out of range, an underflow or a cursor that does not advance needs an odd juxtaposition (an unclosed fence at the end of the file, an empty attribute list before a heading, a markup character next to a multi-byte one) that nobody wrote a test for.",
  ["parser/parser.rs", "blocks/parse_utils.rs", "blocks/block.rs", "span/slice.rs", "content/macros.rs", "content/substitution_step.rs"],
  [("block loop consumes input on every turn", "blocks/parse_utils.rs"), ("spans sliced only at character boundaries", "span/slice.rs"), ("warnings instead of errors", "warnings.rs")],
  ["Parser::parse", "every public accessor of the returned document"])
p("C02", "Every reported source location is exact",
  "For every part of a parsed document that reports a source location (the document, header, title, author and revision lines, attribute entries, blocks, titles, anchors, attribute lists, contents, macro targets, warnings), the reported text is the slice of the preprocessed source at the reported byte offset, and the reported line and column (counted in characters, from 1) are those of that offset. The slice is the part in question: no more, no less.",
  ["inputs"], "All documents; all nodes of the result.",
  "Offsets, lines and columns are carried separately through every slicing step; tests compare them for single-byte text and one construct at a time, so an error in one of the three that needs multi-byte text, a CRLF or a combination of constructs does not show.",
  ["span/mod.rs", "span/slice.rs", "span/split.rs", "span/take.rs", "span/trim.rs", "span/line.rs", "span/primitives.rs"],
  [("recomputing line and column on every slice", "span/slice.rs"), ("remainder trimming", "span/trim.rs")],
  ["Span::{data,line,col,byte_offset}", "HasSpan::span on all nodes", "Warning::source"])
p("C03", "Blocks partition the body: nothing lost, nothing twice",
  "The spans of sibling blocks are disjoint and in document order, and the span of a block lies inside that of the block that contains it. Every non-blank line of the body belongs to exactly one innermost block (or is a block delimiter, block metadata line or comment attached to one), so no source text is dropped or parsed twice.",
  ["inputs"], "All documents with several blocks of any kinds, nested to any depth.",
  "Tests look at one block kind at a time; losing or duplicating lines happens where two constructs meet (an unclosed fence in a list of blocks, metadata with no block after it, a heading right after a paragraph).",
  ["blocks/parse_utils.rs", "blocks/block.rs", "blocks/simple.rs", "blocks/compound_delimited.rs", "blocks/section.rs", "blocks/preamble.rs"],
  [("parse_blocks_until hands each remainder to the next parse", "blocks/parse_utils.rs"), ("preamble split", "blocks/preamble.rs")],
  ["Document::nested_blocks", "IsBlock::{nested_blocks,span}"])
p("C04", "Delimited blocks end at their own closing delimiter only",
  "A delimited block (comment, example, listing, literal, sidebar, open, passthrough, quote/verse) starts at a delimiter line of at least four equal delimiter characters (two dashes for open) and ends at the next line identical to it, whatever lies between; verbatim, comment and passthrough content is kept literally and structural content is parsed as blocks of its own. When that line never comes, the block runs to the end of the enclosing region and exactly one unterminated-block warning points at it.",
  ["inputs"], "All sequences of delimiter lines of different kinds and lengths, text, blank and metadata lines.",
  "The number of ways fences of different kinds and lengths can nest, overlap or be left open grows exponentially with the lines; tests cover a dozen.",
  ["blocks/raw_delimited.rs", "blocks/compound_delimited.rs", "blocks/block.rs"],
  [("delimiter recognition", "blocks/raw_delimited.rs"), ("delimiter recognition", "blocks/compound_delimited.rs")],
  ["IsBlock::{resolved_context,content_model,nested_blocks,span}", "RawDelimitedBlock::content", "Document::warnings"])
p("C05", "Paragraph boundaries, literal paragraphs and comment lines",
  "A paragraph is a maximal run of adjacent non-blank lines, ended also by a line that opens another block, a block attribute line or the end of the enclosing region; comment lines inside it are dropped from its content. A paragraph whose first line is indented is literal: its content keeps the indentation relative to its least indented line and it gets verbatim substitutions; the paragraph styles listing, literal and source change its treatment and nothing else.",
  ["inputs"], "All sequences of lines from text, indented, blank, comment, delimiter, heading, attribute-list and macro-like lines.",
  "Whether a line continues a paragraph depends on the lines around it; the tests sample a few neighbours per kind.",
  ["blocks/simple.rs", "blocks/block.rs", "blocks/parse_utils.rs"],
  [("paragraph scanner", "blocks/simple.rs"), ("style dispatch", "blocks/simple.rs")],
  ["SimpleBlock::{content,style}", "IsBlock::{rendered_content,content_model}"])
p("C06", "Block title, anchor and attribute lines attach to the next block",
  "A block title line, a block anchor line and a block attribute line, in any order and any of them absent, apply to the block that follows them and to no other: its title, anchor with reference text, ID, roles, options and style are those lines' values. At most one title and one anchor line are taken; a repeated line of a kind already seen is the block's own content, never dropped. If no block follows, the lines are not lost silently: a missing-block warning points at them.",
  ["inputs"], "All sequences of metadata lines before every kind of block, at every nesting level.",
  "Order, repetition and the kind of the next block multiply; tests try single lines before a paragraph.",
  ["blocks/metadata.rs", "blocks/block.rs", "blocks/is_block.rs"],
  [("metadata scanner", "blocks/metadata.rs"), ("accessors fall back from attribute list to anchor", "blocks/is_block.rs")],
  ["IsBlock::{title,title_source,anchor,anchor_reftext,attrlist,id,roles,options,declared_style}"])
p("C07", "Sections nest by level and discrete headings do not",
  "A heading of level n in the body opens a section that holds everything up to the next heading of level n or less (or the end of the enclosing region), so sections nest exactly as their levels say. Discrete headings hold nothing and end nothing; a heading that skips levels, exceeds the maximum level or repeats level 0 is kept and gets exactly the matching warning at its line.",
  ["inputs"], "All sequences of headings of all levels (both marker styles), discrete headings, text and delimited blocks.",
  "Nesting is decided by recursion over look-ahead at peers; errors need three or more headings in a particular level order, and tests use a handful of orders.",
  ["blocks/section.rs", "blocks/parse_utils.rs", "blocks/block.rs"],
  [("peer or ancestor detection", "blocks/section.rs"), ("level warnings", "blocks/section.rs")],
  ["SectionBlock::level", "IsBlock::nested_blocks", "Document::warnings"])
p("C08", "Section numbers follow the outline",
  "With section numbering on, a non-discrete section of level 1 up to the configured depth gets the number formed from its position among the numbered siblings before it and its parent's number; appendices are numbered by letters in a sequence of their own, with the sections inside them numbered after that letter, and discrete headings take no number. Numbering can be switched on and off anywhere in the document, and only headings parsed while it is on consume numbers.",
  ["inputs", "histories"], "All outlines: sequences of headings, special-section styles and numbering switches.",
  "The counters are mutable parser state with resets at several places; a stale or missed reset shows only for particular orders of levels, appendices and switches.",
  ["blocks/section.rs", "parser/parser.rs"],
  [("counter per level", "parser/parser.rs"), ("number taken while parsing the heading", "blocks/section.rs")],
  ["SectionBlock::{section_number,section_type}"],
  [("section number", "current outline position", "parser/parser.rs"), ("appendix number", "outline position inside appendices", "parser/parser.rs")])
p("C09", "IDs are unique and every reference resolves to its block",
  "Every section without an explicit ID gets one derived from its title by the documented rule (prefix, separator, lower case, invalid characters removed) that differs from every ID registered before (the sections inside a section are registered before it); explicit IDs are kept as written. The catalog holds exactly the IDs of the document's blocks with their reference texts and types, finds an ID by reference text (first registration wins), and a duplicate explicit ID produces exactly one warning and leaves the first entry in place.",
  ["inputs", "histories"], "All sequences of headings, anchors and IDs whose derived or explicit IDs collide in any order, under all prefix and separator settings.",
  "Collisions depend on the order of registration over the whole document; tests have two or three collisions in one order.",
  ["document/catalog.rs", "blocks/section.rs", "blocks/block.rs", "parser/parser.rs"],
  [("unique ID generation", "document/catalog.rs"), ("reftext index", "document/catalog.rs")],
  ["Document::catalog", "Catalog::{get_ref,contains_id,resolve_id,len}", "IsBlock::id", "Document::warnings"],
  [("catalog", "IDs in use, first registration wins", "document/catalog.rs")])
p("C10", "The header is found, delimited and read in order",
  "The header is the leading run of a title line, an author line, a revision line, attribute entries and comment lines in their permitted order, ends at the first blank line or line that cannot belong to it, and everything after it is body. Without a title the header holds attribute entries and comments only; a header not followed by a blank line gets exactly one warning, and no header line is parsed again as body.",
  ["inputs"], "All sequences of header-like lines at the start of a document.",
  "Which role a line plays depends on the lines before it; tests use the canonical order.",
  ["document/header.rs", "document/document.rs", "document/attribute.rs"],
  [("header loop", "document/header.rs")],
  ["Document::header", "Header::{title,attributes,author_line,revision_line,comments,span}", "Document::warnings"])
p("C11", "Author lines give the documented names, emails and attributes",
  "An author line is split into authors at semicolons (followed by a space; one at the end of the line is dropped), each with first, middle and last name, email and initials as documented (underscores join words; an entry with more than three words, or one that does not parse otherwise, is the full name and the first name as a whole). The author attributes (author, firstname, middlename, lastname, email, authorinitials, and numbered ones from the second author on) hold exactly these values unless locked.",
  ["inputs"], "All author lines, including Unicode names, references to attributes and malformed emails.",
  "A regular expression with optional parts over Unicode text; tests hold some twenty lines.",
  ["document/author.rs", "document/author_line.rs", "document/header.rs"],
  [("author pattern", "document/author.rs"), ("attribute assignment", "document/author_line.rs")],
  ["Header::author_line", "AuthorLine::authors", "Parser::attribute_value"])
p("C12", "Revision lines give the documented number, date and remark",
  "A revision line is split into number, date and remark as documented: a leading v marks a number, a comma separates number and date, a colon starts the remark, and non-digit prefixes of the number are dropped; attribute references in them are resolved and special characters escaped. The attributes revnumber, revdate and revremark hold exactly these values unless locked.",
  ["inputs"], "All second lines after an author line.",
  "The forms overlap (which comma, which colon, digits or not) and tests hold one line per documented form.",
  ["document/revision_line.rs", "document/header.rs"],
  [("revision patterns", "document/revision_line.rs")],
  ["Header::revision_line", "Parser::attribute_value"])
p("C13", "Attribute precedence and locking",
  "A document attribute can be changed in the header, in the body, or only by the API exactly as its modification context says; a blocked change leaves value and restrictions alone and is reported as locked (assignments implied by the author and revision lines are blocked silently). An allowed change takes effect from that point on and never alters where the attribute may be changed later.",
  ["histories", "configurations"], "All sequences of API settings, header entries, implied values and body entries for an attribute, with every modification context.",
  "It is a property of histories of assignments from three sources under four contexts; tests do one assignment.",
  ["parser/parser.rs", "parser/attribute_value.rs", "parser/built_in_attrs.rs", "document/attribute.rs", "document/header.rs"],
  [("modification context check", "parser/parser.rs")],
  ["Parser::{attribute_value,has_attribute,is_attribute_set}", "Document::warnings"],
  [("attribute values", "current value and modification context per name", "parser/parser.rs")])
p("C14", "Attribute entries and references act in document order",
  "An attribute entry sets (possibly over several continued lines), or unsets, the named attribute to the value written (set off from the name by a space or tab), with special characters escaped and references resolved at that point, or with the substitutions named by an inline pass macro around the whole value (passthroughs elsewhere in it are plain text), from that line on. A reference in text is replaced by the value in force where it stands, names are matched without regard to case, an escaped reference loses its backslash and is kept literally, and a reference to an unknown attribute is kept as it is.",
  ["inputs", "histories"], "All sequences of attribute entries (set, unset, continued, malformed) and references in titles, text, attribute lists, targets and other entries.",
  "The value in force depends on everything before; tests define one attribute and use it once.",
  ["document/attribute.rs", "content/substitution_step.rs", "parser/parser.rs"],
  [("attribute entry parser", "document/attribute.rs"), ("attribute reference step", "content/substitution_step.rs")],
  ["IsBlock::{rendered_content,title}", "Attribute::value", "Parser::attribute_value"])
p("C15", "Includes are flattened exactly",
  "Before anything else is parsed, each line that is an include directive is replaced by the text the include handler supplies for its target (attribute references in it resolved with the values in force there), recursively up to a fixed depth, the handler being told the including file and the attribute list. A directive without an answer leaves the documented line `Unresolved directive in <file> - <directive>`; no other line is changed but for its line end (an escaped directive loses its backslash and is not followed). A document with includes parses exactly like its flattened text.",
  ["inputs", "configurations", "histories"], "All include graphs (including cycles and missing files) and all placements of directives and attribute entries.",
  "Nesting, missing files, relative names and attributes defined on the way multiply; tests include one file at one place.",
  ["parser/preprocessor.rs", "parser/include_file_handler.rs"],
  [("preprocessor line loop", "parser/preprocessor.rs"), ("depth limit", "parser/preprocessor.rs")],
  ["Document::span", "IncludeFileHandler::resolve_target calls"])
p("C16", "The source map names the true file and line of every line",
  "For every line of the flattened text the source map gives the file it came from and its line number in that file, also after returning from an include, for nested includes, unresolved includes, and files with or without a final newline.",
  ["inputs", "configurations"], "All include graphs and placements of directives; every line.",
  "The map is incremental and sparse; off-by-one errors appear only after particular include shapes that tests do not combine.",
  ["parser/source_map.rs", "parser/preprocessor.rs"],
  [("append and lookup", "parser/source_map.rs")],
  ["Document::source_map", "SourceMap::original_file_and_line"])
p("C17", "Attribute lists are split and interpreted as written",
  "An attribute list yields its positional and named attributes in source order with exactly their values (quoted values may contain commas, equals signs, escaped quotes and spaces), and ID, roles, options and style come from the shorthand of the first positional attribute and from the named forms together. Defects in it (missing comma, empty value, bad shorthand, unterminated quote) each give their warning at the place and do not disturb the other attributes. Looking an attribute up by name finds the first of that name, by number the positional one of that number, and by name or number the former if there is one.",
  ["inputs"], "All attribute lists.",
  "A small language with quoting, escapes and shorthand; tests hold some tens of strings.",
  ["attributes/attrlist.rs", "attributes/element_attribute.rs"],
  [("attribute list parser", "attributes/attrlist.rs"), ("shorthand parser", "attributes/element_attribute.rs")],
  ["Attrlist::{attributes,id,roles,options,named_attribute,nth_attribute,named_or_positional_attribute}", "Document::warnings"])
p("C18", "Special characters are escaped exactly once",
  "In text under normal or verbatim substitutions each <, > and & of the source reaches the renderer as a special character exactly once, and appears in the HTML as its entity exactly once; passthrough text is not escaped unless asked. Thus a < of the source never appears as such in the default HTML outside of passthroughs.",
  ["inputs"], "All texts combining special characters with every other inline markup.",
  "Later substitutions re-scan already escaped text; an interaction that escapes twice or not at all needs particular neighbours.",
  ["content/substitution_step.rs", "parser/inline_substitution_renderer.rs", "content/passthroughs.rs"],
  [("special character step", "content/substitution_step.rs")],
  ["IsBlock::rendered_content"])
p("C19", "Inline formatting applies to exactly the marked text",
  "Constrained marks (*, _, `, #, curved quotes) format text only between non-word boundaries and unconstrained pairs anywhere, ^ and ~ raise and lower unbroken text, an attribute list directly before a mark supplies its ID and roles, and a backslash before a mark disables it and is removed. Everything else is left as it was.",
  ["inputs"], "All strings over the mark characters, word characters, spaces, line ends, punctuation and non-ASCII letters.",
  "Emulated look-ahead and look-behind on several regular expressions in sequence; tests try each mark in a few contexts.",
  ["content/substitution_step.rs", "internal/regex.rs", "parser/inline_substitution_renderer.rs"],
  [("quote patterns in fixed order", "content/substitution_step.rs"), ("look-ahead replacer", "internal/regex.rs")],
  ["IsBlock::rendered_content"])
p("C20", "Passthrough content is delivered untouched",
  "Text inside an inline passthrough (single, double or triple plus, the pass macro, literal monospace) receives exactly the substitutions the passthrough names and none of the others, whatever it contains, and comes back at its place; an escaped passthrough is ordinary text without the backslash.",
  ["inputs"], "All texts with passthroughs of all forms, nested or adjacent, with any content.",
  "Extraction and restoration use placeholders in the text, so nesting and neighbours matter; tests hold single passthroughs.",
  ["content/passthroughs.rs", "content/substitution_group.rs"],
  [("extraction and restoration by index", "content/passthroughs.rs")],
  ["IsBlock::rendered_content"],
  [("passthroughs", "extracted texts waiting to be restored", "content/passthroughs.rs")])
p("C21", "Textual replacements happen at exactly the documented places",
  "(C), (R), (TM), --, ..., apostrophes inside words, the arrows and character references are replaced where documented and nowhere else, each replacement reaching the renderer once, and a preceding backslash suppresses it and is removed.",
  ["inputs"], "All strings over the replacement characters, letters, spaces, line ends and backslashes.",
  "Each replacement depends on its neighbours and on the output of earlier steps; tests try each alone.",
  ["content/substitution_step.rs", "parser/inline_substitution_renderer.rs"],
  [("replacement table", "content/substitution_step.rs")],
  ["IsBlock::rendered_content"])
p("C22", "Links, URLs, email addresses and inline anchors",
  "A bare URL, a URL or link: or mailto: macro with text, an email address and an inline anchor become exactly the documented link or anchor (target, text, classes, window, rel, ID, mail subject and body), leaving surrounding text and punctuation alone; an escaped one stays as text without the backslash.",
  ["inputs"], "All texts combining URLs and the macros with brackets, punctuation, quotes, attributes and other markup around and inside.",
  "Where a URL ends and which attributes a link text carries depend on context; tests show typical ones.",
  ["content/macros.rs", "parser/inline_substitution_renderer.rs"],
  [("link pattern", "content/macros.rs"), ("link attributes", "parser/inline_substitution_renderer.rs")],
  ["IsBlock::rendered_content"])
p("C23", "Inline images and icons",
  "An image: or icon: macro in text is rendered with exactly its target (resolved against imagesdir or iconsdir as documented), alt text, size, role, float, title, link and other documented attributes; an escaped or malformed macro stays as text.",
  ["inputs", "configurations"], "All macros over the documented attributes and document settings (icons, imagesdir, iconsdir).",
  "The attributes interact (link with window, inline or interactive SVG, icon mode); tests cover a few combinations.",
  ["content/macros.rs", "parser/inline_substitution_renderer.rs", "parser/path_resolver.rs"],
  [("image and icon patterns", "content/macros.rs"), ("HTML rendering", "parser/inline_substitution_renderer.rs")],
  ["IsBlock::rendered_content"])
p("C24", "Warnings: exactly one for each defect, none without",
  "The warnings of a parse are exactly the documented ones for the defects in the text, each naming the right kind and pointing at the text that causes it, whatever else the document contains and however deeply the defect is nested. A document without defects gives none.",
  ["inputs"], "All documents with any combination of defects in any nesting.",
  "Warnings travel up through many hands (nested blocks, sections, header); losing or duplicating one needs a particular nesting. Tests have one defect at the top level.",
  ["warnings.rs", "blocks/block.rs", "blocks/section.rs", "blocks/compound_delimited.rs", "document/document.rs"],
  [("warnings returned with each parsed item and appended by the caller", "blocks/parse_utils.rs")],
  ["Document::warnings"])
p("C25", "Hard line breaks appear exactly where asked for",
  "A line that ends in space and plus, and every line of a paragraph with the hardbreaks option (or under the hardbreaks document attribute), is followed by a line break in the result, the marker being removed; no other line is. With the option or attribute the last line stays as it is written.",
  ["inputs", "configurations"], "All paragraphs of several lines with the marker, the option and the attribute in any combination.",
  "Interaction of marker, option, attribute, substitutions setting and trailing lines; tests try each alone.",
  ["content/substitution_step.rs"],
  [("post replacement step", "content/substitution_step.rs")],
  ["IsBlock::rendered_content"])
p("C26", "The substitutions setting selects exactly the named steps",
  "The subs attribute of a block selects the substitutions it names (a list replaces the default; +name, name+ and -name add before, add after and remove; groups and short names expand as documented), and the selected ones are applied each once in the required order, to the content of that block only. An invalid name leaves the default in effect.",
  ["inputs"], "All subs values over all names with modifiers, on every kind of block.",
  "A small algebra over eight names and modifiers; tests try a few expressions.",
  ["content/substitution_group.rs", "blocks/raw_delimited.rs", "blocks/simple.rs"],
  [("override expression", "content/substitution_group.rs")],
  ["IsBlock::{substitution_group,rendered_content}"])
p("C27", "A custom renderer sees every construct once with its parameters",
  "All inline output is produced by the configured renderer: each recognised construct calls its method exactly once, in the documented substitution order, with the parameters of that construct, and what it writes stands in the result in that place unaltered by anything but later substitutions.",
  ["inputs", "configurations"], "All texts with any constructs, with a renderer other than the default one.",
  "Tests use the default renderer only, which hides a call bypassed or wrong parameters that happen to give the same HTML.",
  ["parser/inline_substitution_renderer.rs", "content/substitution_step.rs", "content/macros.rs"],
  [("renderer trait", "parser/inline_substitution_renderer.rs")],
  ["InlineSubstitutionRenderer calls", "IsBlock::rendered_content"])
p("C28", "Web paths are resolved and normalised correctly",
  "Joining a target and a start directory gives the normalised web path: dot segments are removed, parent segments resolved (kept when they lead above a relative start, dropped at a root), URL prefixes kept, an absolute target ignores the start, spaces are encoded and platform separators become slashes.",
  ["inputs", "configurations"], "All pairs of target and start over path segments, prefixes and separators.",
  "Path grammar is recursive; tests list some fifteen pairs.",
  ["parser/path_resolver.rs"],
  [("partition, expand and join", "parser/path_resolver.rs")],
  ["PathResolver::{web_path,posixify,is_web_root}"])
p("C29", "Parsing is deterministic and independent of earlier parses",
  "Parsing the same text with equally configured parsers gives equal results. Parsing with a parser that has already parsed other documents gives the result that a fresh parser holding the same attribute values would give: no IDs, section numbers, warnings or include state leak from one parse to the next.",
  ["histories"], "All sequences of documents parsed with one parser.",
  "A property of pairs and histories; every test uses a fresh parser once.",
  ["parser/parser.rs", "document/document.rs", "document/catalog.rs"],
  [("state reset at the start of a parse", "parser/parser.rs")],
  ["Parser::parse on a reused parser"],
  [("parser", "catalog, section counters and attribute values that outlive a parse", "parser/parser.rs")])
p("C30", "CRLF and LF documents mean the same",
  "Replacing every line end of a document by CRLF changes nothing in the result but the positions and the line ends kept inside multi-line source text: the same blocks, header, titles, attributes, IDs, numbers and warnings.",
  ["inputs"], "All documents, each in both forms.",
  "Each line-based scanner handles the carriage return itself; tests use CRLF for three or four.",
  ["span/line.rs", "parser/preprocessor.rs", "document/attribute.rs", "blocks/metadata.rs"],
  [("line taking strips one carriage return", "span/line.rs")],
  ["Parser::parse on both forms"])
p("C31", "Block macros and breaks are recognised on whole lines only",
  "A line that consists of image::, video:: or audio:: with a target and a bracketed attribute list is that media block with exactly this target and these attributes, and a line of three apostrophes (or the documented equivalents) or three less-than signs is a thematic or page break. A line that is not exactly so is paragraph text, with a warning where documented.",
  ["inputs"], "All lines over the macro names, colons, brackets, spaces, break characters and trailing text, after any metadata.",
  "Near misses (missing target, missing bracket, text after it, leading space, short or mixed break characters) are many and the tests have a few.",
  ["blocks/media.rs", "blocks/break.rs", "blocks/block.rs"],
  [("media block parser", "blocks/media.rs"), ("break parser", "blocks/break.rs")],
  ["MediaBlock::{type_,target,macro_attrlist}", "Break::type_", "Document::warnings"])
p("C32", "Compact strings behave like ordinary strings",
  "The compact copy-on-write string type holds exactly the text it was made from, whichever of its forms (borrowed, owned, stored inline) it is in and across conversion, cloning, comparison, hashing and display: two of them compare and hash as the texts do. Building one never changes, truncates or splits a character, at any length.",
  ["inputs"], "All texts around the inline capacity, in all representations, through all conversions.",
  "Errors sit at the exact capacity boundary and in combinations of representations with multi-byte text; tests have a few lengths.",
  ["strings.rs"],
  [("inline storage with length byte", "strings.rs")],
  ["CowStr, InlineStr public API"])
p("C33", "The preamble is exactly what precedes the first section",
  "When any block other than an attribute entry precedes the first section of a document, all blocks before that section form one preamble block that spans exactly them; otherwise (no section, or nothing but attribute entries before it) there is no preamble, and the blocks are the document's own. Document structure is otherwise unaffected.",
  ["inputs"], "All sequences of header, body blocks, attribute entries, discrete headings and sections.",
  "Depends on the combination of blocks before and sections after; tests have a handful.",
  ["document/document.rs", "blocks/preamble.rs"],
  [("preamble split", "document/document.rs")],
  ["Document::nested_blocks", "PreambleBlock"])

p("C34", "The ASG schema accepts exactly the well-formed semantic graphs",
  "Validating a JSON value with the ASG schema (asg/schema.json, with its `defaults` keyword) accepts exactly the well-formed abstract semantic graphs: every node has its required properties, none that its kind does not have, values of the right type, enumeration and range, and children only where they may be (sections only in documents and sections, list items only in lists, inlines only among inlines). A `delimiter` is for delimited blocks, and a `variant` for admonitions (of the blocks with children). Attributes have valid names; an unset document attribute is null or false. Validation of an accepted graph fills in exactly the missing lists of blocks or inlines and missing parts of block metadata with empty ones, each node with its own (later changes to one graph never show in another), and validating the result again accepts and leaves it as it is. The validate-asg program is silent for an accepted graph (with --out it writes the completed one), names the file and the error for any other, and takes an array of inlines as the content of a document with one paragraph, located from the first to the last of them.",
  ["inputs", "histories"], "All JSON documents, and all sequences of documents validated one after the other.",
  "The schema has conditions that depend on combinations (form and delimiter, name and variant, header and attributes, unevaluated properties, defaults inside of alternatives) at any depth; its tests validate three sample documents.",
  ["asg/schema.json", "asg/lib/ajv-keyword-defaults.js", "asg/bin/validate-asg.js", "asg/schema.js"],
  [("definitions of all kinds of nodes", "asg/schema.json"), ("missing lists are filled in", "asg/lib/ajv-keyword-defaults.js"), ("documents and inlines on the command line", "asg/bin/validate-asg.js")],
  ["ajv.compile(schema)(document)", "node bin/validate-asg.js"])
p("C35", "The spec coverage report says what the tests verify",
  "The report that sdd writes is valid JSON with each page (.adoc file) under docs/modules exactly once, hidden files and directories apart. For the page that a test file under parser/src/tests names with track_file!, the lines in its verifies! and non_normative! blocks, one after the other, stand for the page's lines from the first on: a non-empty line that is the same in a verifies! block is reported as 1; a line of a non_normative! block is not reported; a line that differs is never reported as verified; non-empty lines after those marked, and all of a page without test file, are reported as 0; empty lines are not reported. A test file with two track_file! marks is an error. None of this depends on the layout of the markers, the code around them, or line ends.",
  ["inputs"], "All trees of pages and test files.",
  "sdd has no tests at all; the report aggregates hundreds of pages, and a shift by one line is not seen by looking at it.",
  ["sdd/src/main.rs"],
  [("markers of a test file", "sdd/src/main.rs"), ("report of a page", "sdd/src/main.rs")],
  ["standard output of sdd"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
