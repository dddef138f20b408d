"""The properties, what decides each, and the bounds.  gen.py writes
properties.jsonl and MANIFEST.json from this file."""

ASSUMPTIONS = [
    "rustc's lowering to wasm64 (opt-level 2, overflow checks on in the crate under test) is the code's meaning; sampled paths are re-run natively and compared",
    "std hashing is replaced by a length-only hash, and word-at-a-time memchr/byte-count kernels by their byte-wise definitions",
    "holes are bytes of the stated alphabets (printable ASCII, tab, newline unless stated otherwise); text outside the holes is fixed by the template",
    "z3's verdicts are trusted",
]
REF = "the reference model of the inline substitutions (harness/src/refinl.rs), written from the AsciiDoc rules, is the oracle"

PROPS = {}
NA = []
S = "parser/src/"


def prop(pid, title, statement, *, quick, thorough=(), bounds="", over=("inputs",), quant="", why="", files=(), mech=(), observe=(), level="model_checking", assumptions=(), note=""):
    PROPS[pid] = dict(title=title, statement=statement, quick=list(quick), thorough=list(thorough), bounds=bounds, level=level,
                      assumptions=list(assumptions), over=list(over), quant=quant, why=why, files=[S + f for f in files],
                      mech=[dict(name=n, where=S + w) for n, w in mech], observe=list(observe), note=note)


prop("P01", "Parsing and inspecting any document neither panics nor hangs",
     "For every input text, parsing terminates and returns a document, and every accessor of the document, its header, its blocks, their attributes and their content can then be called without a panic. No input makes the parser overflow, index out of range, hit an unimplemented branch or loop without making progress.",
     quick=["total", "total_block", "total_wide"], thorough=["total_deep"],
     bounds="every document obtained from 153 templates (one or more per construct of the language) by filling up to 3 (thorough: 5) single-byte holes, and up to 3 holes of multi-byte tokens; and the 343 templates of the other properties about blocks, with all their holes, and again with up to three of their holes filled with é, nothing, U+2028 and İ",
     quant="every input text, valid or not, of every construct, alone or nested",
     why="the tests parse a fixed list of well-behaved documents; the failures sit in boundary inputs (a construct cut off by the end of input, empty targets, multi-byte characters next to a delimiter) no list enumerates",
     files=["document/document.rs", "document/header.rs", "blocks/block.rs", "content/macros.rs", "span/primitives.rs", "attributes/attrlist.rs"],
     mech=[("Parser::parse", "parser/parser.rs"), ("Block::parse", "blocks/block.rs")], observe=["Document", "Block accessors"])

prop("P06", "Special characters are escaped exactly once and never leak",
     "In a paragraph under normal substitutions every literal `<`, `>` and `&` of the text that reaches the output as text appears as `&lt;`, `&gt;` and `&amp;`, exactly once, in place, whatever surrounds it; markup the parser itself produces is not escaped, and no other character is changed by this step.",
     quick=["spec", "spec_wide"], thorough=["spec_deep"],
     bounds="22 paragraph templates, each with up to 3 free bytes (thorough: 6), around text, formatting marks, passthroughs, attribute values and comment lines; and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every paragraph text",
     why="tests escape a few fixed strings; a missed or doubled escape shows only in particular combinations of neighbours, formatting and passthroughs",
     files=["content/substitution_step.rs", "content/passthroughs.rs"],
     mech=[("SpecialCharacters step", "content/substitution_step.rs")], observe=["rendered_content"], assumptions=[REF])

prop("P07", "Inline formatting follows the constrained/unconstrained rules",
     "Bold, italic, monospace, highlight, superscript, subscript and curved-quote marks format exactly the text their constrained and unconstrained rules delimit, with the id and roles of a preceding bracketed list; a leading backslash keeps the mark as text. All other text comes out unchanged and in order.",
     quick=["quotes", "quotes_wide"], thorough=["quotes_deep"],
     bounds="59 paragraph templates with up to 5 free bytes from formatting alphabets or 2 unrestricted ones (thorough: 3 unrestricted, 7 restricted); and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every paragraph text",
     why="the rules depend on the characters before and after every mark and on the order of the passes; tests sample a handful of those contexts",
     files=["content/substitution_step.rs"], mech=[("Quotes step", "content/substitution_step.rs")], observe=["rendered_content"], assumptions=[REF])

prop("P08", "Passthrough text reaches the output untouched by other substitutions",
     "Text inside an inline passthrough (`+…+`, `++…++`, `+++…+++`, `$$…$$`, `pass:spec[…]`) appears in the output exactly once, at its place, processed by exactly the substitutions that form of passthrough asks for and by no other; escaped forms stay text, and text outside passthroughs is processed as if the passthrough were opaque.",
     quick=["pass", "pass_wide"], thorough=["pass_deep"],
     bounds="51 paragraph templates with up to 5 free bytes of the passthrough alphabet or 2 unrestricted ones (thorough: 3 unrestricted, 6 restricted); and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every paragraph text", why="passthroughs are cut out, stored and restored by index around all other substitutions; tests check a few isolated ones, not their interaction with neighbours, nesting and escapes",
     files=["content/passthroughs.rs", "content/substitution_group.rs"], mech=[("Passthroughs::extract_from / restore_to", "content/passthroughs.rs")], observe=["rendered_content"], assumptions=[REF])

prop("P09", "Textual character replacements apply exactly where their rules say",
     "(C), (R), (TM), em dashes, ellipses, apostrophes, arrows and character references in a paragraph are replaced by their entities exactly in the contexts the AsciiDoc rules give, an escaped one stays as typed without the backslash, and everything else is left alone.",
     quick=["repl", "repl_wide"], thorough=["repl_deep"],
     bounds="41 paragraph templates with up to 5 free bytes from the replacement alphabet or 3 unrestricted ones (thorough: 6 / 3); and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every paragraph text", why="each replacement is guarded by neighbouring characters, line boundaries and escapes; tests look at one or two neighbours for each",
     files=["content/substitution_step.rs"], mech=[("CharacterReplacements step", "content/substitution_step.rs")], observe=["rendered_content"], assumptions=[REF])

prop("P10", "Attribute references resolve to the current value, or to nothing else",
     "Every `{name}` in a paragraph whose name is an attribute set at that point is replaced by that attribute's current value, matched without regard to case; an escaped reference stays as typed without its backslash, and text that is not a reference is never altered. Values are inserted once: a reference produced by a value is not expanded again.",
     quick=["attrref", "attrref_wide"], thorough=["attrref_deep"],
     bounds="17 documents of attribute definitions and a paragraph with up to 4 free bytes (thorough: 6); and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every set of attribute definitions and every paragraph text", why="tests resolve a few fixed references; names, cases, nesting, escapes and unset names form an open set",
     files=["content/substitution_step.rs", "parser/parser.rs", "parser/built_in_attrs.rs"], mech=[("AttributeReferences step", "content/substitution_step.rs")], observe=["rendered_content"], assumptions=[REF])

prop("P18", "Web paths are joined and normalised without escaping their root",
     "Resolving a target against a start path joins them unless the target is rooted, removes `.` segments and resolves `..` segments, keeps a URI scheme prefix intact, encodes spaces, treats backslashes as separators only where the platform does, and never lets a rooted path climb above its root.",
     quick=["webpath"], thorough=["webpath_deep"],
     bounds="23 target/start templates over the alphabet `a . / \\ % blank` and scheme characters, up to 6 free bytes (thorough: 8 templates, up to 8)",
     quant="every target and start path", why="tests list some twenty pairs; the interplay of roots, schemes, parents and empty segments is combinatorial",
     files=["parser/path_resolver.rs"], mech=[("PathResolver::web_path", "parser/path_resolver.rs")], observe=["PathResolver::web_path"])

prop("P19", "Copy-on-write strings are indistinguishable from their text",
     "A copy-on-write string made from any text by any of its conversions reads, compares, hashes, displays, clones and converts back exactly as that text does, whichever of its representations (borrowed, boxed, inline) it uses; an inline string holds exactly the texts that fit.",
     quick=["strings"],
     bounds="11 templates of length 0 to 32 bytes with up to 3 free characters, including multi-byte ones at the inline capacity boundary",
     quant="every text and every conversion", why="tests use fixed words; representation boundaries (the inline capacity, multi-byte characters across it) and cross-representation comparison are sampled once or not at all",
     files=["strings.rs"], mech=[("CowStr, InlineStr", "strings.rs")], observe=["CowStr", "InlineStr"])

prop("P20", "Inline macros, links, images and anchors render what their source says",
     "Inline images, icons, `link:` and `mailto:` macros, bare and bracketed URLs, e-mail addresses and inline anchors are recognised exactly where their syntax allows, and render the target, text, attributes and roles written in the source with correct escaping; escaped ones stay text and surrounding text is untouched.",
     quick=["macro", "macro_wide"], thorough=["macro_deep"],
     bounds="98 paragraph templates with 2 or 3 free bytes (thorough: 3 unrestricted); and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every paragraph text and the attributes that influence macros (imagesdir, icons, iconsdir, icontype, hide-uri-scheme)",
     why="the macros have overlapping patterns tried in sequence; tests use one or two instances of each with ordinary neighbours",
     files=["content/macros.rs", "parser/inline_substitution_renderer.rs", "attributes/attrlist.rs"], mech=[("apply_macros", "content/macros.rs"), ("HtmlSubstitutionRenderer", "parser/inline_substitution_renderer.rs")], observe=["rendered_content"], assumptions=[REF])

BREF = "the reference model of the document structure (harness/src/refblk.rs), written from the AsciiDoc rules, is the oracle"
CR = "carriage returns only directly before a newline"

prop("P03", "A document is cut into exactly the blocks its lines call for",
     "Every line of a document belongs to exactly the block the AsciiDoc rules assign it to: paragraphs end at blank lines and at lines that start another construct, compound blocks contain exactly the blocks between their delimiters, and the sequence, kind, content model and nesting of the blocks are those the lines call for; no line is lost, duplicated or moved.",
     quick=["tree", "tree_wide"], thorough=["tree_all", "tree_deep"],
     bounds="24 templates: three to five lines drawn freely from 37 line kinds, or two to six free bytes among fixed lines (thorough: also every template of P01); and every template with up to three of its holes filled with é, nothing, U+2028 and İ",
     quant="every document text", why="which block a line joins depends on the lines before it, on open delimiters and on pending metadata; the tests look at each construct alone, in tidy surroundings",
     files=["blocks/block.rs", "blocks/simple.rs", "blocks/compound_delimited.rs", "blocks/parse_utils.rs", "document/document.rs"],
     mech=[("Block::parse", "blocks/block.rs"), ("SimpleBlock::parse", "blocks/simple.rs"), ("parse_blocks_until", "blocks/parse_utils.rs")], observe=["Document::nested_blocks", "Block"], assumptions=[BREF])

prop("P05", "Delimited blocks hold exactly the lines between their delimiters",
     "A delimited block (listing, literal, passthrough, comment, open, example, sidebar, quote) starts at a line that is its delimiter, ends at the next line with the same delimiter (trailing white space ignored) or, with a warning, at the end of the enclosing text, and holds exactly the lines between; verbatim and raw content is carried over line by line with only the substitutions of its kind, compound content is parsed as blocks, and lines that merely resemble a delimiter do not open or close anything.",
     quick=["delim"], thorough=["delim_deep"],
     bounds="34 templates: three or four lines drawn from 21 delimiter-like lines, or up to eight free bytes of delimiter alphabets, in and outside other blocks",
     quant="every document text with delimited blocks, closed or not, nested or not",
     why="the end of a block depends on delimiter length, trailing blanks and nesting; tests use matching delimiters in well-formed blocks",
     files=["blocks/raw_delimited.rs", "blocks/compound_delimited.rs"], mech=[("RawDelimitedBlock::parse", "blocks/raw_delimited.rs"), ("CompoundDelimitedBlock::parse", "blocks/compound_delimited.rs")], observe=["Block::RawDelimited", "Block::CompoundDelimited", "rendered_content"], assumptions=[BREF])

prop("P11", "Attribute entries take effect from their line on, within their modification rights",
     "An attribute entry sets or unsets exactly the attribute it names (names are case-insensitive) from its line on, with its value after header substitutions; later references and later entries see the latest value and earlier text is unaffected. An attribute set through the API changes only where its modification context allows (anywhere, header only, body only, never), whatever the document says; a refused entry leaves the value as it was and is warned about. After parsing, the parser reports the final values.",
     quick=["attrs", "locks"], thorough=["attrs_deep", "locks_deep"],
     bounds="19 templates of entries and references with up to three free bytes or three lines of 15 entry kinds; and 5 documents × 5 names × 3 values × 4 modification contexts",
     over=("inputs", "configurations"),
     quant="every sequence of attribute entries and every modification context", why="the outcome depends on the order of entries, on the place in the document and on the context of each API attribute; tests set one attribute at a time",
     files=["parser/parser.rs", "document/attribute.rs", "document/header.rs"], mech=[("Parser::set_attribute_from_header / _from_body", "parser/parser.rs"), ("Attribute::parse", "document/attribute.rs")], observe=["Parser::attribute_value", "rendered_content", "warnings"], assumptions=[BREF, CR])

prop("P12", "An attribute value continued over lines is joined as written",
     "A value whose line ends in ` \\` continues on the next line: the pieces are joined by single spaces, leading indentation of continuation lines and the backslashes are dropped, a piece ending in ` + \\` ends in a line break instead, a continuation with nothing after it adds nothing, and the entry ends exactly with its last line.",
     quick=["multiline"], thorough=["multiline_deep"],
     bounds="23 templates with up to six free bytes of ` \\ + newline letters` or two unrestricted ones",
     quant="every attribute value", why="joining depends on blanks, backslashes and line ends meeting in every order; tests have two or three well-formed values",
     files=["document/attribute.rs", "span/line.rs"], mech=[("InterpretedValue::from_raw_value", "document/attribute.rs"), ("take_line_with_continuation", "span/line.rs")], observe=["Attribute::value", "Parser::attribute_value"], assumptions=[BREF, CR])

prop("P13", "Attribute lists are split into exactly the attributes they spell",
     "A block attribute list yields exactly its positional and named attributes in order with their values, after attribute references are resolved: commas outside quotes separate, quoted values may hold commas and escaped quotes, blanks around separators do not count, an empty entry between commas is reported and dropped, and shorthand in the first position gives the style, id, roles and options. id, role and options given by name have the same effect as their shorthand.",
     quick=["attrlist"], thorough=["attrlist_deep"],
     bounds="30 templates with up to six free bytes of list alphabets or three unrestricted ones",
     quant="every attribute list", why="quotes, escapes, blanks, shorthand and empty entries combine freely; tests give some forty fixed lists",
     files=["attributes/attrlist.rs", "attributes/element_attribute.rs"], mech=[("Attrlist::parse", "attributes/attrlist.rs"), ("ElementAttribute::parse", "attributes/element_attribute.rs")], observe=["Attrlist", "Block::id, roles, options, declared_style"], assumptions=[BREF])

prop("P14", "The document header yields its title, authors, revision and attributes",
     "The header is exactly the leading title line, author line, revision line, attribute entries and comments up to the first blank line or the first line that cannot belong to it. The title (after header substitutions), each author's names, initials and e-mail, the revision's number, date and remark, and the attributes derived from them (doctitle, author, firstname, …, revnumber, revdate, revremark) are exactly those the lines spell.",
     quick=["header"], thorough=["header_deep"],
     bounds="44 header templates with up to six free bytes or three lines drawn from nine kinds",
     quant="every document header", why="names, separators, e-mail, revision parts and attribute references combine freely; tests have a few dozen fixed headers",
     files=["document/header.rs", "document/author.rs", "document/author_line.rs", "document/revision_line.rs"], mech=[("Header::parse", "document/header.rs"), ("Author::parse", "document/author.rs"), ("RevisionLine::parse", "document/revision_line.rs")], observe=["Document::header", "Parser::attribute_value"], assumptions=[BREF, CR])

prop("P15", "Sections nest by their level and are numbered in order",
     "A line of two to six `=` or `#` and a title starts a section one level below the markers, outside delimited blocks; a section holds everything up to the next section of its own or a higher level, a discrete heading holds nothing and ends no section. With `sectnums` on at the section (and its level within `sectnumlevels`) it carries the number its place among its siblings gives it, appendixes are lettered, and numbering, types and titles are otherwise unaffected by what lies inside.",
     quick=["sections"], thorough=["sections_deep"],
     bounds="27 templates: three headings of nine marker kinds with styles and `sectnums`/`sectnumlevels` entries, or up to six free bytes",
     quant="every sequence of headings, styles and section attributes", why="nesting and numbering depend on the whole sequence of levels, styles and attribute changes; tests run a few ascending ones",
     files=["blocks/section.rs", "parser/parser.rs"], mech=[("SectionBlock::parse", "blocks/section.rs"), ("assign_section_number", "parser/parser.rs")], observe=["SectionBlock::level, section_type, section_number, section_title, nested_blocks"], assumptions=[BREF])

prop("P16", "Element IDs are generated by the rules, unique, and catalogued",
     "A section without an explicit ID gets one built from its title by the rules (prefix, lower case, separator, invalid characters dropped) under the current `idprefix`, `idseparator` and `sectids`, made unique among the IDs registered before it by a numeric suffix. Explicit IDs are used as given. The ID of every block and section is catalogued once, with the reference text of its element (its anchor's, or its title; for a section its `reftext` attribute or title), and a duplicate is reported and does not displace the first.",
     quick=["ids"], thorough=["ids_deep"],
     bounds="38 templates with up to five free bytes, or three elements with five kinds of IDs and five titles each",
     quant="every set of titles, IDs and ID attributes", why="collisions between generated and explicit IDs and the effect of prefix and separator on arbitrary titles form an open set; tests check a few titles",
     files=["blocks/section.rs", "document/catalog.rs"], mech=[("generate_section_id", "blocks/section.rs"), ("Catalog::generate_and_register_unique_id", "document/catalog.rs")], observe=["SectionBlock::id", "Document::catalog", "warnings"], assumptions=[BREF])

prop("P21", "Block media macros are recognised exactly and keep their target and attributes",
     "A line `image::target[attrlist]`, `video::…` or `audio::…` (trailing white space aside), with a target of at least one character and no `[`, is a media block of that type with exactly that target and those attributes; every other line, however similar, is not.",
     quick=["media"], thorough=["media_deep"],
     bounds="23 templates: macro name, target, attributes and tail drawn from lists, or up to five free bytes",
     quant="every line", why="near misses (blanks, missing brackets, text after the macro, unclosed quotes) are endless and tests list few",
     files=["blocks/media.rs"], mech=[("MediaBlock::parse", "blocks/media.rs")], observe=["Block::Media"], assumptions=[BREF])

prop("P22", "The preamble is exactly what stands between header and first section",
     "When a document has a section, with or without a title, all blocks between the header and the first section are wrapped in one preamble, unless there are none or only attribute entries; nothing else is, without sections there is no preamble (a discrete heading is not a section), and wrapping changes none of the blocks.",
     quick=["preamble"], thorough=["preamble_deep"],
     bounds="8 templates: four blocks drawn from ten kinds after an optional title, or up to three free bytes",
     quant="every document", why="it depends on where the first section stands relative to every other kind of block, which the tests sample",
     files=["document/document.rs", "blocks/preamble.rs"], mech=[("Document::parse", "document/document.rs"), ("Preamble::from_blocks", "blocks/preamble.rs")], observe=["Document::nested_blocks"], assumptions=[BREF])

prop("P23", "Breaks are recognised exactly",
     "A line of exactly `'''`, or three `-` or `*` in the Markdown-style spellings, is a thematic break and a line of exactly `<<<` a page break, trailing white space aside, with the block metadata before it; every other line is not a break.",
     quick=["breaks"], thorough=["breaks_deep"],
     bounds="18 templates with up to six free bytes of break alphabets or two unrestricted ones",
     quant="every line", why="near misses and neighbours are endless and tests list few",
     files=["blocks/break.rs"], mech=[("Break::parse", "blocks/break.rs")], observe=["Block::Break"], assumptions=[BREF])

prop("P24", "Block titles, anchors and attribute lists attach to the block they precede",
     "Title lines (`.Title`), anchors (`[[id,reftext]]`) and attribute lists (`[…]`) directly above a block give exactly that block its title (substituted), anchor, reference text and attributes, whatever their order. One of each kind counts: a second title, anchor or attribute list ends the metadata and is text of the block. Comment lines between them are skipped; lines that only resemble metadata are text, and metadata never leaks to another block.",
     quick=["meta"], thorough=["meta_deep"],
     bounds="25 templates: up to three metadata lines drawn from 19 kinds before six kinds of block, or up to five free bytes",
     quant="every combination of metadata lines and blocks", why="order, repetition and malformed metadata combine with every kind of block; tests attach one of each to a paragraph",
     files=["blocks/metadata.rs", "blocks/block.rs"], mech=[("BlockMetadata::parse", "blocks/metadata.rs")], observe=["Block::title, anchor, anchor_reftext, attrlist, id, roles, options"], assumptions=[BREF])

prop("P27", "A block's content undergoes exactly the substitutions asked for, in order",
     "A block's content is processed by the substitutions of its kind and style, as modified by its `subs` attribute (names, aliases, groups, `+`/`-` prefixes and suffixes, in order), and by no others; hard line breaks are rendered where a line ends in ` +` or the `hardbreaks` option or attribute is set.",
     quick=["subs", "post", "post_wide"], thorough=["subs_deep", "post_deep"],
     bounds="28 templates with `subs` lists of up to two names out of 20 with prefixes and suffixes, or up to five free bytes, on four kinds of block; and the hard-break templates; and every template with up to three of its holes filled with é, “, a no-break space, nothing and İ",
     quant="every substitution list and every kind of block", why="the lists are a small language with incremental modifiers whose order matters; tests use about ten lists",
     files=["content/substitution_group.rs", "content/substitution_step.rs", "blocks/simple.rs", "blocks/raw_delimited.rs"], mech=[("SubstitutionGroup::override_via_attrlist", "content/substitution_group.rs"), ("PostReplacement step", "content/substitution_step.rs")], observe=["rendered_content", "substitution_group"], assumptions=[REF, BREF])

prop("P28", "Every problem is reported once, where it occurs, and nothing else is",
     "The warnings of a document are exactly those its defects call for (unterminated blocks, malformed attribute lists and anchors, duplicate IDs, misplaced titles and levels, refused attribute changes), each with its kind and at the text that causes it; a document without such defects has no warnings, and a warning never changes how the rest is parsed.",
     quick=["warnings"], thorough=["warnings_deep"],
     bounds="20 templates: three lines drawn from 19 kinds or up to eight free bytes around metadata, sections, headers and media",
     quant="every document", why="tests assert warnings of single defects; missing, doubled or misplaced ones show in combinations",
     files=["warnings.rs", "blocks/block.rs", "attributes/attrlist.rs"], mech=[("Document::warnings", "document/document.rs"), ("Warning", "warnings.rs")], observe=["Document::warnings"], assumptions=[BREF])

prop("P02", "Every span names the source text it came from",
     "The text of every span the document hands out is the source text at the span's offset, and its line and column are those of that place (lines and characters counted from one). A block's title, anchor, attribute list, content and target lie within the block, a nested block within its parent, siblings follow one another without overlap, the parts of the header within the header, and nothing but blank and comment lines lies between siblings (white space at the end of a span aside).",
     quick=["spans", "spans_wide"], thorough=["spans_deep"],
     bounds="31 templates with multi-byte characters: three lines drawn from 19 kinds, up to three free bytes or six of special alphabets; and every template with up to three of its holes filled with é, nothing, U+2028 and İ",
     quant="every document text and every span reachable from the document", why="tests check spans of fixed, mostly one-line, ASCII inputs",
     files=["span/mod.rs", "span/line.rs", "span/primitives.rs", "span/trim.rs", "blocks/block.rs"], mech=[("Span::slice / split", "span/mod.rs")], observe=["HasSpan::span", "Span::data, line, col, byte_offset"], assumptions=[CR])

prop("P04", "Line endings and trailing white space do not matter",
     "A document and its copy with CRLF line ends, with blanks or tabs at the ends of its lines, or with blank lines before or after it are the same document: the same blocks with the same kinds, titles, IDs, attributes, rendered text, sections, header data, warnings and references. Only the line ends within verbatim and raw content may differ.",
     quick=["lines", "lines_wide"], thorough=["lines_deep"],
     bounds="25 templates, each compared with its five variants: three lines drawn from 16 kinds, two free bytes, or five of special alphabets; and every template with up to three of its holes filled with é, nothing, U+2028 and İ",
     quant="every document text and every such rewriting of its line ends", why="tests use LF and tidy lines almost everywhere, so a construct that looks at a line's last byte passes them",
     files=["span/line.rs", "span/matched_item.rs", "blocks/simple.rs", "document/attribute.rs", "content/substitution_step.rs"], mech=[("take_normalized_line", "span/line.rs")], observe=["Document"], assumptions=["the summary compared (harness/src/skel.rs) is everything the public API says about a document but positions"])

prop("P17", "Included files take the place of their directives, and every line keeps its origin",
     "Each line `include::target[attrlist]` is replaced by the lines the handler returns for its target (after attribute references), recursively and at most 64 deep; an unresolved one is replaced by a message naming it, everything else is left in place, and the document is the one the resulting text describes. The handler is asked exactly once per directive, in order, with the including file; attributes set before a directive count in its target, within their modification rights. The source map gives for every line of the result the file and line it came from.",
     quick=["includes"], thorough=["includes_deep"],
     bounds="30 sets of a main document and up to two files with up to three free bytes, three lines of ten kinds and ten file texts, or eight bytes of special alphabets; with and without a name for the main document",
     over=("inputs", "configurations"),
     quant="every set of files including one another", why="tests include one or two short files; line counts, missing final newlines, nesting and attributes in targets combine freely",
     files=["parser/preprocessor.rs", "parser/source_map.rs", "parser/include_file_handler.rs"], mech=[("preprocess", "parser/preprocessor.rs"), ("SourceMap::original_file_and_line", "parser/source_map.rs")], observe=["Document::source_map", "IncludeFileHandler::resolve_target", "Document"],
     assumptions=["attribute entries in the harness's include documents take one line", "the reference expansion in harness/src/p_meta.rs is the oracle"])

prop("P25", "A parser can be reused: nothing of one document leaks into the next",
     "Parsing a document with a parser that has parsed other documents before gives the same document, with the same sections, numbers, IDs, references, warnings and positions, as parsing it with a fresh parser of the same configuration, as long as the earlier documents set no attributes; the attribute values afterwards are the same too.",
     quick=["reuse"], thorough=["reuse_deep"],
     bounds="8 earlier documents before each of 10 templates with up to two free bytes or two elements of nine kinds",
     over=("inputs", "histories"),
     quant="every pair of documents", why="tests use a parser once; leftover counters, catalogs and levels show only in a second document that depends on them",
     files=["parser/parser.rs", "document/catalog.rs"], mech=[("Parser::parse", "parser/parser.rs")], observe=["Parser::parse", "Document"])

prop("P26", "All inline markup is written by the configured renderer",
     "Formatting, character replacements, links, images, icons, anchors and line breaks reach the output only through the parser's inline renderer, with the content the source gives them: what a custom renderer writes is carried over unchanged, at its place, in paragraphs, titles, headings and verbatim blocks, and apart from its spelling a custom renderer's output is the default renderer's.",
     quick=["renderer", "renderer_wide"], thorough=["renderer_deep"],
     bounds="43 templates with up to three free bytes, parsed with the default renderer and with one that marks everything it writes; and every template with up to three of its holes filled with é, nothing, U+2028 and İ",
     over=("inputs", "configurations"),
     quant="every text and every renderer", why="tests use the HTML renderer only, where hard-wired HTML is indistinguishable from rendered HTML",
     files=["parser/inline_substitution_renderer.rs", "content/substitution_step.rs", "content/macros.rs", "content/passthroughs.rs"], mech=[("InlineSubstitutionRenderer", "parser/inline_substitution_renderer.rs")], observe=["rendered_content", "title", "section_title"])

prop("P29", "Comment lines leave no trace",
     "Inserting a comment line (`//…`, not `///`) between any two lines of a document that are not inside verbatim or raw content or a continued attribute value – within a paragraph, in a block's metadata, in the header, between and within blocks – changes nothing but positions: the blocks, their text, titles, attributes, the header's data, IDs, references and warnings stay the same, and the comment's own text has no effect.",
     quick=["comments"], thorough=["comments_deep"],
     bounds="20 templates with up to four lines drawn from 18 kinds, three free bytes, or seven bytes of special alphabets; every place of a template, four comment lines and one with a free byte",
     quant="every document and every place for a comment line", why="tests put a comment between two plain lines; comments next to delimiters, metadata, the header's lines or marks spanning lines are untested",
     files=["blocks/simple.rs", "blocks/metadata.rs", "blocks/block.rs", "document/header.rs", "span/primitives.rs"], mech=[("comment handling in SimpleBlock::parse", "blocks/simple.rs"), ("Header::parse", "document/header.rs")], observe=["Document"],
     assumptions=["the summary compared (harness/src/skel.rs) is everything the public API says about a document but positions and the header's list of comments"])

prop("P30", "Blocks mean the same wherever they stand",
     "A piece of text that forms complete blocks (and neither opens a section, sets attributes nor leaves a block open) forms the same blocks, with the same content, metadata and warnings, when it stands after or before other blocks, or inside an example, sidebar or open block: parsing is compositional.",
     quick=["compose"], thorough=["compose_deep"],
     bounds="15 templates with three lines drawn from 18 kinds, up to three free bytes, or five of special alphabets; enclosed in three kinds of block, or before or after eight kinds of block",
     quant="every piece of text and every surrounding", why="tests parse blocks alone or in one fixed arrangement; state leaking between siblings or a container's handling of its content shows in combinations only",
     files=["blocks/block.rs", "blocks/parse_utils.rs", "blocks/compound_delimited.rs", "document/document.rs"], mech=[("parse_blocks_until", "blocks/parse_utils.rs"), ("Block::parse", "blocks/block.rs")], observe=["Document::nested_blocks", "Document::warnings"],
     assumptions=["the summary compared (harness/src/skel.rs) is everything the public API says about a block but its position"])

prop("P31", "Inline text renders the same in a title, a heading and a paragraph",
     "A line of inline text (formatting, references to attributes, replacements, macros, passthroughs) gives the same rendered text as a paragraph on its own, as a block title, a section title, a discrete heading, a paragraph inside a sidebar, and a later paragraph.",
     quick=["titles"], thorough=["titles_deep"],
     bounds="20 templates with up to four free bytes, or five bytes of special alphabets, in six places",
     quant="every line of text and every place it may stand in", why="tests render titles with one or two plain formats; passthroughs, macros and attribute references in titles are not compared with paragraphs",
     files=["content/substitution_group.rs", "blocks/metadata.rs", "blocks/section.rs", "blocks/simple.rs"], mech=[("SubstitutionGroup::apply", "content/substitution_group.rs"), ("section title", "blocks/section.rs")], observe=["Block::title", "SectionBlock::section_title", "rendered_content"])

prop("P32", "The amount of blank space between blocks does not matter",
     "Where a document has a blank line between blocks, metadata, sections or header and body (not inside verbatim or raw content or a continued attribute value), or at its start or end, further blank lines, with or without blanks and tabs in them, change nothing but positions: blocks, nesting, sections, IDs, titles, attributes, rendered text and warnings stay the same.",
     quick=["blanks"], thorough=["blanks_deep"],
     bounds="15 templates with three elements drawn from 23 kinds, two or three free bytes, or five or six bytes of special alphabets; three forms of blank space at every place of a template",
     quant="every document and every place next to a blank line", why="tests separate blocks by exactly one blank line almost everywhere; code that looks at 'the next line' instead of 'the next non-blank line' passes them",
     files=["blocks/parse_utils.rs", "blocks/block.rs", "blocks/section.rs", "blocks/compound_delimited.rs", "document/header.rs", "span/line.rs"], mech=[("discard_empty_lines", "span/line.rs"), ("parse_blocks_until", "blocks/parse_utils.rs")], observe=["Document"],
     assumptions=["the summary compared (harness/src/skel.rs) is everything the public API says about a document but positions"])

prop("P33", "An attribute has the same effect whichever way it was set",
     "Setting or unsetting a document attribute through the API (with the right to change it anywhere), in the header, before the document title, in a document without a title, or in the body ahead of its use has the same effect on what follows: references to it, generated IDs, section numbers, image and icon paths, link texts, line breaks; and the parser reports the same value for it afterwards.",
     quick=["origin"], thorough=["origin"],
     bounds="16 attributes (user-defined ones and those the parser itself consults, `sectnumlevels` aside) with up to two free bytes of their values, in six bodies, set in six ways",
     over=("inputs", "configurations"),
     quant="every attribute, value and body", why="tests set each built-in attribute in one way; the API, the header and the body store values along different code paths",
     files=["parser/parser.rs", "document/header.rs", "document/attribute.rs", "blocks/section.rs", "parser/inline_substitution_renderer.rs"], mech=[("set_attribute_from_header / set_attribute_from_body", "parser/parser.rs")], observe=["Document::nested_blocks", "Parser::attribute_value"],
     assumptions=["values of the alphabet letters, digits and formatting marks, which the header's substitutions leave alone"])

NA += [
    dict(id="N01", title="The spec coverage reporter reports every line of the language description once",
         statement="`sdd` prints, for every file of `docs/modules`, one entry per line that says whether the tests quote it as verified, as non-normative or not at all, in agreement with the markers in the test sources.",
         over=["inputs"], quant="every tree of test sources and documents", why="the tool has no tests", files=["sdd/src/main.rs"], mech=[dict(name="parse_rs_file", where="sdd/src/main.rs")],
         reason="Its input is this repository's own directory tree, read through the file system with hard-coded relative paths, inside private functions of a binary: files cannot be made symbolic without replacing the code that reads them, and no user of the parser depends on it."),
    dict(id="N02", title="The ASG validator accepts exactly the schema's documents",
         statement="`asg/bin/validate-asg.js` accepts a JSON document exactly if it satisfies `asg/schema.json`, after filling in the defaults.",
         over=["inputs"], quant="every JSON document", why="a schema accepts infinitely many documents", files=["asg/bin/validate-asg.js", "asg/lib/ajv-keyword-defaults.js"], mech=[dict(name="ajv keyword defaults", where="asg/lib/ajv-keyword-defaults.js")],
         reason="The verdict is computed by the third-party library Ajv, which compiles the schema to JavaScript at run time; the 12 lines of this repository's code around it decide nothing by themselves, and there is no symbolic executor for Node here. The parser does not produce ASG documents."),
]
