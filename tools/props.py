PROPS = []
def P(**k): PROPS.append(k)

P(id="C02", title="Every PDF file written is well-formed and navigable",
  statement="For any document, whatever the number and sizes of pages, the drawing operations on them and the fonts used, the file written is a syntactically well-formed PDF: header, objects exactly at the offsets given by the cross-reference table, stream lengths that match, valid number, name and string syntax, a page tree whose count and kids are the pages added, in order, and no reference or resource name that is undefined..",
  over=["inputs", "histories"], forall="all sequences of page additions and drawing operations with arbitrary finite coordinates, colours, transparencies and fonts",
  why="The tests compare one fixed document byte for byte; offsets, lengths, number formatting and name escaping depend on every value written.",
  files=["victor/src/pdf/mod.rs", "victor/src/pdf/convert.rs", "victor/src/pdf/syntax.rs", "victor/src/pdf/object.rs"],
  mech=[("object table, xref and trailer writer", "victor/src/pdf/syntax.rs"), ("object serialisation", "victor/src/pdf/object.rs"), ("page and resource dictionaries", "victor/src/pdf/convert.rs")],
  observe=["bytes of Document::write_to_pdf_bytes"],
  technique="property-based testing: random drawing histories, files read back by an independent strict PDF parser, coverage-guided mutation",
  note="Held on every generated document; trusts the harness's own PDF parser. Bounded by the generator (finite coordinates, up to tens of pages and operations).")
P(id="C03", title="A PDF page shows exactly what was drawn on it, in order",
  statement="Interpreting the content of each page of a written file gives, in drawing order, exactly the rectangles and text runs drawn on that page, with their positions, sizes, colours, opacities, glyphs and font sizes, on a page of the requested size. Nothing drawn or set on one page, and no earlier colour, opacity or font, changes what another operation shows.",
  over=["inputs", "histories"], forall="all sequences of rectangles and text runs over any number of pages",
  why="Colour, opacity and font are stateful and written only when they change; the tests draw one rectangle and a few lines of text, so the interleavings that would expose stale state never occur.",
  files=["victor/src/pdf/convert.rs", "victor/src/pdf/object.rs", "victor/src/primitives.rs"],
  mech=[("per-page current colour, alpha and font", "victor/src/pdf/convert.rs"), ("graphics state resources", "victor/src/pdf/convert.rs")],
  observe=["bytes of Document::write_to_pdf_bytes"],
  technique="property-based testing: model-based drawing histories against an independent PDF content interpreter",
  note="Compared with single-precision tolerance; trusts the harness's content-stream interpreter.")
P(id="C04", title="Fonts are embedded whole and the text stays extractable",
  statement="Each font used in a document is embedded exactly once, with its file byte for byte, its PostScript name, and metrics (bounding box, ascent, descent, every glyph's advance width) equal to those of the font file scaled to thousandths of an em. The character map embedded with it sends each glyph to a character that the font maps to that glyph, covers every mapped glyph that fits, and so gives back text that shapes to the same glyphs.",
  over=["inputs", "histories"], forall="all valid fonts and all texts shown with them, in any interleaving of fonts",
  why="The tests embed one font and compare one file; widths arrays, character-map blocks of 100 entries and astral characters depend on the font.",
  files=["victor/src/pdf/convert.rs", "victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs"],
  mech=[("font embedding and ToUnicode map", "victor/src/pdf/convert.rs"), ("code point enumeration", "victor/src/fonts/cmap.rs")],
  observe=["font dictionaries, descriptors and streams of the written PDF"],
  technique="property-based testing: generated fonts and texts, embedded data parsed back and compared with the font's own tables",
  note="Held for generated fonts, Vera, Ahem and Noto Linear B; trusts the harness's font builder/reader.")
P(id="C05", title="Font tables are read as OpenType defines them",
  statement="For every valid TrueType font with a Microsoft Unicode character map (format 4 or 12), loading succeeds and every character is mapped to the glyph the font's preferred map gives it, or to glyph 0 if none; advance widths (with the last one shared by the remaining glyphs), ascender, units per em, bounding box and PostScript name are those stored in the font. Fonts lacking a required table, a supported map, a PostScript name or advance widths are refused with the corresponding error.",
  over=["inputs"], forall="all valid fonts, every character including segment boundaries",
  why="The tests load a handful of fixed fonts and look up a few letters; binary search over segments, wrap-around deltas and indirect glyph arrays have many boundary cases.",
  files=["victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/parsing.rs", "victor/src/fonts/tables.rs"],
  mech=[("positions and slices over the file", "victor/src/fonts/parsing.rs"), ("cmap formats", "victor/src/fonts/cmap.rs"), ("metrics and name lookup", "victor/src/fonts/mod.rs")],
  observe=["Font::parse", "glyphs shown in the PDF", "positions of laid-out text"],
  technique="property-based testing: generated fonts whose meaning is known by construction",
  note="The font builder in the harness is the reference; tables Victor does not read are opaque filler.")
P(id="C06", title="Malformed font files never crash or hang the loader",
  statement="For any byte string given as a font, loading it, shaping text with it, laying out text and embedding it either succeed or return an error: there is no panic, no read outside of the data, no arithmetic overflow and no unbounded loop. Whatever is produced with a font that was accepted is still a well-formed PDF.",
  over=["inputs"], forall="all byte strings, in particular valid fonts with arbitrary fields overwritten, truncated or contradictory",
  why="No test loads an invalid font; the failing values are offsets and counts near the limits of 16 and 32 bits.",
  files=["victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/parsing.rs", "victor/src/pdf/convert.rs"],
  mech=[("bounds-checked reads", "victor/src/fonts/parsing.rs"), ("segment and group loops", "victor/src/fonts/cmap.rs")],
  observe=["Font::parse, ShapedSegment::naive_shape, Page::show_text, text_plain::layout"],
  technique="structure-aware coverage-guided fuzzing with a deterministic work budget as hang oracle",
  note="Crash, overflow (debug assertions on) and non-termination (edge budget per case) are the oracle; memory safety only through bounds checks and the parser of the output.")
P(id="C07", title="Shaping maps characters one to one and advances add up",
  statement="Shaping a text gives one glyph per character, in order, each the glyph of that character alone; shaping a concatenation gives the concatenation of the glyphs. The advance recorded for any text or for any way of cutting it into pieces equals the sum of its glyphs' advance widths.",
  over=["inputs", "histories"], forall="all texts and all ways of splitting them, with any font",
  why="The tests only look at whole rendered files; incremental measuring of a text happens inside line breaking with arbitrary cut points.",
  files=["victor/src/text.rs", "victor/src/fonts/mod.rs"],
  mech=[("naive shaping", "victor/src/text.rs"), ("glyph widths", "victor/src/fonts/mod.rs")],
  observe=["glyphs and positions in the written PDF"],
  technique="property-based testing: metamorphic relations (concatenation, splitting) and reference advances",
  note="Observed through laid-out positions, within single-precision tolerance.")
P(id="C08", title="Plain-text layout keeps all text, in order, inside its lines",
  statement="Laying out plain text puts every character on some page exactly once and in reading order, on lines broken only at permitted break opportunities, greedily (a piece goes to the next line exactly when it would overflow a non-empty line), with mandatory breaks honoured. Lines start at the margin, are stacked by line height, continue on a new page exactly when more lines follow and the bottom margin is passed, and justification stretches every wrapped line to the full width and no other line.",
  over=["inputs", "configurations"], forall="all texts and page geometries with positive sizes and margins below half the page",
  why="The one test lays out a single book with a single style; breaking and pagination decisions depend on every width.",
  files=["victor/src/text_plain.rs", "victor/src/text.rs"],
  mech=[("greedy line breaking and pagination", "victor/src/text_plain.rs")],
  observe=["text runs on the pages of the written PDF"],
  technique="property-based testing: differential against an independent reference layout",
  note="Break opportunities come from the same Unicode library; near-ties within rounding are discarded and counted.")

# ---- C01 goes first
C01 = dict(id="C01", title="Anything given as HTML renders to a well-formed one-page PDF",
  statement="For any byte string given as HTML (invalid UTF-8, tag soup, and any style sheets and style attributes, with numbers of any magnitude, included), parsing and rendering it terminate without a panic and give a syntactically well-formed PDF with exactly one page of 600 by 800 px. Elements are assumed to be nested at most a few hundred levels deep.",
  over=["inputs"], forall="all byte strings, in particular mutated documents and styles with extreme, contradictory or unusual values",
  why="The tests render a few well-behaved documents; panics, endless loops and numbers that PDF cannot express need unusual combinations of content and style.",
  files=["victor/src/dom/html.rs", "victor/src/layout/dom_traversal.rs", "victor/src/layout/flow/construct.rs", "victor/src/layout/flow/inline.rs", "victor/src/paint.rs", "victor/src/style/values/length.rs"],
  mech=[("box generation", "victor/src/layout/flow/construct.rs"), ("fragments to PDF operations", "victor/src/paint.rs"), ("number syntax", "victor/src/pdf/object.rs")],
  observe=["dom::Document::parse_html(bytes).to_pdf_bytes()"],
  technique="coverage-guided fuzzing and property-based testing: panics, a work budget and an independent strict PDF parser are the oracle",
  note="Overflow checks and debug assertions are on; termination is judged by a budget of executed edges, far above what any passing case uses.")
PROPS.insert(0, C01)

P(id="C09", title="The element tree is the one that the HTML parsing algorithm builds",
  statement="For any HTML document, however malformed, the tree that is styled and rendered is the one that the HTML tree-construction algorithm builds: every insertion before a sibling, removal, move, reparenting of children and merging of attributes or of text is reflected in the parent, sibling and child relations and in attributes. Comments, processing instructions and the contents of template elements are not rendered and do not affect what is.",
  over=["inputs", "histories"], forall="all sequences of tree mutations that the parser can make, as reached through tag soup",
  why="The tests parse well-formed documents, which only ever append; foster parenting, the adoption agency and attribute merging are never reached.",
  files=["victor/src/dom/html.rs", "victor/src/dom/mod.rs"],
  mech=[("tree sink operations", "victor/src/dom/html.rs"), ("linking and unlinking of nodes", "victor/src/dom/mod.rs")],
  observe=["boxes and text painted, through style rules that identify each element and its relations to others"],
  technique="property-based testing: differential against an independent tree sink for the same tokenizer, made visible through selectors and text",
  note="The tree-construction algorithm of html5ever is trusted; Victor's mutations of its own tree are what is checked.")
P(id="C10", title="Links are the link elements of the document, in document order",
  statement="The links of a document are exactly its HTML-namespace link elements that have both a rel and an href attribute in no namespace, in document order, whatever their position in the tree, for HTML as well as XML documents. Each has the exact values of both attributes.",
  over=["inputs"], forall="all documents with link elements anywhere, in any namespace, with any attributes",
  why="No test calls it at all.",
  files=["victor/src/dom/mod.rs"],
  mech=[("traversal and attribute lookup", "victor/src/dom/mod.rs")],
  observe=["dom::Document::html_link_elements"],
  technique="property-based testing: generated documents with known links, for both parsers",
  note="Held on every generated document.")
P(id="C11", title="XML documents make the tree that they spell; ill-formed ones are refused",
  statement="For any namespace-well-formed XML document, the tree rendered has exactly its elements, attributes (with the namespaces that prefixes and default namespaces give them), text and CDATA sections, in order, and it renders to the same page as the equivalent HTML. A document that is not well-formed is refused with an error, and no input makes the parser panic.",
  over=["inputs"], forall="all XML documents and all edits of them, within what the tokenizer supports",
  why="No test parses XML beyond the reference-test runner's own files, which have a single shape.",
  files=["victor/src/dom/xml.rs", "victor/src/dom/mod.rs"],
  mech=[("event handling and node stack", "victor/src/dom/xml.rs")],
  observe=["dom::Document::parse_xml, then to_pdf_bytes"],
  technique="property-based testing: generated trees serialised in varied ways and rendered against the reference model; ill-formed edits with a known defect",
  note="Well-formedness checking itself is xml-rs's, which is trusted where Victor passes its errors on.")
P(id="C12", title="Invalid CSS is dropped precisely, and what is valid still applies",
  statement="An invalid declaration, at-rule or rule (unknown property, malformed value, trailing tokens, negative size, unbalanced block, invalid selector) is ignored as CSS error recovery defines, and has no effect on anything else: every valid declaration and rule before and after it applies as if it were not there. This holds for style sheets as for style attributes.",
  over=["inputs"], forall="all interleavings of valid declarations and rules with invalid ones",
  why="The tests' style sheets have no errors in them.",
  files=["victor/src/style/declaration_block.rs", "victor/src/style/rules.rs", "victor/src/style/errors.rs", "victor/src/style/properties/macros.rs", "victor/src/style/values/mod.rs"],
  mech=[("declaration parser", "victor/src/style/declaration_block.rs"), ("rule list parser", "victor/src/style/rules.rs")],
  observe=["rendering of elements styled by what is valid"],
  technique="property-based testing: metamorphic insertion of invalid pieces into documents with a known rendering",
  note="CSS that is valid but not supported by Victor is not generated as invalid.")
P(id="C13", title="The cascade picks the winning declaration",
  statement="For each element and property, the value used is that of the declaration that wins by origin and importance, then being in a style attribute, then specificity, then order of appearance over all style sheets in tree order; shorthands count as their longhands, and within a block the last declaration of equal importance wins. Only style elements of the document's tree whose type is empty, absent or text/css (in any case) are style sheets.",
  over=["inputs", "configurations"], forall="all sets of competing declarations in any number of style sheets and style attributes",
  why="The tests have at most two rules that compete; ties between importance, specificity and order have many more combinations.",
  files=["victor/src/style/cascade.rs", "victor/src/style/declaration_block.rs", "victor/src/style/selectors.rs", "victor/src/dom/mod.rs", "victor/src/style/user_agent.css"],
  mech=[("sorting of matching rules and application", "victor/src/style/cascade.rs"), ("important and normal declarations", "victor/src/style/declaration_block.rs"), ("collection of style sheets", "victor/src/dom/mod.rs")],
  observe=["rendering of the elements"],
  technique="property-based testing: differential against a reference cascade",
  note="Origins are author and user agent, the only ones there are.")
P(id="C14", title="Selectors match the elements that Selectors Level 3 says",
  statement="A rule applies to an element if and only if one of its selectors matches it: type, universal, class and id selectors, attribute selectors with every operator, the structural pseudo-classes with any an+b, :not(), :root and :empty, joined by any combinators. Names of HTML elements and attributes match ASCII case-insensitively in HTML documents, and a list with an invalid selector matches nothing.",
  over=["inputs"], forall="all trees and selectors of generated shapes",
  why="The tests use only type, class and id selectors on small documents.",
  files=["victor/src/style/selectors.rs", "victor/src/dom/mod.rs"],
  mech=[("element relations and attributes as seen by the matching engine", "victor/src/style/selectors.rs")],
  observe=["which elements are rendered with the rule's declarations"],
  technique="property-based testing: differential against a brute-force reference matcher",
  note="Documents in no-quirks mode; the selectors crate is used with Victor's element implementation, which is what is checked.")
P(id="C15", title="Every property value is parsed, inherited and computed as CSS defines",
  statement="For each supported property and shorthand, every valid way of writing a value (any letter case, units, percentages, keywords, colour syntaxes, omitted and reordered parts of shorthands, inherit, initial and unset) gives the computed value that CSS defines: inherited properties come from the parent, others are initial, em lengths refer to the right font size, currentcolor to the element's color, border widths are 0 without a style, and absolutely positioned, floated and root elements are blockified.",
  over=["inputs"], forall="all properties, all value forms, at any depth of inheritance",
  why="The tests use a few properties in one spelling each.",
  files=["victor/src/style/properties/definitions.rs", "victor/src/style/properties/macros.rs", "victor/src/style/values/mod.rs", "victor/src/style/values/length.rs", "victor/src/style/values/border.rs", "victor/src/style/values/box_.rs", "victor/src/style/values/color.rs", "victor/src/style/values/generic.rs"],
  mech=[("property definitions and phases", "victor/src/style/properties/definitions.rs"), ("generated cascade and inheritance", "victor/src/style/properties/macros.rs"), ("value types", "victor/src/style/values/")],
  observe=["geometry and colours of what is rendered"],
  technique="property-based testing: differential against a reference computation of styles",
  note="Shorthands with four different values put the second on the left side: a known finding, as the reference tests expect it.")
P(id="C16", title="Horizontal sizes of blocks satisfy the CSS width equation",
  statement="For every in-flow block, margins, borders, paddings and width add up to the width of its containing block as CSS 2 section 10.3.3 says: auto widths fill what is left (never below zero), auto margins share it, over-constrained boxes give up the right margin, and percentages refer to the width of the containing block. Its content starts at the position so determined.",
  over=["inputs"], forall="all nested boxes with lengths, percentages and auto in any combination",
  why="The tests have a few boxes with lengths; auto margins, percentages and negative values combine.",
  files=["victor/src/layout/flow/mod.rs", "victor/src/geom.rs"],
  mech=[("layout of block-level boxes in their container", "victor/src/layout/flow/mod.rs")],
  observe=["rectangles of backgrounds in the written PDF"],
  technique="property-based testing: differential against an independent reference layout",
  note="Single-precision tolerance; horizontal left-to-right writing mode, the only one implemented.")
P(id="C17", title="Blocks stack vertically with the margins collapsed as CSS 2 says",
  statement="The vertical position and height of every in-flow block follow from stacking boxes in order with adjoining margins collapsed (largest positive plus most negative): between siblings, through empty boxes, with first and last children where no padding, border, definite height or formatting context separates them. Heights are those given, or else that of the content, never negative, and percentages of an auto height are auto.",
  over=["inputs"], forall="all nested boxes with margins, paddings, borders and heights in any combination",
  why="The tests' documents collapse one or two margins; collapsing through and with parents depends on the whole surrounding tree.",
  files=["victor/src/layout/flow/mod.rs", "victor/src/layout/fragments.rs"],
  mech=[("placement state and collapsible margins", "victor/src/layout/flow/mod.rs"), ("CollapsedMargin, CollapsedBlockMargins", "victor/src/layout/fragments.rs")],
  observe=["rectangles of backgrounds and positions of text in the written PDF"],
  technique="property-based testing: differential against an independent reference layout",
  note="Single-precision tolerance.")
P(id="C18", title="Inline content fills lines word by word and every glyph is kept",
  statement="Inline content is laid out in lines as wide as their container: each word is placed on the current line if it fits, else on the next; no character is lost or repeated, spaces at a break are dropped, and adjacent runs follow each other exactly. Paddings, borders and margins of inline boxes take space at their start and end only, also when the box is broken over lines; each line is as tall as its tallest text, and lines are stacked without gaps.",
  over=["inputs"], forall="all nestings of inline boxes and texts, in containers of any width",
  why="The tests break hardly any line; breaks inside nested inline boxes need particular widths.",
  files=["victor/src/layout/flow/inline.rs", "victor/src/text.rs"],
  mech=[("inline formatting context state, partial boxes", "victor/src/layout/flow/inline.rs")],
  observe=["positions of every glyph and of backgrounds of inline boxes in the written PDF"],
  technique="property-based testing: differential against an independent reference layout",
  note="Break opportunities are spaces within a text, as implemented; near-ties within rounding are discarded and counted.")
P(id="C19", title="Positioned boxes are placed by their offsets against the right box",
  statement="A relatively positioned box, with all of its content, is displaced by its offsets from where it would be, and nothing else moves. An absolutely positioned box takes no space, and its offsets, sizes and margins (auto, lengths or percentages) resolve as CSS 2 sections 10.3.7 and 10.6.4 say against the padding box of its nearest positioned ancestor, or the initial containing block; auto offsets on both sides leave it at its static position.",
  over=["inputs"], forall="all combinations of offsets, sizes and margins, at any nesting of positioned boxes, in block and inline content",
  why="The tests have one positioned box with simple offsets; each axis has dozens of combinations of auto and lengths.",
  files=["victor/src/layout/positioned.rs", "victor/src/layout/flow/mod.rs", "victor/src/layout/flow/inline.rs", "victor/src/layout/fragments.rs"],
  mech=[("absolutely positioned boxes and their fragments", "victor/src/layout/positioned.rs"), ("relative adjustment", "victor/src/layout/flow/mod.rs")],
  observe=["rectangles and text positions in the written PDF"],
  technique="property-based testing: differential against an independent reference layout",
  note="Boxes with an automatic width are as wide as available, as shrink-to-fit is not implemented.")
P(id="C20", title="Box generation follows display; no displayed content is lost",
  statement="Elements make the boxes that their display value says: none removes the subtree, contents replaces the element by its children, inline content next to blocks is wrapped in anonymous blocks, and a block inside of an inline box splits it. White space is collapsed across element boundaries, and all other text of displayed elements is rendered exactly once, in document order, with the style of its element.",
  over=["inputs"], forall="all trees with any mixture of display values, text and white space",
  why="The tests' trees mix displays in one or two fixed ways.",
  files=["victor/src/layout/flow/construct.rs", "victor/src/layout/dom_traversal.rs", "victor/src/layout/element_data.rs"],
  mech=[("block container builder", "victor/src/layout/flow/construct.rs"), ("traversal", "victor/src/layout/dom_traversal.rs")],
  observe=["texts, their order, positions and styles, and rectangles in the written PDF"],
  technique="property-based testing: differential against an independent reference box generation",
  note="Single-precision tolerance.")
P(id="C21", title="Painting order and colours follow the tree",
  statement="Every box with a non-transparent background paints its padding-and-border box as one rectangle in the background colour with its alpha, every text is painted in its color, and nothing else is painted. The order is tree order, with a box's background before its content, except that absolutely positioned boxes are painted after the rest of the content of the box that contains them, in tree order among themselves.",
  over=["inputs"], forall="all trees with overlapping boxes of any colours and alphas",
  why="The tests compare rasters of boxes that do not overlap.",
  files=["victor/src/paint.rs", "victor/src/layout/positioned.rs", "victor/src/layout/fragments.rs"],
  mech=[("fragment painting", "victor/src/paint.rs"), ("sorting by tree rank", "victor/src/layout/positioned.rs")],
  observe=["sequence of painting operations in the written PDF"],
  technique="property-based testing: differential against an independent reference display list, compared in order",
  note="Borders are not painted: not implemented.")
P(id="C22", title="The bytes written depend on the input alone, not on scheduling",
  statement="Rendering a document gives the same bytes every time, with any number of threads in the pool, for the same document again, while other documents are rendered at the same time, and when several threads render the same document at once. It never deadlocks or panics because of concurrency.",
  over=["schedules", "inputs"], forall="all documents and thread schedules",
  why="The tests render each document once; layout is parallel over the children of each box, and what each job returns has to be merged in order.",
  files=["victor/src/layout/flow/mod.rs", "victor/src/layout/flow/construct.rs", "victor/src/layout/flow/root.rs", "victor/src/layout/positioned.rs", "victor/src/layout/dom_traversal.rs"],
  mech=[("parallel construction and layout of children", "victor/src/layout/flow/construct.rs"), ("merging of absolutely positioned fragments", "victor/src/layout/positioned.rs"), ("exclusive use of layout data", "victor/src/dom/mod.rs")],
  observe=["bytes of to_pdf_bytes under different thread pools and concurrent calls"],
  technique="property-based testing: generated wide documents under generated schedules (pool sizes, repetition, concurrency), single-threaded rendering as the oracle",
  note="Interleavings are those that the operating system happens to schedule.")
P(id="C23", title="PNG files written and read keep the pixels exactly",
  statement="Writing an image surface gives a valid PNG file with exactly its size and pixels (with undone premultiplication for ARGB32), to a stream as to a file, and reading that file back gives the same pixels. Reading any valid PNG file of up to 8 bits per sample, whatever its colour type, transparency, filters, interlacing and chunking, gives its size and its pixels, premultiplied. Surfaces of any supported size, zero included, are created transparent black with exactly width times height pixels, and sizes that are not supported are refused with an error.",
  over=["inputs"], forall="all images and all encodings of them",
  why="The tests round-trip one opaque 4 by 4 image.",
  files=["lester/src/cairo.rs", "lester/src/convert.rs", "lester/src/cairo_ffi.rs"],
  mech=[("stream callbacks", "lester/src/cairo.rs"), ("pixel buffer access", "lester/src/cairo.rs")],
  observe=["ImageSurface::{new_rgb24, new_argb32, pixels, write_to_png, read_from_png, write_to_png_file, read_from_png_file}"],
  technique="property-based testing: round-trip and differential against an independent PNG encoder and decoder",
  note="16-bit PNG files are not supported by Lester. Trusts the harness's PNG codec, which has its own inflate.")
P(id="C24", title="Faults of streams come out of PNG reading and writing as they are",
  statement="While a PNG file is read from or written to a stream, in pieces of any size and with interruptions, an I/O error or panic of the stream reaches the caller unchanged (the same error value or panic payload), the stream is not used again, premature end and refused writes are reported as such, and what was written is a prefix of the file. Reading consumes exactly the bytes of one image; after a failed write the surface is intact. Damaged PNG data give an error or an image, never a panic or crash.",
  over=["inputs", "fault_sequences"], forall="all images, piece sizes, and faults at every position",
  why="The tests fail only on the very first call and never panic; faults in the middle unwind through C code.",
  files=["lester/src/cairo.rs", "lester/src/errors.rs"],
  mech=[("catching panics and keeping errors across C callbacks", "lester/src/cairo.rs")],
  observe=["ImageSurface::{write_to_png, read_from_png} and file versions"],
  technique="property-based testing with fault injection at generated positions; mutation fuzzing of PNG files",
  note="Leaks inside libpng and cairo are not observed.")
P(id="C25", title="Rasterised pages show what the PDF says at the scale asked for",
  statement="Rendering a page gives an image of the page's size in CSS px times the scale of each axis, rounded up, in the format of the backdrop asked for (white and opaque, or transparent), on which each pixel inside of a painted rectangle or glyph has its colour composed by alpha in painting order, and every other pixel that of the backdrop. Annotations appear as they are meant to: on the screen, or for printing if that is asked for. The text of a page is the text that was shown, line by line.",
  over=["inputs", "configurations"], forall="all pages of rectangles, text and annotations, scales and options",
  why="The tests render a 4 by 4 pattern and a few pages with default options.",
  files=["lester/src/poppler.rs", "lester/src/cairo.rs", "victor/src/pdf/convert.rs"],
  mech=[("render_with_options", "lester/src/poppler.rs"), ("unit conversion", "lester/src/poppler.rs")],
  observe=["Page::{size_in_css_px, size_in_ps_points, render, render_with_dppx, render_with_options, text}"],
  technique="property-based testing: differential against a reference rasteriser, end to end from Victor's PDF writer",
  note="Pixels cut by an edge are not compared; Poppler's guesses of spaces are not compared.")
P(id="C26", title="The page iterator is double-ended, exact and random-access",
  statement="Iterating over the pages of a document, by any interleaving of calls from both ends, skipping, collecting and several iterators at once, gives every page exactly once, at its place in the document, with its size; the remaining length reported is exact at each step. Pages stay valid after the iterators and the document object are gone, and the producer is that of the file, if any.",
  over=["histories", "inputs"], forall="all numbers of pages and histories of calls",
  why="The tests call next and nth once on documents with one page.",
  files=["lester/src/poppler.rs"],
  mech=[("PagesIter", "lester/src/poppler.rs"), ("page and document references", "lester/src/poppler.rs")],
  observe=["PdfDocument::{pages, producer}, Page sizes"],
  technique="property-based testing: model-based histories against a queue",
  note="Held on every generated history.")
P(id="C27", title="PDF output is complete or an error, whatever it is written to",
  statement="Writing a PDF document to any stream, in whatever pieces it accepts, and to a file gives the same bytes as writing to memory; an error or panic of the stream at any point reaches the caller unchanged, nothing more is written after it, and what was written is a prefix of the file. An existing file is replaced as a whole, and errors (missing directory, full device) are reported, the command line program included, whose output is the rendering of its input.",
  over=["inputs", "fault_sequences"], forall="all documents, piece sizes, and faults at every position",
  why="The tests write only to memory.",
  files=["victor/src/pdf/mod.rs", "victor/src/pdf/syntax.rs", "victor/src/pdf/object.rs", "victor/src/main.rs"],
  mech=[("write errors in the counting writer", "victor/src/pdf/syntax.rs"), ("file output", "victor/src/pdf/mod.rs"), ("command line program", "victor/src/main.rs")],
  observe=["Document::{write_to_pdf, write_to_pdf_file, write_to_pdf_bytes}; the victor program"],
  technique="property-based testing with fault injection at generated positions",
  note="/dev/full stands for devices that fill up.")
P(id="C28", title="What is allocated is released, once, however objects are dropped",
  statement="Whatever is done with Lester (parsing PDF files, taking pages, texts and producers, rasterising, reading and writing PNG files, with errors and panics of streams and C libraries in between) and in whatever order the objects are dropped, what cairo, Poppler and glib allocated is released, exactly once, with the streams and files given: objects that are kept stay as they are when others are dropped, and repeating the same operations neither takes more memory nor more open files, nor gives something else. Nor does rendering documents, loading fonts and writing PDF files with Victor, again and again.",
  over=["histories", "fault_sequences"], forall="all histories of operations, faults and drops",
  why="The tests drop each object at the end of a function, once, and look at nothing after that.",
  files=["lester/src/cairo.rs", "lester/src/poppler.rs", "lester/src/errors.rs", "victor/src/fonts/mod.rs", "victor/src/pdf/convert.rs"],
  mech=[("release of C objects", "lester/src/cairo.rs"), ("references to pages and documents", "lester/src/poppler.rs"), ("errors of glib", "lester/src/errors.rs")],
  observe=["bytes allocated and files open after repeating a history; values of the objects of Lester before and after others are dropped"],
  technique="property-based testing: generated histories of operations and drops, repeated; invariants over allocated memory, open files and values, with freed memory overwritten",
  note="What cairo keeps for the fonts used last is bounded, and not looked at: pages with text are not rasterised.")
