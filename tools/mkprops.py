#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

ENG = "calls arriving at the engine.Engine interface during Processor.Process"
PDF = "the PDF bytes written by Process with the fpdf engine"

p("C01", "Text is never lost, duplicated or reordered",
  "Every word of the texts, boxes and table cells of a document's body is written to the output exactly once and, within its element, in document order (repeated table header rows excepted). A word is divided only in block-aligned content, only at the end of a line, by appending a hyphen to its first piece; the pieces rejoin to exactly the original word. Words of different inline pieces are never run together.",
  ["inputs"], "all documents: any mix of texts, boxes, tables, inline paragraphs, line breaks, alignments, widths and page breaks",
  "No existing test renders anything; losing a word needs a particular width, alignment or break position.",
  ["text.go", "text-hyph.go", "process.go", "table.go", "hyphenation/hyphenation.go"],
  [("line filling carries every word to a line", "text.go:textLines, text-hyph.go:textLinesHyphenated"), ("writing of lines", "text.go:writeText, text-hyph.go:writeTextHyphenated")], [ENG])
p("C02", "Lines are filled greedily and stay within the available width",
  "Content is set in lines of words: a word stays on the current line exactly if the widths of the line's words including it, each counted together with one space, remain below the available width, and otherwise it starts the next line (in block alignment after its longest hyphenated prefix that still fits has been put on the current line; its remainder counts without a space). An explicit line break ends the current line even if it is empty; there are no other empty lines, and only a single word or word remainder that is itself too wide may exceed the width.",
  ["inputs"], "all sequences of words, inline pieces with differing fonts, line breaks and widths, including words wider than the line",
  "Depends on the exact combination of word widths, fonts and available width; nothing in the tests lays out a line.",
  ["text.go", "text-hyph.go"],
  [("greedy filling", "text.go:textLines"), ("greedy filling with hyphenation", "text-hyph.go:textLinesHyphenated")], [ENG])
p("C03", "Lines honour the horizontal alignment",
  "Left-aligned lines (also those with an unrecognised alignment) start at the content's left edge, right-aligned lines end one space before its right edge, and centred lines are centred counting one space more at their end. In block alignment every line starts at the left edge, and a line of two or more words that is not the last of its paragraph (before an explicit line break or the end) is spread so that it ends 0.1 mm before the right edge with equal gaps between words, while the last line of each paragraph keeps normal spaces.",
  ["inputs"], "all contents of texts, boxes and cells under each alignment value, at any x position, width and padding",
  "No test observes an x position; the block-aligned paragraph end depends on where breaks fall.",
  ["text.go", "text-hyph.go", "process.go"],
  [("alignment switch", "text.go:writeText"), ("justification", "text-hyph.go:writeTextHyphenated"), ("paragraph end marking", "text-hyph.go:textLinesHyphenated")], [ENG])
p("C04", "Hyphenation follows the patterns and preserves the word",
  "The pieces of a hyphenated word concatenate to exactly that word and each piece has at least two letters. A break lies exactly at the positions where the highest weight of all loaded patterns matching there (of patterns with the same letters the last one counts; the word taken in lower case, with its ends marked by dots) is odd, except that scanning from the left a break is skipped if it would leave a piece of fewer than two letters, and the last break is dropped if it would leave a single final letter. Words of fewer than 3 or more than 100 bytes or with a space are returned whole.",
  ["inputs", "configurations"], "all words (any letters and case, including non-ASCII) and all pattern sets, shipped or loaded",
  "The hyphenation tests log results and assert nothing; overlapping patterns, non-ASCII letters and odd weights at word ends are not sampled.",
  ["hyphenation/hyphenation.go", "hyphenation/pattern.go", "hyphenation/en-us.go", "hyphenation/latin.go"],
  [("pattern matching with maximum weights", "hyphenation/hyphenation.go:Hyphenate"), ("pattern parsing", "hyphenation/pattern.go:parsePattern")], ["hyphenation.Load / NewEnUs / NewLatin and (*Hyphenator).Hyphenate"])
p("C05", "Boxes enclose their content and are painted as styled",
  "A box is a rectangle at the current position moved by its offsets, as wide as its style width (all of the available width if that is unset or larger) and as high as its padding plus its explicit height or else its text (the line spacing applies between lines, each line as high as its largest font; one font height without any content). It is filled with the background colour, each side is stroked iff its border value is positive, in the line width and colour of its style, and its text starts at the padding inset in its font and text colour. Following content starts at the left margin directly below the rectangle.",
  ["inputs"], "all box styles (width, height, offsets, paddings, borders, colours, line widths, fonts, spacing) and contents, in body, header and footer",
  "No test draws a box.",
  ["process.go", "draw.go", "text.go", "dim.go"],
  [("box measuring and placing", "process.go:renderTextBox"), ("painting", "draw.go:drawBox"), ("text measuring", "text.go:textHeight, text-hyph.go:textHeightHyphenated")], [ENG])
p("C06", "Boxes are never cut by the end of a page",
  "In the body a box that would reach the bottom margin with its offset, paddings and height is started on a new page instead, and a box that does not reach it stays on the page; so a box that fits on an empty page lies entirely above the bottom margin of one page. An explicit new-page instruction starts exactly one new page. Apart from these, table rows and text lines running over the page end, nothing starts a page.",
  ["inputs", "histories"], "all sequences of instructions before the box, i.e. every vertical position, and every box height, padding and offset",
  "Needs a box at a particular vertical position near the page end; no test renders.",
  ["process.go"],
  [("page break decision", "process.go:renderTextBox"), ("page break instruction", "process.go:processInstructions")], [ENG])
p("C07", "Table cells tile the grid without overlapping",
  "Cells are placed row by row and from left to right: each takes the first run of free columns, right of the previous cell of its row, that is as wide as its column span, and covers that many columns and its row span of rows (rows missing at the end of the table are added). No two cells cover a common grid position, every row has the same number of columns, and uncovered positions stay empty.",
  ["inputs"], "all tables: any number of rows, ragged rows, and any combination of column and row spans including spans beyond the table's end",
  "TestTableSpans only logs the grid and asserts nothing; combinations of spans are unbounded.",
  ["table.go", "xdoc/table.go"],
  [("span placement", "table.go:processSpans"), ("row normalisation", "table.go:normalize"), ("column advance while painting", "table.go:renderTable")], [ENG])
p("C08", "Column widths are shared by all rows and fill the table width",
  "A column is as wide as the largest column-width given by a cell starting in it, and columns for which no cell gives a positive column-width share what the given widths leave of the table's width evenly; the table's width is its style width, limited to (and by default) the printable width. A cell is painted as wide as the columns it covers together, starting at the sum of the columns left of it from the table's left edge, on every row and page.",
  ["inputs", "configurations"], "all tables, page geometries and assignments of column widths that leave room for the remaining columns",
  "No test assigns or observes column widths.",
  ["table.go", "dim.go"],
  [("column width assignment", "table.go:assignColumnWidths"), ("cell extent", "table.go:dim")], [ENG])
p("C09", "Rows are as high as their content and cells align vertically",
  "A row is as high as the largest need of its cells: a cell's explicit height in the row it starts in, or else its vertical padding plus the height of its text or of the highest box in it, divided evenly over the rows it spans. A cell is painted over the height of all rows it spans, and its text and boxes are placed at the top, in the middle or at the bottom inside its padding as its vertical alignment says (top if unrecognised).",
  ["inputs"], "all tables with any cell contents, fonts, paddings, explicit heights, spans and alignments",
  "No test computes or observes a row height.",
  ["table.go", "process.go"],
  [("height assignment", "table.go:assignHeights, assignCellMinHeight"), ("cell painting", "table.go:renderCell"), ("nested box height", "process.go:textBoxHeight")], [ENG])
p("C10", "Table rows stay whole and header rows repeat on every page",
  "In the body each row of a table is painted in order, whole on one page and exactly once, and a row (with the rows its cells span) that would cross the bottom of the printable area starts a new page while one that fits does not. When a page is started before a row after the first n rows, n being the table's header repeat count, those n rows are painted again, once each and in order, above it. A table starts on a new page if its header rows and the row after them, each counted with the rows its cells span, do not all fit.",
  ["inputs", "histories"], "all tables, header repeat counts 0..10 and starting positions; rows low enough to fit on a page below the repeated header",
  "Needs tables crossing page ends; no test paginates.",
  ["table.go", "xdoc/table.go"],
  [("row loop with page break and header repetition", "table.go:renderTable")], [ENG])
p("C11", "Effective styles follow the cascade",
  "An element's effective style is the surrounding style overridden by each of its classes in the order listed and finally by its inline style; unknown classes and unknown style keys change nothing. Surrounding is the document's current style for a text, box, table or image, the table's for a row, the row's for a cell, and the containing element's for an inline paragraph. For the first or else last row of a table and the first or else last cell of a row, a class that defines the corresponding selector (first-row, last-row, first-cell, last-cell) applies that selector's declarations instead of its own.",
  ["inputs"], "all class definitions, class lists, inline styles, selectors, and nestings",
  "The style tests check three fixed class applications in isolation; none combines nesting levels, order and selectors, and none observes the rendered effect.",
  ["xdoc/style.go", "style/class.go", "style/decode.go", "table.go", "process.go"],
  [("cascade", "xdoc/style.go:MutatedStyles, MutatedStylesWithSelector"), ("class and selector application", "style/class.go"), ("row and cell selectors", "table.go:transformTable")], [ENG, "style.DecodeClasses, Classes.Mutate, Classes.MutateWithSelector"])
p("C12", "Styles never leak out of their element",
  "The style of a text, box, table, cell or inline paragraph affects nothing but that element and its content: whatever follows is set in the default style with the font of the latest font instruction, no matter what was rendered before. Headers and footers always start from the default style, so their appearance is the same on every page, and font instructions inside them affect neither the body nor another header or footer.",
  ["histories", "inputs"], "all sequences of styled elements and font instructions, with page breaks at any point among them",
  "A leak shows only in what is rendered after the styled element, possibly on another page; no test renders two elements.",
  ["process.go", "text.go", "text-hyph.go", "table.go"],
  [("current style and its reset", "process.go:resetStyles, changeFont"), ("header and footer callbacks", "process.go:Process")], [ENG],
  [("currStyles", "document-level style in force", "process.go:Processor")])
p("C13", "Headers and footers appear once per page and do not disturb the body",
  "Every page of the output carries the header and the footer content exactly once, whichever instruction or overflow started the page. Nothing in a header or footer starts a page, not even a box, table or new-page instruction in it, and after it the body continues at the position it would have without it. {cp} is replaced by the number of the page being laid out and {np} by the total number of pages.",
  ["inputs", "histories"], "all header and footer contents and all bodies, with page breaks caused by boxes, tables, text overflow and instructions",
  "No test produces a second page or a header.",
  ["process.go", "text.go", "engine/fpdf.go"],
  [("header/footer callbacks with position restore and page-break suppression", "process.go:Process"), ("page number substitution", "process.go:tr"), ("page count alias", "engine/fpdf.go:SetPageCountAlias")], [ENG, PDF],
  [("preventPageBreak", "inside header or footer", "process.go:Processor")])
p("C14", "Whitespace is normalised without touching any other character",
  "Normalising a text turns every run of spaces, tabs, carriage returns and newlines into one space, removes them at both ends and around every backslash, and changes nothing else: all other characters are kept in order. Normalising twice gives the same as once. Removing twins replaces occurrences of the doubled string by the single one until none is left and always terminates.",
  ["inputs"], "all strings and all twin strings, including empty, overlapping and non-ASCII ones",
  "The tests sample eleven strings; combinations of whitespace kinds with backslashes are unbounded.",
  ["text/text.go"],
  [("normalisation", "text/text.go:WhitespaceRectified"), ("twin removal", "text/text.go:RemoveTwins")], ["text.WhitespaceRectified, text.RemoveTwins"])
p("C15", "Loading keeps everything known and rejects everything invalid",
  "Loading succeeds only if the document element is well-formed, its header, body, footer, boxes and texts contain only known instructions, and every style, class block, span, repeat count (0 to 10) and grid in it is valid; otherwise it returns an error, never a partial document. A loaded document has exactly the instructions, attributes and character data of the source, in document order and nesting. What is unknown inside tables, cells and grids is skipped (of an unknown element in a cell or grid part, the known content is kept), and elements inside inline paragraphs, images and instructions without content are left out with their content.",
  ["inputs"], "all XML documents over the known and unknown elements, with and without errors at any nesting level",
  "No test loads a document.",
  ["xdoc/doc.go", "xdoc/instructions.go", "xdoc/table.go", "xdoc/grid.go", "xdoc/registry.go", "xdoc/style.go"],
  [("instruction decoding", "xdoc/registry.go:DecodeInstruction"), ("content decoders", "UnmarshalXML in xdoc/instructions.go, table.go, grid.go")], ["xdoc.Load and the loaded Document"])
p("C16", "Images keep their proportions and stay inside their area",
  "An image is painted at the current position plus its offsets (inside a table cell at the top left of the padded cell). It has the given width and height, with a missing one derived from the image's proportions, or its size at 96 dpi if neither is given, and is then scaled down proportionally as needed to fit the printable area (or the padded cell) less the offsets. An image whose file is missing or not recognised as an image is left out without affecting anything else, and relative sources are resolved against the working directory.",
  ["inputs", "configurations"], "all image sizes and formats, style widths, heights, offsets, page geometries and cells (with room for the image)",
  "No test places an image.",
  ["image.go", "process.go", "table.go"],
  [("scaling", "image.go:renderImage"), ("source resolution", "process.go:resolveFile")], [ENG, "xpdf.DescribeImage"])
p("C17", "The PDF has the page geometry the document asks for",
  "Every page of the PDF has the size of the document's paper format (A4 if unrecognised) in its orientation. Body content starts at the left and top margins of each page, text running over the bottom margin continues on the next page at the same horizontal position, and the printable width is the page width less the margins (and 2 mm). Marks land in the PDF at the positions, sizes and colours requested.",
  ["inputs", "configurations"], "all formats, orientations, margins and document contents",
  "No test produces a PDF.",
  ["engine/fpdf.go", "xdoc/doc.go", "process.go"],
  [("page set-up", "engine/fpdf.go:NewFPDF"), ("drawing adapter", "engine/fpdf.go")], [PDF])
p("C18", "Failures are reported and never pass as success",
  "If the engine reports an error after layout or fails to write the PDF, processing returns that error, and in the first case nothing is written. Creating the engine fails if a registered font cannot be read or used, and loading a document, font definition or hyphenation patterns fails if they are unreadable or malformed. The commands exit with non-zero status and an error message whenever any step fails, and with status zero and complete output otherwise.",
  ["fault_sequences", "inputs"], "an engine error at any point of processing, a failing writer at any offset, unreadable or malformed inputs at each step",
  "No test injects a failure.",
  ["process.go", "engine/fpdf.go", "font/definition.go", "cmd/xpdf/main.go"],
  [("error check before writing", "process.go:Process"), ("font loading", "engine/fpdf.go:initFonts"), ("command", "cmd/xpdf/main.go")], ["Process result and writer contents", "exit status of cmd/xpdf"])
p("C19", "Every loadable document is processed to completion",
  "Processing any document that loads terminates without crashing and with a number of pages bounded by its content, also when rows or boxes are higher than a page, widths are zero, negative or too small for a word, spans exceed the table, cells or rows are empty, or headers and footers contain page-breaking content.",
  ["inputs", "histories"], "all loadable documents, in particular degenerate and oversized ones (but for spans and numbers so large that memory is exhausted)",
  "Non-termination or a crash needs a specific degenerate combination; no test renders.",
  ["process.go", "table.go", "text.go", "text-hyph.go", "grid.go", "image.go"],
  [("bounded loops and page-break guards", "process.go, table.go"), ("indexing in span placement", "table.go:processSpans")], ["Process returning, panics, number of pages"])
p("C20", "Style declarations are decoded exactly or rejected",
  "A style text is a list of key:value declarations separated by semicolons, where surrounding blanks and empty declarations are ignored and a later declaration of a key wins; a recognised key sets exactly its own attribute, to exactly the given value, and an unrecognised key sets nothing. A declaration without a key or without exactly one colon, or a recognised key with a value not of its kind (number; four comma-separated numbers for padding and margin, whole numbers for border; six hex digits with optional # for colours) makes decoding fail. Class texts decode to named classes and selectors of an already defined class, and fail on a missing name, closing brace or base class.",
  ["inputs"], "all style and class texts: every key, value syntax, blank placement, order and repetition",
  "The style tests sample six declarations out of twenty-one keys and two failures.",
  ["style/decode.go", "style/class.go", "style/color.go", "style/box.go"],
  [("declaration decoding", "style/decode.go:DecodeMutator, makeMutateFnc"), ("value decoding", "style/color.go, style/box.go"), ("class decoding", "style/class.go:DecodeClasses")], ["style.DecodeMutator, style.DecodeClasses applied to a style"])
p("C21", "A description reports the whole document faithfully",
  "Describing a document yields its meta data, page settings with all four margins, and header, footer and body with every instruction in order and nesting, each with its value and with exactly the style attributes that its classes and inline style change from the zero style, with their values. Describing the same document again, and dumping it as XML or JSON, gives the same result.",
  ["inputs"], "all loadable documents",
  "No test describes a document; TestDiff logs one difference without asserting.",
  ["xdoc/describe.go", "xdoc/diff.go"],
  [("description", "xdoc/describe.go:Describe"), ("style difference", "xdoc/diff.go:interfaceDiff")], ["xdoc.Describe, Description.Dump"])
p("C22", "Text is set in the font the style names",
  "Fonts listed in a font definition are registered under their name and variant (regular, bold, italic, bold and italic) with file paths resolved against the definition's directory, the mono font is the defined one or else Courier, and the PDF sets every text in the family, weight, slant, underline, size and colour of its effective style. Setting text in a font (family or variant) that is neither registered nor built in makes processing fail.",
  ["inputs", "configurations"], "all font definitions and all combinations of family, style, weight, decoration, size and colour",
  "No test registers or uses a font.",
  ["font/definition.go", "font/registry.go", "engine/fpdf.go", "style/font.go"],
  [("registry", "font/definition.go:LoadRegistryFromFile"), ("font mapping", "engine/fpdf.go:initFonts, ChangeFont, fpdfFontStyle")], ["font.LoadRegistryFromFile, Registry.Each", PDF])
p("C23", "Instructions move the position exactly as documented",
  "The body's instructions take effect in order: a line feed moves to the left margin and down by the given number of current font heights, setx and sety set just that one coordinate (negative values count from the right or bottom edge), a text's lines continue at its own left edge with its line spacing and end at the left margin below its last line, images and grids move nothing, and a table ends at its left edge directly below its last row. A new page starts at the left and top margins.",
  ["histories", "inputs"], "all sequences of instructions",
  "No test executes an instruction sequence.",
  ["process.go", "text.go", "table.go", "image.go", "engine/fpdf.go"],
  [("instruction loop", "process.go:processInstructions"), ("position adapter", "engine/fpdf.go:SetX, SetY, LineFeed")], [ENG, PDF])
p("C24", "Output depends only on the document",
  "Processing the same document again with another processor, in the same or another process, concurrently with other documents or after any other documents, yields the same pages and marks, and processing or describing a document does not change it.",
  ["histories", "schedules"], "all documents and all orders and interleavings of processing and describing them",
  "Tests run each function once on one input.",
  ["process.go", "style/decode.go", "style/class.go", "xdoc/registry.go", "xdoc/diff.go", "table.go"],
  [("no shared mutable state between documents", "package-level variables in xdoc/registry.go, style/color.go"), ("styles are copied, not modified", "xdoc/style.go:MutatedStyles")], [ENG, "xdoc.Describe"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
print(len(P))
