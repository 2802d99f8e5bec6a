#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = ["inputs"]
p("C01", "Parsing, layout and rendering terminate and fail only through their error",
  "For every input string (memory permitting), parsing it, laying it out and rendering it return after finitely many steps: every loop and recursion of the parser consumes input and stops at its end, and nesting beyond a fixed depth is an error rather than an exhausted stack. Malformed or unsupported input is reported as a non-nil error, with a nil tree or box where the function returns one, and never as a panic that reaches the caller; a tree or box is returned together with a nil error.",
  I, "all input strings, valid or not, of any nesting",
  "The tests parse a few dozen well-formed expressions; non-termination and escaping panics show on malformed input only, of which there are infinitely many.",
  ["parser.go", "scanner.go", "macros.go", "mtex/parser.go", "mtex/render.go"],
  [("recovery at the API boundary", "parser.go ParseExpr; mtex/parser.go parse; mtex/render.go Render"),
   ("token loops guarded by the scanner's end of input", "parser.go parse* loops; scanner.go Next, scanComment")],
  ["error results of ParseExpr, mtex.Parse and mtex.Render"])
p("C02", "Groups are closed by their own delimiter or the input is rejected",
  "Whenever parsing succeeds, every math expression, macro argument, optional argument, brace group and braced sub- or superscript that was opened in the input was ended by its own matching closing delimiter. Input that ends inside an open group, or lacks the mandatory argument of a macro, is rejected with an error, never completed silently.",
  I, "all input strings and all nestings of groups",
  "Tests use balanced input; that no combination of nesting and truncation slips through concerns every input.",
  ["parser.go", "macros.go"],
  [("group loops that leave on the matching closer only", "parser.go parseMathExpr, parseMacroArg, parseOptMacroArg, parseSup, parseSub, parseMathLbrace")],
  ["tree and error of ParseExpr"])
p("C03", "The syntax tree keeps every token, once, in order and with its text",
  "On success the syntax tree holds every token of the input exactly once, in source order and with its exact text, in the kind of node that the token calls for: words, numbers, symbols, macros with all their arguments, math expressions, groups, and sub- and superscripts owning the operand that follows. Only comments, delimiters recorded by their enclosing node, and plain blanks inside math produce no node; control spaces are kept.",
  I, "all input strings and every interleaving of token kinds, groups and macros",
  "The parser tests compare some forty fixed trees; loss, duplication or reordering can depend on any combination of neighbouring tokens and nesting.",
  ["scanner.go", "parser.go", "macros.go"],
  [("token classification", "scanner.go scan"), ("dispatch and group loops", "parser.go parseNode and group parsers"), ("argument lists", "macros.go parseMacro")],
  ["tree returned by ParseExpr"])
p("C04", "Node positions are byte offsets into the source",
  "The start of every node is the byte offset of the first character of its first token, and recorded delimiter positions are the offsets of those delimiters. The end of every node is the offset just after its last character: after its text for leaves, after its closing delimiter for arguments and math expressions, after its last argument (or its name) for macros, and at the end of its last child or operand for lists and sub- or superscripts. (Lists do not include their braces: a list starts at its first child, and an empty list has no position, -1.)",
  I, "all input strings and all nodes of their trees",
  "Tests compare positions of a few fixed inputs; offsets go wrong only after particular preceding text (comments, multi-byte characters, nesting).",
  ["scanner.go", "parser.go", "macros.go", "ast/ast.go"],
  [("token offset taken when the token starts", "scanner.go scan, scanMacro"), ("Pos/End methods", "ast/ast.go")],
  ["Pos and End of every node"])
p("C05", "Math mode holds exactly inside math delimiters and is always restored",
  "While parsing, blanks are significant outside and insignificant inside a math expression, whatever is nested in it, and the mode that was active before a math expression or group is active again after it. While laying out, characters inside a math expression use the math mode and the default math font type and those outside use the text mode and the upright type; both are back to their previous values after the expression, and macro arguments are laid out in the mode and font that surround the macro.",
  I, "all nestings of math expressions, groups and macros",
  "A leaked mode shows only on what follows a specific nesting; tests have a handful of text/math sequences.",
  ["parser.go", "mtex/parser.go"],
  [("parser mode saved and restored", "parser.go parseMathExpr"), ("layout mode and font type saved and restored", "mtex/parser.go Visit")],
  ["blanks kept in the tree; font type and mode passed to the font backend"])
p("C06", "Tree traversal visits every node once, depth first, in source order",
  "Walking a tree calls the visitor on each node before its children, on every non-nil child exactly once in source order with the visitor returned for the parent, and then once with nil on that returned visitor; a nil visitor result prunes exactly that subtree. Inspecting a tree does the same with a predicate. Every node type the parser can produce is supported, and an unknown one is not skipped silently.",
  ["inputs", "programs"], "all trees and all visitors",
  "The one traversal test samples a few trees with one visitor; new node shapes and visitor behaviours are unbounded.",
  ["ast/walk.go"],
  [("type switch over all node types", "ast/walk.go Walk"), ("inspector adapter", "ast/walk.go Inspect")],
  ["sequence of Visit calls"])
p("C07", "Printing a tree shows every node, in order, and never panics on parser output",
  "Printing supports every node type as well as nil, and writes for each node its own text or its children in source order, leaving no child, argument or text out. Distinct node kinds print with distinct shapes.",
  I, "all trees",
  "The printing tests cover a fixed list of trees.",
  ["ast/ast.go"], [("type switch over all node types", "ast/ast.go Print")], ["bytes written by Print"])
p("C08", "Only the parser builds trees; consumers never modify them",
  "Once returned by the parser a syntax tree is never modified by the library: walking, inspecting, printing, measuring positions, laying out and rendering leave every node and list of it unchanged, and the library keeps no reference to a tree after the call returns.",
  ["inputs", "histories"], "all trees and all sequences of library calls on them",
  "No test looks at a tree after using it; aliasing writes (into a child list's spare capacity, say) depend on history.",
  ["ast/ast.go", "ast/walk.go", "mtex/parser.go"],
  [("no writes to tree types outside the parser", "ast/*, mtex/*")], ["the tree after the call"])
p("C09", "The parser and the layout agree on every macro's arguments",
  "Every macro that the layout gives a construct consuming arguments (fractions, binomials, roots, overlines, custom space) is known to the parser and is parsed with exactly the number, kinds and order of arguments that the construct consumes, so that laying out such a macro never indexes a missing argument or mistakes an optional for a mandatory one. Macros laid out as functions, spaces or plain symbols either take no argument or have every argument laid out or rejected.",
  ["inputs", "programs"], "all macros of the tables and all their uses",
  "The tables hold some 900 macros, the layout tests use about twenty of them.",
  ["macros.go", "mtex/parser.go", "mtex/macros.go"],
  [("argument specification table", "macros.go addBuiltinMacros, parseMacro"), ("handlers indexing arguments", "mtex/parser.go handle*")],
  ["layout result or error of any macro use"])
p("C10", "Layout drops nothing: every node of the tree yields its boxes, in order",
  "For every accepted expression, each character of a word or number, each symbol, each macro with its arguments and each nested group contributes its boxes to the laid out list, exactly once and in source order, and the list returned is made of all of them. A node kind or macro that has no layout is reported as an error instead of being skipped.",
  I, "all expressions",
  "Layout tests compare the total size of some forty expressions; a dropped or repeated piece in other nestings is not seen.",
  ["mtex/parser.go"],
  [("visitor over all node kinds", "mtex/parser.go Visit"), ("macro dispatch", "mtex/parser.go handler"), ("arguments laid out through the visitor", "mtex/parser.go handleNode")],
  ["box tree returned by mtex.Parse"])
p("C11", "Fractions and binomials place their operands as TeX does",
  "In a fraction the first argument is the numerator, centered above the rule, and the second the denominator, centered below it, both packed to the larger of their two widths and separated from the rule by the same space; the rule has the default line thickness in fractions and none in binomials. Operands are reduced one size step in text style (fraction, text fraction, binomial) and not in display style, a binomial is enclosed in parentheses sized to its content, and the stack is shifted so that the rule lies on the math axis, and followed by a small space.",
  I, "all numerators, denominators, fonts and sizes",
  "Tests check total sizes of a few fractions, which do not change when operands are swapped or misplaced within the same extent.",
  ["mtex/parser.go"], [("fraction builder", "mtex/parser.go genfrac, handleFrac, handleDFrac, handleTFrac, handleBinom, autoSizedDelimiter")],
  ["box tree of a fraction"])
p("C12", "Roots and overlines cover exactly their argument",
  "A root lays out its index, reduced two size steps and raised, before the radical sign, and its body after it under a rule; without index the same room is left empty. The radical is sized to the body's height and depth plus clearance, body and rule are packed to the radical's height and depth, and an overline places its argument under a rule with clearance above it, at the argument's own depth.",
  I, "all bodies and indices, with and without index",
  "Tests check total sizes of a few roots.",
  ["mtex/parser.go"], [("root and overline builders", "mtex/parser.go handleSqrt, handleOverline")],
  ["box tree of a root or overline"])
p("C13", "Symbols map to the Unicode characters their TeX names stand for",
  "Every TeX symbol name of the library maps to the Unicode code point that TeX and Unicode assign to it, in particular all Greek letters, operators, relations, arrows and delimiters; a name is looked up without its backslash; in math mode the hyphen is the minus sign and any other single character stands for itself, and outside math every single character stands for itself. A name that is not known is an error, never another character.",
  I, "all symbol names and all single characters",
  "Tests look up a handful of the more than 500 names.",
  ["internal/tex2unicode/utf8.go"], [("name table", "internal/tex2unicode/utf8.go tex2uni"), ("lookup", "internal/tex2unicode/utf8.go Index")],
  ["rune drawn for a symbol"])
p("C14", "Operators, relations, arrows and punctuation get their TeX class and spacing",
  "Every operator, relation, arrow, function name, delimiter and punctuation symbol belongs to its TeX class and to no contradictory one; binary operators, relations and arrows, and only these, are laid out with 0.2 em of space on both sides, except a binary operator directly after an opening brace, parenthesis, bracket or angle (one of { ( [ <, blanks aside), and a period is followed by 0.2 em unless it stands between two digits. Explicit space macros have TeX's widths in em (3/18, 4/18, 5/18, 6/18, 1/2, 1, 2 and -3/18), a custom space its argument's value, where an em is the advance of the letter m in the current size.",
  I, "all symbols of all classes in all contexts",
  "Tests lay out about ten of several hundred symbols.",
  ["mtex/symbols/symbols_gen.go", "mtex/symbols/symbols.go", "mtex/symbols/set.go", "mtex/parser.go"],
  [("symbol classes", "mtex/symbols"), ("spacing rules", "mtex/parser.go handleSymbol, handleSpace, makeSpace")],
  ["kerns in the box tree"])
p("C15", "Shrinking and growing scale all of a box by the same step, with a floor",
  "Shrinking a node by one level multiplies its dimensions, font size, glue width, kern, list shift and glue setting by the shrink factor, and does so recursively and exactly once for each child; after the last size level shrinking changes nothing any more. Growing multiplies the same quantities by the exact inverse of the shrink factor and gives back the level, so that shrinking and then growing above the floor restores the node.",
  ["inputs", "histories"], "all nodes and all sequences of shrink and grow",
  "Tests shrink single nodes once or twice; the floor needs seven steps and deep lists.",
  ["tex/box.go"], [("Shrink and Grow of every node type", "tex/box.go")], ["Width, Height, Depth of nodes; font size passed to the backend"])
p("C16", "Packed lists have exactly the dimensions of their contents",
  "A horizontal list is as wide as the sum of its items, and its height and depth are the largest of its items' (each list item moved by its own shift), running dimensions ignored; a vertical list's height adds up its items' heights and the depths between them, its depth is that of the last item, limited, with the excess going to the height, and its width is the largest of its items'. Packing to an exact size yields that size and packing with an addition the natural size plus it, and the difference to the natural size is what the list's glue takes up.",
  I, "all lists of all item types, sizes and nestings",
  "Tests pack about a dozen lists.",
  ["tex/box.go"], [("HPack, VPack and the per-item contributions", "tex/box.go")], ["Width, Height and Depth of packed lists"])
p("C17", "Output places every box where packing put it and restores its cursor",
  "Outputting a box tree renders every character, accent and rule of it exactly once, in order, at the running sum of the widths (in horizontal lists) or heights and depths (in vertical lists) of the items before it, offset by the given origin, the baseline and the shifts of the enclosing lists. Every item advances by the same amount that packing counted for it, glue by its natural width plus its share of the list's glue setting for the list's sign and order, and after a nested list position and baseline are as if that list were a plain box.",
  I, "all box trees",
  "The golden images of some expressions exercise few of the combinations of item types, shifts and glue.",
  ["tex/box.go"], [("Ship, horizontal and vertical output", "tex/box.go Call, hlistOut, vlistOut")], ["coordinates passed to the backend"])
p("C18", "Glue has TeX's orders and is set by the highest order present",
  "Each named glue has its TeX stretch and shrink amounts and orders, all within the range that packing tabulates, and an unknown name is refused. Packing adds up stretch and shrink per order, selects the highest order whose total is not zero, and sets sign, order and ratio so that ratio times total equals the missing or excess size; a list packed at natural size has no glue set. Centering surrounds its elements, unchanged and in order, with the same infinitely stretchable and shrinkable glue on both sides.",
  I, "all glue names and all mixtures of glue in lists",
  "Tests have a few lists with one or two kinds of glue.",
  ["tex/box.go"], [("NewGlue, determineOrder, setGlue, HCentered, VCentered", "tex/box.go")], ["GlueSet, GlueSign, GlueOrder"])
p("C19", "The canvas records every drawing operation and the renderers draw all of them",
  "The canvas keeps every glyph and rectangle with its exact coordinates and attributes in call order. Each renderer draws every recorded operation exactly once in that order at its recorded coordinates scaled by dpi/72, with the glyph's own font and size, refuses unknown operations, and reports write errors; rendering passes the laid out box's width and its height plus non-negative depth, in inches, to the renderer, together with the requested dpi, and draws nothing from outside the box tree.",
  I, "all sequences of drawing operations and all resolutions",
  "Golden images cover a few expressions at one resolution, for one of the renderers.",
  ["drawtex/canvas.go", "drawtex/drawimg/drawimg.go", "cmd/mtex-render/gio.go", "mtex/render.go", "font/ttf/ttf.go"],
  [("append-only operation list", "drawtex/canvas.go"), ("operation loops", "drawtex/drawimg/drawimg.go Render; cmd/mtex-render/gio.go Render"), ("size computation", "mtex/render.go Render")],
  ["operations of the canvas; drawing calls of the renderers"])
p("C20", "Font roles select the fonts they name",
  "The regular, italic, bold and bold-italic roles of every bundled font collection hold that style of that family, with the default role being the regular one, and the backend resolves the font types rm and regular, it, bf and default to the corresponding role of the collection it was given. In the italic type only letters are italic, everything else in the basic plane is upright, and glyphs are measured, kerned and drawn with the same resolved font.",
  ["inputs", "configurations"], "all font collections, types and symbols",
  "Tests use one hand-made collection; swapped roles go unnoticed as metrics of a few letters.",
  ["font/ttf/ttf.go", "font/lm/lm.go", "font/liberation/liberation.go", "cmd/mtex-render/fonts.go"],
  [("role tables", "font/ttf/ttf.go NewFrom; font/lm; font/liberation; cmd/mtex-render/fonts.go")], ["font of each glyph operation"])
p("C21", "Backend answers depend on the request only, not on earlier requests",
  "Metrics, kerning, x-height and rule thickness returned by a font backend, and the glyph it draws, are a function of the arguments of that call alone: whatever was asked before, and in whatever order, the answer is the same. Whatever a backend remembers is filed under everything it was computed from and is never altered afterwards.",
  ["histories"], "all sequences of requests to a backend",
  "Tests ask one backend few questions; a stale answer needs two requests that differ only in what the memo forgot.",
  ["font/ttf/ttf.go"], [("glyph memo and its key", "font/ttf/ttf.go getInfo, ttfKey")], ["results of Metrics, Kern, RenderGlyph"])
p("C22", "Metrics are coherent and proportional to the font size",
  "Of every glyph reported by the font backend the width is the extent of its ink horizontally, the height its extent vertically, and the iceberg its top edge, and all these lengths, its advance, kerning, x-height and the rule thickness are proportional to the font size for every face (the thickness also to the resolution). A character box takes its width from the glyph (from the advance for a blank), its height from the iceberg and its depth from the rest of the extent, so that height plus depth equals the glyph's extent; layout lengths derive only from such quantities.",
  I, "all glyphs, fonts and sizes",
  "Tests fix one or two sizes and a few letters.",
  ["font/ttf/ttf.go", "tex/box.go", "mtex/parser.go"], [("metrics computation", "font/ttf/ttf.go getInfo, XHeight, Kern, UnderlineThickness"), ("character boxes", "tex/box.go updateMetrics")],
  ["font.Metrics values; box dimensions"])
p("C23", "Independent calls share no mutable state and may run concurrently",
  "Parsing, laying out and rendering from several goroutines at once, each with its own canvas and renderer, is free of data races: package-level state is written only during initialization or under its once-guard, tables handed out are not modified by the library, and no call leaves state behind that another call can observe.",
  ["schedules", "histories"], "all interleavings of concurrent calls",
  "Tests are sequential, and a race needs a particular interleaving.",
  ["parser.go", "macros.go", "mtex/macros.go", "mtex/parser.go", "mtex/symbols/set.go", "internal/tex2unicode/utf8.go", "font/ttf/ttf.go", "font/lm/lm.go", "font/liberation/liberation.go"],
  [("tables initialized once, per-call parser state", "package variables of all packages"), ("once-guarded font collections", "font/lm, font/liberation")], ["race detector; results of concurrent calls"])
p("C24", "Results are a function of the inputs: no run-to-run variation",
  "Parsing, layout, drawing operations, rendered bytes and the lists of symbol names derived from sets do not depend on map iteration order, time, randomness, addresses, the environment or the number of calls made before; the same inputs give the same outputs in every run. Exempt are the wording of error messages and diagnostics, and the creation date among the metadata of a PDF file.",
  ["inputs", "histories"], "all inputs and all runs",
  "Map order varies from run to run; a test passes or fails by chance and only for the inputs it has.",
  ["mtex/parser.go", "mtex/symbols/set.go", "internal/tex2unicode/utf8.go", "macros.go", "font/ttf/ttf.go"],
  [("map iterations with order-independent effect", "set.go Keys, UnionOf; tex2unicode Symbols")], ["outputs of two runs"])
p("C25", "The library has no side effects beyond its results",
  "No library package (everything but the command) terminates the process, reads or writes files, environment, network or standard streams on its own, starts goroutines that outlive a call, or changes process-wide settings; output goes only to the writers, canvases, renderers and file names that the caller passes in. Diagnostics through the standard logger are the only exception.",
  ["inputs", "programs"], "all calls of the library",
  "Tests do not watch the process for effects, and an effect can hide on an error path.",
  ["parser.go", "ast/ast.go", "mtex/render.go", "tex/box.go", "font/ttf/ttf.go", "drawtex/drawimg/drawimg.go"],
  [("absence of calls to effectful functions", "all library packages")], ["process state after any call"])
p("C26", "The command renders what was asked, where it was asked, or fails",
  "The command renders its single argument with the font size and resolution given by its flags to the file named by its output flag, which defaults to out.png at 72 dpi and 12 points, and opens the window instead only when asked to. Every failure (a wrong number of arguments, creating, rendering to or closing the output file) ends it with a non-zero status and a message on standard error, and success is reported only after the output was written and closed.",
  ["inputs", "fault_sequences"], "all command lines and all failures of file operations",
  "The command has no test; failures of file operations are hard to provoke.",
  ["cmd/mtex-render/main.go"], [("flag handling and error checks", "cmd/mtex-render/main.go main")], ["exit status and output file"])
p("C27", "Every error is handled; none is dropped or replaced by success",
  "Whenever an operation that the library or command performs reports an error, that error is returned, wrapped, or turned into a failure before the result of the operation is used, and a function that fails returns a non-nil error. Wrapping keeps the cause visible in the message. Exempt are functions that have no way to report (the printing of trees, and the callbacks that draw the window, which keep what they last showed), the closing of files and faces on the way out, and an error that the called library documents as meaning an absent value, which the caller tests for by name.",
  ["inputs", "fault_sequences"], "all failing operations at all call sites",
  "Tests inject no faults: fonts parse, writers accept, and files open.",
  ["mtex/parser.go", "mtex/render.go", "font/ttf/ttf.go", "drawtex/drawimg/drawimg.go", "drawtex/drawpdf/drawpdf.go", "cmd/mtex-render/main.go", "font/lm/lm.go", "font/liberation/liberation.go"],
  [("error checks after each fallible call", "all packages")], ["error results under faults"])
p("C28", "Kerning and sized characters are inserted as the font dictates",
  "A kerned horizontal list holds its elements in order, each followed by a kern equal to the element's own kerning towards its right neighbour (towards nothing for the last) whenever that is not zero; a character's kerning is its advance minus its width plus the font's kerning with the next character. An automatically sized character is scaled so that its height and depth together match the requested ones, unless a factor is given, and shifted to the requested depth; accents are drawn at their ink's origin.",
  I, "all lists and characters",
  "Tests have a few kerned lists of fixed characters.",
  ["tex/box.go"], [("kern insertion", "tex/box.go kern, HListOf, Kerning"), ("sized characters", "tex/box.go AutoHeightChar")], ["children of horizontal lists; backend calls"])

# ---- not decidable by this family
p("N01", "Rendered pixels match the reference rendering",
  "The image written for an expression is pixel for pixel what the reference implementation draws for it.",
  I, "all expressions", "Golden images sample a few expressions.",
  ["drawtex/drawimg/drawimg.go"], [("rasterization in a dependency", "drawtex/drawimg")])
p("N02", "All ink lies inside the image",
  "No glyph or rule of a rendered expression extends outside the image that holds it.",
  I, "all expressions, fonts and sizes", "Golden images sample a few expressions.",
  ["mtex/render.go"], [("image size from box size", "mtex/render.go")])
p("N03", "Layout metrics equal those of the reference implementation",
  "For every expression, width, height and depth of the layout equal the reference implementation's to within rounding.",
  I, "all expressions", "Tests compare about forty expressions with recorded reference values.",
  ["mtex/parser.go", "tex/box.go"], [("transcription of the reference algorithms", "mtex, tex")])
p("N04", "Parsing takes time linear in the input",
  "The time and memory to parse and lay out an expression grow linearly with its length.",
  I, "all inputs", "No test measures cost.",
  ["parser.go", "mtex/parser.go"], [("single pass", "parser.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
