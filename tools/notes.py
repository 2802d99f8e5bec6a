#!/usr/bin/env python3
"""Writes tools/claimed.json: per claimed property the deciding technique, and
what it decides, within what bounds, on what assumptions."""
import json, os
MODEL = "abstract interpretation of the SSA form to gated value graphs, compared with reference models"
SEM = " Trusted: go/types, go/ssa, the checker's evaluator and normal forms."
REAL = " Real arithmetic stands for float64."
C = {}
def c(i, technique, note): C[i] = {"technique": technique, "note": note + SEM}
c("C01", "call-graph and loop analyses (recover dominance, loop ranking, descent of recursion) over SSA and value graphs",
  "Every panic reachable from the entry points is under a recover that turns it into a non-nil error with a nil tree or box. Every loop of the parser, layout, box model, scanner and renderers is counted, ranges over a finite value, or consumes input by a ranking argument; recursion goes down in depth-bounded trees. Trusted besides: termination of the standard library, x/text, x/image, gg and fpdf. Memory exhaustion is out of scope, as the statement says.")
c("C02", MODEL, "For every kind of opened construct (math, brace, optional and mandatory argument, script, root, one and two arguments), in math and in text, the value graph of the parser over a symbolic token stream equals a model in which a group is ended by its own delimiter only and anything else is an error. Nested parses are summarised by their contract (induction on the input), so all nestings and truncations are covered. Tokenisation of Go's text/scanner is an uninterpreted stream.")
c("C03", MODEL, "For every class of first token and every macro name of the reference tables, the tree built over a symbolic token stream equals the model's: node kind, text, children in order; tokens of the scanner over symbolic pieces of text/scanner likewise. Nested parses by contract (induction). What text/scanner itself takes for one number or word is trusted.")
c("C04", MODEL, "Pos and End of every node kind, and the positions the parser and scanner store, equal the model's for symbolic offsets and texts. Nested nodes by contract. Offsets reported by text/scanner are trusted.")
c("C05", MODEL, "The mode in which nested nodes and following blanks are parsed, and the mode and font type in which nodes are laid out, equal the model's for every kind of construct, starting from an arbitrary mode and font; nested parses and walks by contract that the mode is as before after them, which is itself an obligation for each construct.")
c("C06", MODEL, "For each node kind, with symbolic children and an uninterpreted visitor, the sequence of Visit calls and nested walks equals the model's, loops over children included; a node kind outside the list panics. Induction on the tree covers all trees.")
c("C07", MODEL + "; leading text of the traces compared pairwise", "For each node kind, with symbolic children and texts, what is written equals the model's sequence of texts and nested prints. That no two kinds start alike is read off the traces.")
c("C08", "effect and escape analysis over SSA: origins of references, per-function modification and retention summaries",
  "Every store, append, copy, delete and map update of the module whose target may be (part of) a tree is in the parser's own construction of a fresh node; no package variable, no result of another call keeps a tree. Class-hierarchy call graph; a visitor given by the caller may do what it likes. Trusted besides: other modules do not modify trees handed to them as formatted values.")
c("C09", "abstract interpretation of parser and layout to gated value graphs; bounds and kinds of argument accesses decided per macro",
  "For every macro name the library or the reference tables mention, the parser's node (kinds of arguments) is derived from the parser's value graph and the layout is analysed on exactly that node: every index into the arguments is in range, no kind is mistaken, every argument reaches the output or the macro is refused. Names outside that finite set take the default path of both, which is analysed too.")
c("C10", MODEL, "For every node kind (and every class of symbol, macro and function name) the boxes appended to the list laid out equal the model's, with nested walks by contract; Parse returns the packed list of all of them; kinds without layout are errors. Symbols by the tables of the tree, evaluated from source.")
c("C11", MODEL, "The box tree of each fraction macro, for symbolic operands, font, size and state, equals the model's. Box constructors are uninterpreted here (their laws are C15, C16, C18, C28)." + REAL)
c("C12", MODEL, "The box tree of roots (with and without index) and overlines, for symbolic operands and state, equals the model's. Box constructors are uninterpreted here." + REAL)
c("C13", MODEL + " (tables evaluated from source, name by name)", "Every name of the library's table and of an independent table of TeX names is looked up by the value graph of Index in the table as initialised in source; single characters and unknown names symbolically. The independent table was written from TeX's and Unicode's documentation.")
c("C14", MODEL + " (tables evaluated from source, name by name)", "For every symbol of every class of an independent table, the value graph of the layout of that symbol, in a symbolic context (state, neighbours), equals the model's: same boxes, same kerns. Tables are evaluated from source." + REAL)
c("C15", MODEL, "For every node kind with symbolic dimensions, level and children, the heap after Shrink and Grow equals the model's; children by contract, exactly once each. That construction starts at level 0 is checked, so that sequences follow by induction." + REAL)
c("C16", MODEL, "Dimensions after HPack, VPack and the constructors equal the model's for symbolic lists of items of any of the library's kinds (loops are compared as folds)." + REAL)
c("C17", MODEL, "One level of output of horizontal and vertical lists over a symbolic list of items: every call of the backend with its coordinates, the nested output (by contract) and the cursor afterwards equal the model's; loops are compared as folds." + REAL)
c("C18", MODEL, "NewGlue for every name and symbolically for others; glue setting of both packings for symbolic lists; centering for symbolic elements." + REAL)
c("C19", MODEL + "; completeness of loops over operations by dataflow", "Canvas methods on a symbolic canvas; drawimg's drawing calls for a symbolic list of operations, Render for a symbolic box. Every function of the module that ranges over operations (window, PDF) must pass every field of every operation on to a drawing call in a loop without early exit. Trusted besides: gg, opentype and png draw what they are asked." + REAL)
c("C20", MODEL + "; font tables traced to the embedded data they parse", "The role of each field of the collections is traced to the font data variable it parses; the backend's resolution for every font type and a symbolic symbol equals the model's. Trusted besides: the data packages of x/image and lm-fonts hold what their names say.")
c("C21", MODEL + " (two requests, pairwise)", "After any one earlier request, which agrees with the later one in all but at most one argument (each argument in turn, of each method), the answer equals a fresh backend's. A longer history is covered as far as the backend's only memory is its maps of finished answers, whose entries the comparison shows to be functions of their key; mutable state of other kinds shows up as a difference after one request. One known finding (mode).")
c("C22", MODEL, "Metrics, kerning, x-height and thickness for a symbolic glyph of a font of a symbolic em equal expressions in the em-relative quantities of the font library, linear in the size; character boxes as modelled. Hinting is off, so scaled outlines are taken as proportional (rounding aside)." + REAL + " One known finding (advance).")
c("C23", "effect analysis over SSA: origins of references, modification summaries, once-guards by dominance",
  "Every write to package-level state, or to what it refers to, is in an initialiser or dominated by the once-guard that readers go through; tables handed out are not modified. Trusted besides: sync.Once and the concurrency guarantees documented by other modules (regexp, unicode tables, sfnt.Font with its own Buffer).")
c("C24", "order-insensitivity analysis of loops over maps with taint of unsorted lists, deny rules and effect analysis over SSA",
  "Loops over maps must commute (keyed writes, counters, sorted afterwards, or all-equal picks); no clock, randomness, environment, address formatting, select or package-level memory. Exempt: texts of errors and logs, the creation date of a PDF. Trusted besides: other modules are deterministic apart from a deny list.")
c("C25", "effect analysis over SSA: calls and package variables of other modules, argument provenance, typestate of scanners",
  "Every call and package variable of another module is classified by a reviewed table; a function outside of the table that may have effects is reported, unless it is of a package known to have none. Files are opened only under names the caller passed in; text scanners get an error handler before they are used. Loggers are exempt as the statement says.")
c("C26", "abstract interpretation of main with flags, files and rendering as events; guards of success and trace of events compared with what is required",
  "The condition under which main (and what it starts) ends with success, and the events before, as functions of symbolic flags, arguments and failures, equal what is required. Trusted besides: flag, os, log and app do as documented.")
c("C27", "error-flow analysis over gated value graphs of every function with fallible calls",
  "For every call with an error result in the library and the command: if it fails, no other result of it is used, the function does not report success, and what it reports mentions the failure. Exemptions are those in the statement.")
c("C28", MODEL, "Children of kerned lists for symbolic elements and a symbolic backend; sized characters and accents for symbolic metrics, requested sizes and factors." + REAL)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claimed.json")
json.dump(C, open(out, "w"), indent=1)
open(out, "a").write("\n")
