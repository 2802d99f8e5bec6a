P = "package latex\n\n"
TIMEOUT = '''
func within(t *testing.T, f func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not terminate")
	}
}
'''
AST = '''package ast

import (
	"bytes"
	"fmt"
	"testing"
)

var _ = fmt.Sprint
var _ = bytes.Equal
'''
MT = '''package mtex

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/tex"
)

var _ tex.Node

// ops lays out an expression and draws it.
func ops(t *testing.T, expr string) []drawtex.Op {
	t.Helper()
	cnv := drawtex.New()
	box, err := Parse(expr, 12, 72, ttf.NewFrom(cnv, lm.Fonts()))
	if err != nil {
		t.Fatal(err)
	}
	var ship tex.Ship
	ship.Call(0, 0, box.(tex.Tree))
	return cnv.Ops()
}

func glyph(t *testing.T, ops []drawtex.Op, sym string) drawtex.GlyphOp {
	t.Helper()
	for _, op := range ops {
		if g, ok := op.(drawtex.GlyphOp); ok && g.Glyph.Symbol == sym {
			return g
		}
	}
	t.Fatalf("no glyph %q", sym)
	return drawtex.GlyphOp{}
}
'''
TEX = '''package tex

import (
	"math"
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
)

var _ = math.Inf

func newState() (State, *drawtex.Canvas) {
	cnv := drawtex.New()
	return NewState(ttf.New(cnv), font.Font{Name: "default", Size: 12, Type: "rm"}, 72), cnv
}
'''
SEEDS = [
dict(id="c01-comment-return", prop="C01", pkg=".", edits=[("scanner.go", "		if s.r == '\\r' {\n			continue\n		}\n", "		for s.r == '\\r' && s.sc.Peek() != '\\n' {\n			if s.sc.Peek() == '\\r' {\n				s.next()\n			}\n		}\n")],
 needs="a carriage return inside a comment",
 breaks="the loop that skips carriage returns in a comment consumes none when there is only one: the scanner hangs",
 demo=P+'import (\n\t"testing"\n\t"time"\n)\n'+TIMEOUT+'''
func TestDemo(t *testing.T) {
	within(t, func() { ParseExpr("x % comment\\ny") })
	within(t, func() { ParseExpr("x % comment\\rmore\\ny") })
}
'''),
dict(id="c01-operand-loop", prop="C01", pkg=".", edits=[("parser.go", "	case token.Lbrace:\n		switch p.state {\n		case mathState:\n			return p.parseMathLbrace(tok)", "	case token.Lbrace:\n		switch p.state {\n		case mathState:\n			for p.s.sc.Peek() == ' ' {\n				p.s.sc.Peek()\n			}\n			return p.parseMathLbrace(tok)")],
 needs="a blank right after the opening brace of a group inside math",
 breaks="a loop meant to skip blanks only looks at the next character and never consumes it: the parser hangs",
 demo=P+'import (\n\t"testing"\n\t"time"\n)\n'+TIMEOUT+'''
func TestDemo(t *testing.T) {
	within(t, func() { ParseExpr("${ab}$") })
	within(t, func() { ParseExpr("${ ab}$") })
}
'''),
dict(id="c02-bracket-closes-brace", prop="C02", pkg=".", edits=[("parser.go", "		case token.Rbrace:\n			arg.Rbrace = p.s.tok.Pos", "		case token.Rbrace, token.Rbrack:\n			arg.Rbrace = p.s.tok.Pos")],
 needs="a macro argument holding a closing bracket before its closing brace",
 breaks="a mandatory argument is taken to be closed by a bracket",
 demo=P+'''import "testing"

func TestDemo(t *testing.T) {
	if _, err := ParseExpr("$\\\\overline{x]$"); err == nil {
		t.Fatal("argument closed by a bracket accepted")
	}
	if _, err := ParseExpr("$\\\\overline{x}$"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="c03-optarg-scratch", prop="C03", pkg=".", edits=[
 ("parser.go", "	macros map[string]macroParser\n}", "	macros map[string]macroParser\n	opts   ast.List // scratch space for optional arguments\n}"),
 ("parser.go", "	var opt ast.OptArg\n", "	opt := ast.OptArg{List: p.opts[:0]}\n"),
 ("parser.go", "	macro.Args = append(macro.Args, &opt)\n", "	macro.Args = append(macro.Args, &opt)\n	p.opts = opt.List\n")],
 needs="two macros with optional arguments in one expression: the second overwrites the first one's children",
 breaks="optional arguments share their backing array, so an earlier one ends up with the nodes of a later one",
 demo=P+'''import (
	"bytes"
	"strings"
	"testing"

	"github.com/go-latex/latex/ast"
)

func TestDemo(t *testing.T) {
	n, err := ParseExpr("$\\\\sqrt[3]{a}+\\\\sqrt[4]{b}$")
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	ast.Print(&buf, n)
	if s := buf.String(); !strings.Contains(s, "\\"3\\"") || !strings.Contains(s, "\\"4\\"") {
		t.Fatal(s)
	}
}
'''),
dict(id="c04-word-runes", prop="C04", pkg="ast", edits=[
 ("ast/ast.go", "func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len(x.Text)) }", "func (x *Word) End() token.Pos { return token.Pos(int(x.WordPos) + len([]rune(x.Text))) }")],
 needs="a word with characters outside ASCII",
 breaks="the end of a word counts characters instead of bytes",
 demo=AST+'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"abc", "caf\\u00e9", "\\u03b1\\u03b2"} {
		w := &Word{WordPos: 3, Text: s}
		if int(w.End()) != 3+len(s) {
			t.Fatalf("%q: end %d", s, w.End())
		}
	}
}
'''),
dict(id="c05-layout-nested-math", prop="C05", pkg="mtex", edits=[("mtex/parser.go", "		v.math = oldm\n", "		v.math = oldm && n.Delim != \"$\"\n")],
 needs="a math expression nested in a math expression, with something after it",
 breaks="after a nested math expression the layout goes on in text mode although it is still inside math",
 demo=MT+'''
func TestDemo(t *testing.T) {
	// a hyphen in math is a minus sign
	glyph(t, ops(t, "$a-b$"), "\\u2212")
	glyph(t, ops(t, "${$a$}-b$"), "\\u2212")
}
'''),
dict(id="c05-parser-nested-math", prop="C05", pkg=".", edits=[("parser.go", "	state := p.state\n	p.state = mathState\n", "	p.state = mathState\n"), ("parser.go", "		p.state = state\n", "		p.state = normalState\n")],
 needs="a math expression nested in a group of a math expression, with a blank after it",
 breaks="after a nested math expression blanks count as significant although the parser is still inside math",
 demo=P+'''import (
	"bytes"
	"strings"
	"testing"

	"github.com/go-latex/latex/ast"
)

func TestDemo(t *testing.T) {
	for _, x := range []string{"$a b$", "${$a$} b$"} {
		n, err := ParseExpr(x)
		if err != nil {
			t.Fatal(err)
		}
		var buf bytes.Buffer
		ast.Print(&buf, n)
		if strings.Contains(buf.String(), "\\" \\"") {
			t.Fatal(buf.String())
		}
	}
}
'''),
dict(id="c06-sub-skips-list", prop="C06", pkg="ast", edits=[("ast/walk.go", "	case *Sub:\n		Walk(v, n.Node)\n", "	case *Sub:\n		if l, ok := n.Node.(List); ok {\n			walkNodes(v, l)\n		} else {\n			Walk(v, n.Node)\n		}\n")],
 needs="a subscript whose operand is a braced group",
 breaks="the list node of a braced subscript is never handed to the visitor",
 demo=AST+'''
func TestDemo(t *testing.T) {
	lists := 0
	Inspect(&Sub{Node: List{&Word{Text: "a"}}}, func(n Node) bool {
		if _, ok := n.(List); ok {
			lists++
		}
		return true
	})
	if lists != 1 {
		t.Fatalf("list visited %d times", lists)
	}
}
'''),
dict(id="c07-long-words", prop="C07", pkg="ast", edits=[("ast/ast.go", '"ast.Word{%q}"', '"ast.Word{%.32q}"')],
 needs="a word of more than 32 characters",
 breaks="long words are printed truncated",
 demo=AST+'''
func TestDemo(t *testing.T) {
	s := "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"
	var buf bytes.Buffer
	Print(&buf, &Word{Text: s})
	if !bytes.Contains(buf.Bytes(), []byte(s)) {
		t.Fatal(buf.String())
	}
}
'''),
dict(id="c10-unknown-node-skipped", prop="C10", pkg="mtex", edits=[("mtex/parser.go", '		panic(fmt.Errorf("unknown ast node %T", n))\n', '		return nil // nothing to lay out\n')],
 needs="a node kind without a layout, a superscript say",
 breaks="nodes without a layout are dropped silently instead of being reported",
 demo=MT+'''
func TestDemo(t *testing.T) {
	cnv := drawtex.New()
	if _, err := Parse("$a^2b$", 12, 72, ttf.New(cnv)); err == nil {
		if len(ops(t, "$a^2b$")) < 3 {
			t.Fatal("superscript lost without an error")
		}
	}
}
'''),
dict(id="c11-narrow-numerator", prop="C11", pkg="mtex", edits=[("mtex/parser.go", "	cnum.HPack(width, additional)\n", "	cnum.HPack(num.Width(), additional)\n")],
 needs="a fraction whose denominator is wider than its numerator",
 breaks="a numerator narrower than the denominator is left-aligned instead of centered",
 demo=MT+'''
func TestDemo(t *testing.T) {
	o := ops(t, "$\\\\frac{1}{abcdefgh}$")
	if one, a := glyph(t, o, "1"), glyph(t, o, "a"); one.X < a.X+3 {
		t.Fatalf("numerator at %v, denominator at %v", one.X, a.X)
	}
}
'''),
dict(id="c12-overline-depth", prop="C12", pkg="mtex", edits=[("mtex/parser.go", "	height := body.Height() - body.Shift() + 3*thickness\n	depth := body.Depth() + body.Shift()\n", "	height := body.Height() - body.Shift() + 3*thickness\n	depth := math.Min(body.Depth()+body.Shift(), thickness)\n"),
  ("mtex/parser.go", 'func handleOverline(p *parser, node ast.Node, state tex.State, math bool) tex.Node {', 'func handleOverline(p *parser, node ast.Node, state tex.State, mathMode bool) tex.Node {'),
  ("mtex/parser.go", '''		ast.List(macro.Args[0].(*ast.Arg).List),
		state, math,
	).(*tex.HList)

	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	height := body.Height() - body.Shift() + 3*thickness''', '''		ast.List(macro.Args[0].(*ast.Arg).List),
		state, mathMode,
	).(*tex.HList)

	thickness := state.Backend().UnderlineThickness(state.Font, state.DPI)

	height := body.Height() - body.Shift() + 3*thickness''')],
 needs="an overlined argument that reaches below the baseline",
 breaks="the depth of an overline is limited to the rule thickness, so descenders push its box and rule out of place",
 demo=MT+'''
func TestDemo(t *testing.T) {
	depth := func(x string) float64 {
		box, err := Parse(x, 12, 72, ttf.NewFrom(drawtex.New(), lm.Fonts()))
		if err != nil {
			t.Fatal(err)
		}
		return box.Depth()
	}
	if a, b := depth("$g$"), depth("$\\\\overline{g}$"); a != b {
		t.Fatalf("depth %v, overlined %v", a, b)
	}
}
'''),
dict(id="c13-fallingdotseq", prop="C13", pkg="internal/tex2unicode", edits=[("internal/tex2unicode/utf8.go", "		`fallingdotseq`:            0x2252,\n", "		`fallingdotseq`:            0x2253,\n")],
 needs="the symbol \\fallingdotseq",
 breaks="a symbol name maps to the code point of its mirror image",
 demo='''package tex2unicode

import "testing"

func TestDemo(t *testing.T) {
	if r := Index("\\\\fallingdotseq", true); r != 0x2252 {
		t.Fatalf("%U", r)
	}
}
'''),
dict(id="c14-trailing-decimal", prop="C14", pkg="mtex", edits=[("mtex/parser.go", "				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {", "				(pos < len(p.expr)-2 && isdigit(p.expr[pos+1])) {")],
 needs="a decimal number at the very end of the expression with one digit after the point",
 breaks="the decimal point of a number that ends the expression is spaced like a full stop",
 demo=MT+'''
func TestDemo(t *testing.T) {
	width := func(x string) float64 {
		box, err := Parse(x, 12, 72, ttf.NewFrom(drawtex.New(), lm.Fonts()))
		if err != nil {
			t.Fatal(err)
		}
		return box.Width()
	}
	if a, b := width("1.2"), width("1.2%"); a != b {
		t.Fatalf("width %v, %v", a, b)
	}
}
'''),
dict(id="c15-grow-shift", prop="C15", pkg="tex", edits=[("tex/box.go", "	lst.box.Grow()\n	lst.shift *= growFactor\n", "	lst.box.Grow()\n")],
 needs="a shifted list that is grown",
 breaks="growing a list leaves its shift at the smaller size",
 demo=TEX+'''
func TestDemo(t *testing.T) {
	l := VListOf([]Node{HBox(1)})
	l.SetShift(4)
	l.Shrink()
	l.Grow()
	if math.Abs(l.lst.shift-4) > 1e-9 {
		t.Fatal(l.lst.shift)
	}
}
'''),
dict(id="c16-half-running", prop="C16", pkg="tex", edits=[("tex/box.go", "	if math.IsInf(box.height, 0) || math.IsInf(box.depth, 0) {", "	if math.IsInf(box.height, 0) && math.IsInf(box.depth, 0) {")],
 needs="a rule in a horizontal list with only one of height and depth running",
 breaks="a single running dimension makes the list infinitely high or deep",
 demo=TEX+'''
func TestDemo(t *testing.T) {
	st, _ := newState()
	l := HListOf([]Node{VBox(3, 2), NewRule(1, math.Inf(+1), 1, st)}, false)
	if l.Height() != 3 || l.Depth() != 2 {
		t.Fatal(l.Height(), l.Depth())
	}
}
'''),
dict(id="c17-nested-vlist-edge", prop="C17", pkg="tex", edits=[("tex/box.go", "				ship.vlistOut(node)\n				ship.cur.v = curV + node.Depth()\n				ship.cur.h = leftEdge\n", "				ship.vlistOut(node)\n				ship.cur.v = curV + node.Depth()\n")],
 needs="a shifted vertical list inside a vertical list, followed by a rule",
 breaks="after a nested vertical list what follows is drawn at that list's shifted left edge",
 demo=TEX+'''
func TestDemo(t *testing.T) {
	st, cnv := newState()
	in := VListOf([]Node{NewRule(2, 1, 1, st)})
	in.SetShift(5)
	l := HListOf([]Node{VListOf([]Node{in, NewRule(2, 1, 1, st)})}, false)
	var ship Ship
	ship.Call(0, 0, l)
	var xs []float64
	for _, op := range cnv.Ops() {
		if r, ok := op.(drawtex.RectOp); ok {
			xs = append(xs, r.X1)
		}
	}
	if len(xs) != 2 || xs[0] != 5 || xs[1] != 0 {
		t.Fatal(xs)
	}
}
'''),
dict(id="c18-negative-total", prop="C18", pkg="tex", edits=[("tex/box.go", "		if totals[i] != 0 {\n", "		if totals[i] > 0 {\n")],
 needs="a list that has to shrink and whose glue has a negative shrink amount, as that of centering",
 breaks="orders with a negative total are not seen, so an overfull centered list does not shrink",
 demo=TEX+'''
func TestDemo(t *testing.T) {
	l := HCentered([]Node{HBox(10)})
	l.HPack(6, false)
	if l.GlueOrder() != 1 || l.GlueSet() != 2 {
		t.Fatal(l.GlueOrder(), l.GlueSet())
	}
}
'''),
dict(id="c22-whole-points", prop="C22", pkg="font/ttf", edits=[("font/ttf/ttf.go", "		xmin   = scale * float64(bnds.Min.X) / 64\n", "		xmin   = math.Trunc(scale*float64(bnds.Min.X)) / 64\n"),("font/ttf/ttf.go", "func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, math bool) ttfVal {", "func (be *Backend) getInfo(symbol string, fnt font.Font, dpi float64, mathMode bool) ttfVal {"),("font/ttf/ttf.go", "be.getGlyph(symbol, fnt, math)", "be.getGlyph(symbol, fnt, mathMode)")],
 needs="a glyph whose left bearing is not a whole number of 1/64 points at the size asked for",
 breaks="the left edge of glyphs is rounded, so widths are not proportional to the font size",
 demo='''package ttf

import (
	"math"
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
)

func TestDemo(t *testing.T) {
	be := New(drawtex.New())
	for _, s := range []string{"a", "b", "A", "j", "W"} {
		a := be.Metrics(s, font.Font{Name: "default", Size: 12, Type: "rm"}, 72, true)
		b := be.Metrics(s, font.Font{Name: "default", Size: 8.4, Type: "rm"}, 72, true)
		if math.Abs(a.XMin*0.7-b.XMin) > 1e-9 || math.Abs(a.Width*0.7-b.Width) > 1e-9 {
			t.Fatalf("%s: %v %v", s, a, b)
		}
	}
}
'''),
dict(id="c28-accent-font", prop="C28", pkg="tex", edits=[("tex/box.go", "		kern = c.be.Kern(c.font, c.c, next.char.font, next.char.c, c.dpi)", "		kern = c.be.Kern(c.font, c.c, c.font, next.char.c, c.dpi)")],
 needs="a character followed by an accent in another font",
 breaks="the kerning of a character with an accent ignores the accent's font",
 demo=TEX+'''
type be struct{ font.Backend }

func (be) Kern(f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if f1.Size != f2.Size {
		return 0
	}
	return -1
}

func TestDemo(t *testing.T) {
	st, _ := newState()
	b := be{st.Backend()}
	s1 := NewState(b, st.Font, 72)
	fnt := st.Font
	fnt.Size = 6
	s2 := NewState(b, fnt, 72)
	c, a := NewChar("A", s1, false), NewAccent("V", s2, false)
	if k := c.Kerning(a); k != c.metrics.Advance-c.Width() {
		t.Fatal(k)
	}
}
'''),
]
