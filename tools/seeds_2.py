import importlib.util, os
_s = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
P, MT, TEX, AST = _m.P, _m.MT, _m.TEX, _m.AST
CMD = '''package main

import (
	"bytes"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

var _ = bytes.Equal
var _ = png.Decode

// run builds the command and runs it in a scratch directory.
func run(t *testing.T, dir string, args ...string) (string, error) {
	t.Helper()
	exe := filepath.Join(t.TempDir(), "mtex-render")
	if out, err := exec.Command("go", "build", "-o", exe, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	return string(out), err
}

var _ = os.Stat
'''
TTF = '''package ttf

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
)

func rm(size float64) font.Font { return font.Font{Name: "default", Size: size, Type: "rm"} }
'''
SEEDS = [
dict(id="c08-print-delim", prop="C08", pkg="ast", edits=[("ast/ast.go", '		fmt.Fprintf(o, "ast.MathExpr{")\n', '		if node.Delim == `\\(` {\n			node.Delim = "$" // one spelling of inline math.\n		}\n		fmt.Fprintf(o, "ast.MathExpr{")\n')],
 needs="a tree holding a math expression delimited by \\(, printed and then measured",
 breaks="printing a tree changes the delimiter kept in it, and with it the end position",
 demo=AST+'''
func TestDemo(t *testing.T) {
	n := &MathExpr{Delim: `\\(`, Left: 0, Right: 5}
	end := n.End()
	Print(new(bytes.Buffer), n)
	if n.End() != end || n.Delim != `\\(` {
		t.Fatal(n.Delim, n.End())
	}
}
'''),
dict(id="c08-tree-cache", prop="C08", pkg=".", edits=[
 ("parser.go", '	"strings"\n\n	"github.com/go-latex/latex/ast"\n', '	"strings"\n	"sync"\n\n	"github.com/go-latex/latex/ast"\n'),
 ("parser.go", "// ParseExpr parses a simple LaTeX expression.\n", "// parsed holds the trees of the expressions parsed so far.\nvar parsed sync.Map\n\n// ParseExpr parses a simple LaTeX expression.\n"),
 ("parser.go", "	p := newParser(x)\n	return p.parse()\n", "	if n, ok := parsed.Load(x); ok {\n		return n.(ast.Node), nil\n	}\n	p := newParser(x)\n	node, err = p.parse()\n	parsed.Store(x, node)\n	return node, err\n")],
 needs="the same expression parsed twice, and a caller that changes its tree",
 breaks="parsed trees are kept and handed out again, so callers share one tree",
 demo=P+'''import (
	"testing"

	"github.com/go-latex/latex/ast"
)

func TestDemo(t *testing.T) {
	a, err := ParseExpr("x+y")
	if err != nil {
		t.Fatal(err)
	}
	a.(ast.List)[0].(*ast.Word).WordPos = 7
	b, err := ParseExpr("x+y")
	if err != nil {
		t.Fatal(err)
	}
	if b.Pos() != 0 {
		t.Fatal("two calls share one tree")
	}
}
'''),
dict(id="c09-optional-overline", prop="C09", pkg="mtex", edits=[("macros.go", '		`\\overline`:     builtinMacro("A"),', '		`\\overline`:     builtinMacro("OA"),')],
 needs="an overline given an optional argument",
 breaks="the parser accepts an optional argument that the layout takes for the mandatory one",
 demo=MT+'''
func TestDemo(t *testing.T) {
	glyph(t, ops(t, "$\\\\overline{x}$"), "x")
	cnv := drawtex.New()
	_, err := Parse("$\\\\overline[2]{x}$", 12, 72, ttf.NewFrom(cnv, lm.Fonts()))
	if err == nil {
		glyph(t, ops(t, "$\\\\overline[2]{x}$"), "x")
	} else if want := "expected"; !contains(err.Error(), want) {
		t.Fatal(err)
	}
}

func contains(s, sub string) bool {
	for i := range s {
		if len(s)-i >= len(sub) && s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}
'''),
dict(id="c09-quad-length", prop="C09", pkg="mtex", edits=[("macros.go", '		`\\qquad`:  builtinMacro(""),', '		`\\qquad`:  builtinMacro("O"),')],
 needs="a bracket right after \\qquad",
 breaks="the bracketed text after a space macro is taken as its argument and never laid out",
 demo=MT+'''
func TestDemo(t *testing.T) {
	be := ttf.NewFrom(drawtex.New(), lm.Fonts())
	for _, expr := range []string{"$a\\\\quad[b]$", "$a\\\\qquad[b]$"} {
		if _, err := Parse(expr, 12, 72, be); err == nil {
			glyph(t, ops(t, expr), "b")
		}
	}
}
'''),
dict(id="c19-twice-drawn", prop="C19", pkg="drawtex", edits=[("drawtex/canvas.go", '''	c.ops = append(c.ops, RectOp{x1, y1, x2, y2})
''', '''	op := RectOp{x1, y1, x2, y2}
	for i := len(c.ops) - 1; i >= 0; i-- {
		if c.ops[i] == op {
			return // already drawn
		}
	}
	c.ops = append(c.ops, op)
''')],
 needs="the same rectangle drawn twice on one canvas",
 breaks="a drawing operation equal to an earlier one is not recorded",
 demo='''package drawtex

import "testing"

func TestDemo(t *testing.T) {
	c := New()
	c.RenderRectFilled(0, 0, 1, 1)
	c.RenderGlyph(0, 0, Glyph{Symbol: "a"})
	c.RenderRectFilled(0, 0, 1, 1)
	if n := len(c.Ops()); n != 3 {
		t.Fatal(n)
	}
}
'''),
dict(id="c19-hairline", prop="C19", pkg="drawtex/drawimg", edits=[("drawtex/drawimg/drawimg.go", '''	dpi /= 72
	ctx.NewSubPath()
''', '''	dpi /= 72
	if (op.X2-op.X1)*dpi < 1 {
		return
	}
	ctx.NewSubPath()
''')],
 needs="a rectangle narrower than a pixel",
 breaks="narrow rectangles are not drawn",
 demo='''package drawimg

import (
	"bytes"
	"image/png"
	"testing"

	"github.com/go-latex/latex/drawtex"
)

func TestDemo(t *testing.T) {
	c := drawtex.New()
	c.RenderRectFilled(3, 1, 3.9, 9)
	buf := new(bytes.Buffer)
	if err := NewRenderer(buf).Render(10./72, 10./72, 72, c); err != nil {
		t.Fatal(err)
	}
	img, err := png.Decode(buf)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := img.At(3, 5).RGBA(); a == 0 {
		t.Fatal("nothing drawn")
	}
}
'''),
dict(id="c20-bold-italic", prop="C20", pkg="font/lm", edits=[("font/lm/lm.go", "			BfIt:    bfit,\n", "			BfIt:    bf,\n"), ("font/lm/lm.go", "		bfit, err := sfnt.Parse(lmromanbolditalic.TTF)\n", "		_, err = sfnt.Parse(lmromanbolditalic.TTF)\n")],
 needs="use of the bold-italic role of the Latin Modern collection",
 breaks="the bold-italic role holds the bold font",
 demo='''package lm

import (
	"testing"

	"golang.org/x/image/font/sfnt"
)

func TestDemo(t *testing.T) {
	f := Fonts()
	var buf sfnt.Buffer
	a, _ := f.Bf.Name(&buf, sfnt.NameIDPostScript)
	b, _ := f.BfIt.Name(&buf, sfnt.NameIDPostScript)
	if a == b {
		t.Fatal(a, b)
	}
}
'''),
dict(id="c20-italic-range", prop="C20", pkg="font/ttf", edits=[("font/ttf/ttf.go", 'if font.Type == "it" && idx < 0x10000 {', 'if font.Type == "it" && idx < 0x2300 {')],
 needs="a symbol that is not a letter beyond U+2300 in the italic type",
 breaks="miscellaneous symbols of the basic plane are taken from the italic font",
 demo=TTF+'''
func TestDemo(t *testing.T) {
	be := New(drawtex.New())
	it := font.Font{Name: "default", Size: 12, Type: "it"}
	for _, sym := range []string{"+", "∂", "⌈", "⟨"} {
		if be.Metrics(sym, it, 72, true).Slanted {
			t.Fatal(sym)
		}
	}
}
'''),
dict(id="c21-key-without-type", prop="C21", pkg="font/ttf", edits=[
 ("font/ttf/ttf.go", "	key := ttfKey{symbol, fnt, dpi}\n	val, ok", "	key := ttfKey{symbol, fnt, dpi}\n	if fnt.Type == \"regular\" || fnt.Type == \"default\" {\n		key.font.Type = \"rm\" // same font\n	}\n	val, ok")],
 needs="a collection whose default font is not its regular one, asked for the same glyph in both types",
 breaks="glyphs of the default and the regular font share one memo entry",
 demo='''package ttf

import (
	"testing"

	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
)

func TestDemo(t *testing.T) {
	fnts := defaultFonts
	fnts.Default = fnts.Bf
	rm := font.Font{Name: "default", Size: 12, Type: "rm"}
	def := font.Font{Name: "default", Size: 12, Type: "default"}
	be := NewFrom(drawtex.New(), &fnts)
	for _, sym := range []string{"W", "i", "m", "f", "="} {
		want := NewFrom(drawtex.New(), &fnts).Metrics(sym, def, 72, true)
		be.Metrics(sym, rm, 72, true)
		if got := be.Metrics(sym, def, 72, true); got != want {
			t.Fatal(sym, got, want)
		}
	}
}
'''),
dict(id="c21-last-thickness", prop="C21", pkg="font/ttf", edits=[
 ("font/ttf/ttf.go", "	fonts  map[string]*sfnt.Font\n}", "	fonts  map[string]*sfnt.Font\n	rule   map[font.Font]float64 // thickness of rules\n}"),
 ("font/ttf/ttf.go", "		fonts:  make(map[string]*sfnt.Font),\n	}", "		fonts:  make(map[string]*sfnt.Font),\n		rule:   make(map[font.Font]float64),\n	}"),
 ("font/ttf/ttf.go", "func (*Backend) UnderlineThickness(font font.Font, dpi float64) float64 {\n", "func (be *Backend) UnderlineThickness(font font.Font, dpi float64) float64 {\n	if v, ok := be.rule[font]; ok {\n		return v\n	}\n	be.rule[font] = be.thickness(font, dpi)\n	return be.rule[font]\n}\n\nfunc (*Backend) thickness(font font.Font, dpi float64) float64 {\n")],
 needs="the rule thickness of one font asked at two resolutions",
 breaks="the thickness is remembered without the resolution it was computed for",
 demo=TTF+'''
func TestDemo(t *testing.T) {
	be := New(drawtex.New())
	a := be.UnderlineThickness(rm(12), 72)
	b := be.UnderlineThickness(rm(12), 144)
	if a == b {
		t.Fatal(a, b)
	}
}
'''),
dict(id="c22-thin-rules", prop="C22", pkg="font/ttf", edits=[("font/ttf/ttf.go", "	return (0.75 / 12 * font.Size * dpi) / 72\n", "	v := (0.75 / 12 * font.Size * dpi) / 72\n	if v < 0.25 {\n		v = 0.25 // hairline\n	}\n	return v\n")],
 needs="a font smaller than 4 points",
 breaks="the rule thickness of small fonts is not proportional to their size",
 demo=TTF+'''
func TestDemo(t *testing.T) {
	be := New(drawtex.New())
	a, b := be.UnderlineThickness(rm(2), 72), be.UnderlineThickness(rm(20), 72)
	if d := b - 10*a; d > 1e-9 || d < -1e-9 {
		t.Fatal(a, b)
	}
}
'''),
dict(id="c23-last-symbol", prop="C23", pkg="mtex", edits=[
 ("mtex/parser.go", "func (p *parser) handler(name string) handler {\n", "// lastHandler is the handler found last: names often come in runs.\nvar lastHandler struct {\n	name string\n	h    handler\n}\n\nfunc (p *parser) handler(name string) handler {\n	if lastHandler.h != nil && lastHandler.name == name {\n		return lastHandler.h\n	}\n	h := p.findHandler(name)\n	lastHandler.name, lastHandler.h = name, h\n	return h\n}\n\nfunc (p *parser) findHandler(name string) handler {\n")],
 needs="two layouts running at the same time",
 breaks="a package-level memo is read and written without synchronisation",
 demo=MT+'''
func TestDemo(t *testing.T) {
	// the memo is seen from another parser.
	p, q := newParser(ttf.New(drawtex.New())), newParser(ttf.New(drawtex.New()))
	p.macros[`\\mine`] = handlerFunc(handleSymbol)
	if p.handler(`\\mine`) == nil {
		t.Fatal("own macro unknown")
	}
	if q.handler(`\\mine`) != nil {
		t.Fatal("parsers share state")
	}
}
'''),
dict(id="c24-unsorted-union", prop="C24", pkg="mtex/symbols", edits=[("mtex/symbols/set.go", '''	sort.Strings(keys)
	return keys
''', '''	sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })
	return keys
''')],
 needs="a set with several names of the same length",
 breaks="names of equal length come in map iteration order",
 demo='''package symbols

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	want := SpacedSymbols.Keys()
	for i := 0; i < 50; i++ {
		if !reflect.DeepEqual(SpacedSymbols.Keys(), want) {
			t.Fatal("order varies")
		}
	}
}
'''),
dict(id="c25-opaque", prop="C25", pkg="drawtex/drawimg", edits=[("drawtex/drawimg/drawimg.go", "	if false {\n", '	if os.Getenv("MTEX_OPAQUE") != "" {\n'), ("drawtex/drawimg/drawimg.go", '	"math"\n', '	"math"\n	"os"\n')],
 needs="an environment variable set in the calling process",
 breaks="the background of rendered images depends on the environment",
 demo='''package drawimg

import (
	"bytes"
	"testing"

	"github.com/go-latex/latex/drawtex"
)

func TestDemo(t *testing.T) {
	draw := func() []byte {
		c := drawtex.New()
		c.RenderRectFilled(1, 1, 2, 2)
		buf := new(bytes.Buffer)
		if err := NewRenderer(buf).Render(0.1, 0.1, 72, c); err != nil {
			t.Fatal(err)
		}
		return buf.Bytes()
	}
	a := draw()
	t.Setenv("MTEX_OPAQUE", "1")
	if !bytes.Equal(a, draw()) {
		t.Fatal("depends on the environment")
	}
}
'''),
dict(id="c26-extra-arguments", prop="C26", pkg="cmd/mtex-render", edits=[("cmd/mtex-render/main.go", "	if flag.NArg() != 1 {", "	if flag.NArg() < 1 {")],
 needs="an expression split by the shell into several arguments",
 breaks="arguments after the first are ignored and success is reported",
 demo=CMD+'''
func TestDemo(t *testing.T) {
	if out, err := run(t, t.TempDir(), "$x$"); err != nil {
		t.Fatal(err, out)
	}
	if out, err := run(t, t.TempDir(), "$x", "+y$"); err == nil {
		t.Fatal("success", out)
	}
	if out, err := run(t, t.TempDir(), "$x$", "$y$"); err == nil {
		t.Fatal("success", out)
	}
}
'''),
dict(id="c26-full-disk", prop="C26", pkg="cmd/mtex-render", edits=[("cmd/mtex-render/main.go", '''	dst := drawimg.NewRenderer(f)
	err = mtex.Render''', '''	o := bufio.NewWriterSize(f, 1<<20)
	defer o.Flush()

	dst := drawimg.NewRenderer(o)
	err = mtex.Render'''), ("cmd/mtex-render/main.go", '''	err = f.Close()
	if err != nil {
		log.Fatalf("could not close output file: %+v", err)
	}
''', '''	o.Flush()
	err = f.Close()
	if err != nil {
		log.Fatalf("could not close output file: %+v", err)
	}
'''), ("cmd/mtex-render/main.go", '	"flag"\n', '	"bufio"\n	"flag"\n')],
 needs="an output device that refuses data (a full disk)",
 breaks="an error of writing the buffered image is dropped and success reported",
 demo=CMD+'''
func TestDemo(t *testing.T) {
	if out, err := run(t, t.TempDir(), "-o", "/dev/full", "$x$"); err == nil {
		t.Fatal("success", out)
	}
}
'''),
dict(id="c27-empty-canvas", prop="C27", pkg="mtex", edits=[("mtex/render.go", "	if err != nil {\n		return fmt.Errorf(\"could not render math expression: %w\", err)\n", "	if err != nil && len(canvas.Ops()) > 0 {\n		return fmt.Errorf(\"could not render math expression: %w\", err)\n")],
 needs="a renderer that fails on an expression that draws nothing",
 breaks="the renderer's error is dropped when nothing was drawn",
 demo='''package mtex

import (
	"io"
	"testing"

	"github.com/go-latex/latex/drawtex"
)

type failing struct{}

func (failing) Render(w, h, dpi float64, c *drawtex.Canvas) error { return io.ErrShortWrite }

func TestDemo(t *testing.T) {
	for _, expr := range []string{"$x$", "$\\\\quad$"} {
		if err := Render(failing{}, expr, 12, 72, nil); err == nil {
			t.Fatal(expr)
		}
	}
}
'''),
dict(id="c27-space-range", prop="C27", pkg="mtex", edits=[("mtex/parser.go", "	val, err := strconv.ParseFloat(arg, 64)\n	if err != nil {\n", "	val, err := strconv.ParseFloat(arg, 64)\n	if err != nil && val == 0 {\n")],
 needs="a custom space whose number is out of range",
 breaks="a number that cannot be represented is accepted as infinite space",
 demo=MT+'''
func TestDemo(t *testing.T) {
	be := ttf.NewFrom(drawtex.New(), lm.Fonts())
	if _, err := Parse("$a\\\\hspace{2}b$", 12, 72, be); err != nil {
		t.Fatal(err)
	}
	if box, err := Parse("$a\\\\hspace{1e999}b$", 12, 72, be); err == nil {
		t.Fatal(box.Width())
	}
}
'''),
]
