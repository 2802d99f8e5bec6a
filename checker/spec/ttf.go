package vspec

import (
	"errors"
	"math"
	"unicode"

	"github.com/go-fonts/latin-modern/lmroman10bold"
	"github.com/go-fonts/latin-modern/lmroman10bolditalic"
	"github.com/go-fonts/latin-modern/lmroman10italic"
	"github.com/go-fonts/latin-modern/lmroman10regular"
	"github.com/go-fonts/liberation/liberationserifbold"
	"github.com/go-fonts/liberation/liberationserifbolditalic"
	"github.com/go-fonts/liberation/liberationserifitalic"
	"github.com/go-fonts/liberation/liberationserifregular"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/liberation"
	"github.com/go-latex/latex/font/lm"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/internal/tex2unicode"
	stdfont "golang.org/x/image/font"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/sfnt"
)

// Quantities of a font in units of the em, as the font library reports them.
func T_minx(ft *sfnt.Font, g sfnt.GlyphIndex, h stdfont.Hinting) float64    { panic(0) }
func T_maxx(ft *sfnt.Font, g sfnt.GlyphIndex, h stdfont.Hinting) float64    { panic(0) }
func T_miny(ft *sfnt.Font, g sfnt.GlyphIndex, h stdfont.Hinting) float64    { panic(0) }
func T_maxy(ft *sfnt.Font, g sfnt.GlyphIndex, h stdfont.Hinting) float64    { panic(0) }
func T_advance(ft *sfnt.Font, g sfnt.GlyphIndex, h stdfont.Hinting) float64 { panic(0) }
func T_XHeight(ft *sfnt.Font, h stdfont.Hinting) float64                    { panic(0) }
func T_kern(ft *sfnt.Font, a, b sfnt.GlyphIndex, h stdfont.Hinting) (float64, error) {
	panic(0)
}

// roleFont is the font of a collection that a font type names.
func roleFont(fnts *ttf.Fonts, typ string) *sfnt.Font {
	switch typ {
	case "default":
		return fnts.Default
	case "regular", "rm":
		return fnts.Rm
	case "it":
		return fnts.It
	case "bf":
		return fnts.Bf
	}
	return nil
}

// glyphFont is the font a symbol is set in: in the italic type only letters
// and what lies beyond the basic plane are italic.
func glyphFont(fnts *ttf.Fonts, typ string, r rune) (*sfnt.Font, string) {
	if typ == "it" && r < 0x10000 && !unicode.Is(unicode.L, r) {
		typ = "rm"
	}
	ft := roleFont(fnts, typ)
	if ft == nil {
		panic("no such font")
	}
	return ft, typ
}

func glyphOf(fnts *ttf.Fonts, sym, typ string, math bool) (*sfnt.Font, sfnt.GlyphIndex, string) {
	r := tex2unicode.Index(sym, math)
	ft, typ := glyphFont(fnts, typ, r)
	g, err := ft.GlyphIndex(nil, r)
	if err != nil {
		panic(err)
	}
	return ft, g, typ
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C22_glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) (width, height, xmin, xmax, ymin, ymax, iceberg float64) {
	m := ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, math)
	return m.Width, m.Height, m.XMin, m.XMax, m.YMin, m.YMax, m.Iceberg
}
func want_C22_glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) (width, height, xmin, xmax, ymin, ymax, iceberg float64) {
	const h = stdfont.HintingNone
	ft, g, _ := glyphOf(fnts, sym, fnt.Type, math)
	x0, x1 := fnt.Size*T_minx(ft, g, h), fnt.Size*T_maxx(ft, g, h)
	// the y axis of the font library points down
	y0, y1 := -fnt.Size*T_maxy(ft, g, h), -fnt.Size*T_miny(ft, g, h)
	off := 0.0
	// the extensible font of Computer Modern hangs below the baseline
	if n, err := ft.Name(nil, sfnt.NameIDPostScript); err == nil && n == "Cmex10" {
		off = (y1-y0)/2 + fnt.Size/3*dpi/72
	}
	return x1 - x0, y1 - y0, x0, x1, y0 + off, y1 + off, y1 + off
}

// Fonts whose em has 2048 units.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 2048 whole
//vf:opaque internal/tex2unicode.Index
func got_C22_advance2048(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) float64 {
	return ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, math).Advance
}
func want_C22_advance2048(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) float64 {
	ft, g, _ := glyphOf(fnts, sym, fnt.Type, math)
	return fnt.Size * T_advance(ft, g, stdfont.HintingNone)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C22_advance(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) float64 {
	return ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, math).Advance
}
func want_C22_advance(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) float64 {
	ft, g, _ := glyphOf(fnts, sym, fnt.Type, math)
	return fnt.Size * T_advance(ft, g, stdfont.HintingNone)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
func got_C22_xheight(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
}
func want_C22_xheight(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	ft := roleFont(fnts, fnt.Type)
	return math.Abs(fnt.Size * dpi / 72 * T_XHeight(ft, stdfont.HintingNone))
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).UnderlineThickness
//vf:ttf 0 whole
func got_C22_thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).UnderlineThickness(fnt, dpi)
}
func want_C22_thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	return fnt.Size * dpi / 72 * 0.0625
}

// Kerning between the symbols of one font.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0
//vf:opaque internal/tex2unicode.Index
//vf:partial
func got_C22_kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).Kern(f1, s1, f2, s2, dpi)
}
func want_C22_kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if f1.Name != f2.Name || f1.Size != f2.Size {
		return 0
	}
	ft1, g1, _ := glyphOf(fnts, s1, f1.Type, true)
	// the fonts of a collection share their order of glyphs: the table of
	// the first symbol's font kerns across styles as well
	_, g2, _ := glyphOf(fnts, s2, f2.Type, true)
	k, err := T_kern(ft1, g1, g2, stdfont.HintingNone)
	if err != nil {
		if errors.Is(err, sfnt.ErrNotFound) {
			return 0
		}
		panic(err)
	}
	return f1.Size * k
}

// The same for fonts that know the kerning of all pairs.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C22_kernWhole(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).Kern(f1, s1, f2, s2, dpi)
}
func want_C22_kernWhole(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	if f1.Name != f2.Name || f1.Size != f2.Size {
		return 0
	}
	ft1, g1, _ := glyphOf(fnts, s1, f1.Type, true)
	// the fonts of a collection share their order of glyphs: the table of
	// the first symbol's font kerns across styles as well
	_, g2, _ := glyphOf(fnts, s2, f2.Type, true)
	k, _ := T_kern(ft1, g1, g2, stdfont.HintingNone)
	return f1.Size * k
}

// Every font type names the font of its role; glyphs are drawn with the font
// and size they were measured with.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C20_drawn(fnts *ttf.Fonts, x, y float64, sym string, fnt font.Font, dpi float64) []drawtex.Op {
	cnv := drawtex.New()
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return cnv.Ops()
}
func want_C20_drawn(fnts *ttf.Fonts, x, y float64, sym string, fnt font.Font, dpi float64) []drawtex.Op {
	cnv := drawtex.New()
	ft, g, _ := glyphOf(fnts, sym, fnt.Type, true)
	ps, err := ft.Name(nil, sfnt.NameIDPostScript)
	if err != nil {
		panic(err)
	}
	m := ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	off := 0.0
	if ps == "Cmex10" {
		off = m.Height/2 + fnt.Size/3*dpi/72
	}
	return []drawtex.Op{drawtex.GlyphOp{X: x, Y: y, Glyph: drawtex.Glyph{
		Font: ft, Size: fnt.Size, Postscript: ps, Metrics: m,
		Symbol: string(tex2unicode.Index(sym, true)), Num: g, Offset: off,
	}}}
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C20_slanted(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) bool {
	return ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, math).Slanted
}
func want_C20_slanted(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math bool) bool {
	_, _, typ := glyphOf(fnts, sym, fnt.Type, math)
	return typ == "it" || sym == `\int` || sym == `\oint`
}

// The kerning of two symbols is that of the font the first is drawn with.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C20_kerned(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).Kern(f1, s1, f2, s2, dpi)
}
func want_C20_kerned(cnv *drawtex.Canvas, fnts *ttf.Fonts, f1 font.Font, s1 string, f2 font.Font, s2 string, dpi float64) float64 {
	return want_C22_kernWhole(cnv, fnts, f1, s1, f2, s2, dpi)
}

// Which font types are known: all others have no font.
//
//vf:at github.com/go-latex/latex/font/ttf.NewFrom
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
func got_C20_xheight(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	return ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
}
func want_C20_xheight(cnv *drawtex.Canvas, fnts *ttf.Fonts, fnt font.Font, dpi float64) float64 {
	return math.Abs(fnt.Size * dpi / 72 * T_XHeight(roleFont(fnts, fnt.Type), stdfont.HintingNone))
}

//vf:at github.com/go-latex/latex/font/lm.Fonts
//vf:ttf 0 whole
func got_C20_lm() (def, rm, it, bf, bfit *sfnt.Font) {
	f := lm.Fonts()
	return f.Default, f.Rm, f.It, f.Bf, f.BfIt
}
func want_C20_lm() (def, rm, it, bf, bfit *sfnt.Font) {
	rm = parsed(lmroman10regular.TTF)
	return rm, rm, parsed(lmroman10italic.TTF), parsed(lmroman10bold.TTF), parsed(lmroman10bolditalic.TTF)
}

func parsed(raw []byte) *sfnt.Font {
	f, err := sfnt.Parse(raw)
	if err != nil {
		panic(err)
	}
	return f
}

//vf:at github.com/go-latex/latex/font/liberation.Fonts
//vf:ttf 0 whole
func got_C20_liberation() (def, rm, it, bf, bfit *sfnt.Font) {
	f := liberation.Fonts()
	return f.Default, f.Rm, f.It, f.Bf, f.BfIt
}
func want_C20_liberation() (def, rm, it, bf, bfit *sfnt.Font) {
	rm = parsed(liberationserifregular.TTF)
	return rm, rm, parsed(liberationserifitalic.TTF), parsed(liberationserifbold.TTF), parsed(liberationserifbolditalic.TTF)
}

//vf:at github.com/go-latex/latex/font/ttf.New
//vf:ttf 0 whole
//vf:globals font/ttf
func got_C20_default(cnv *drawtex.Canvas, fnt font.Font, dpi float64) float64 {
	return ttf.New(cnv).XHeight(fnt, dpi)
}
func want_C20_default(cnv *drawtex.Canvas, fnt font.Font, dpi float64) float64 {
	rm := parsed(goregular.TTF)
	fnts := ttf.Fonts{Default: rm, Rm: rm, It: parsed(goitalic.TTF), Bf: parsed(gobold.TTF)}
	return ttf.NewFrom(cnv, &fnts).XHeight(fnt, dpi)
}
