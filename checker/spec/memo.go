package vspec

import (
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
)

// Answers after an earlier request are those of a fresh backend: requests that
// are the same, or differ in one argument.

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, "other", dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).Kern(fnt, "other", fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.XHeight(fnt, dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_Thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.UnderlineThickness(fnt, dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_Thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).UnderlineThickness(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Metrics_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	return be.Metrics(sym2, fnt2, dpi2, true)
}
func want_C21_Metrics_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) font.Metrics {
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Metrics(sym2, fnt2, dpi2, true)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, "other", dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, "other", fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.XHeight(fnt, dpi)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Kern_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, "other", dpi2)
}
func want_C21_Kern_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, "other", dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, "other", dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, "other", fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.XHeight(fnt, dpi)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernRight_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	return be.Kern(fnt2, "other", fnt2, sym2, dpi2)
}
func want_C21_KernRight_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, "other", fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, "other", dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, "other", fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.XHeight(fnt, dpi)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Kern
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_KernSame_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	return be.Kern(fnt2, sym2, fnt2, sym2, dpi2)
}
func want_C21_KernSame_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).Kern(fnt2, sym2, fnt2, sym2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, "other", dpi)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, "other", fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Kern(fnt, sym, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.XHeight(fnt, dpi)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).XHeight(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).XHeight
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_XHeight_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	return be.XHeight(fnt2, dpi2)
}
func want_C21_XHeight_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).RenderGlyph(x, y, fnt, sym, dpi)
	return ttf.NewFrom(cnv, fnts).XHeight(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).UnderlineThickness
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Thickness_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, true)
	return be.UnderlineThickness(fnt2, dpi2)
}
func want_C21_Thickness_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, true)
	return ttf.NewFrom(cnv, fnts).UnderlineThickness(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).UnderlineThickness
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Thickness_after_Thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	be := ttf.NewFrom(cnv, fnts)
	be.UnderlineThickness(fnt, dpi)
	return be.UnderlineThickness(fnt2, dpi2)
}
func want_C21_Thickness_after_Thickness(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) float64 {
	ttf.NewFrom(cnv, fnts).UnderlineThickness(fnt, dpi)
	return ttf.NewFrom(cnv, fnts).UnderlineThickness(fnt2, dpi2)
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.Metrics(sym, fnt, dpi, true)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}
func want_C21_Glyph_after_Metrics(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).Metrics(sym, fnt, dpi, true)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.Kern(fnt, sym, fnt, "other", dpi)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}
func want_C21_Glyph_after_Kern(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).Kern(fnt, sym, fnt, "other", dpi)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.Kern(fnt, "other", fnt, sym, dpi)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}
func want_C21_Glyph_after_KernRight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).Kern(fnt, "other", fnt, sym, dpi)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.Kern(fnt, sym, fnt, sym, dpi)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}
func want_C21_Glyph_after_KernSame(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).Kern(fnt, sym, fnt, sym, dpi)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.XHeight(fnt, dpi)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}
func want_C21_Glyph_after_XHeight(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).XHeight(fnt, dpi)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderGlyph
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary sym fnt.Name fnt.Type fnt.Size dpi
func got_C21_Glyph_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt, sym, dpi)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()[1:]
}
func want_C21_Glyph_after_Glyph(cnv *drawtex.Canvas, fnts *ttf.Fonts, x, y float64, sym, sym2 string, fnt, fnt2 font.Font, dpi, dpi2 float64) []drawtex.Op {
	ttf.NewFrom(drawtex.New(), fnts).RenderGlyph(x, y, fnt, sym, dpi)
	own := drawtex.New()
	be := ttf.NewFrom(own, fnts)
	be.RenderGlyph(x, y, fnt2, sym2, dpi2)
	return own.Ops()
}

// The mode of the request: in text some symbols have other characters.
//
//vf:at (*github.com/go-latex/latex/font/ttf.Backend).Metrics
//vf:ttf 0 whole
//vf:opaque internal/tex2unicode.Index
//vf:vary math
func got_C21_mode(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math, math2 bool) font.Metrics {
	be := ttf.NewFrom(cnv, fnts)
	be.Metrics(sym, fnt, dpi, math)
	return be.Metrics(sym, fnt, dpi, math2)
}
func want_C21_mode(cnv *drawtex.Canvas, fnts *ttf.Fonts, sym string, fnt font.Font, dpi float64, math, math2 bool) font.Metrics {
	ttf.NewFrom(cnv, fnts).Metrics(sym, fnt, dpi, math)
	be := ttf.NewFrom(cnv, fnts)
	return be.Metrics(sym, fnt, dpi, math2)
}
