package vspec

import (
	"fmt"
	"image/color"
	"image/png"
	"io"
	"math"

	"git.sr.ht/~sbinet/gg"
	"github.com/go-latex/latex/drawtex"
	"github.com/go-latex/latex/drawtex/drawimg"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/font/ttf"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	stdfont "golang.org/x/image/font"
	"golang.org/x/image/font/opentype"
)

//vf:at (*github.com/go-latex/latex/drawtex.Canvas).RenderGlyph
func got_C19_canvasGlyph(c *drawtex.Canvas, x, y float64, g drawtex.Glyph) []drawtex.Op {
	c.RenderGlyph(x, y, g)
	return c.Ops()
}
func want_C19_canvasGlyph(c *drawtex.Canvas, x, y float64, g drawtex.Glyph) []drawtex.Op {
	return append(c.Ops(), drawtex.GlyphOp{X: x, Y: y, Glyph: g})
}

//vf:at (*github.com/go-latex/latex/drawtex.Canvas).RenderRectFilled
func got_C19_canvasRect(c *drawtex.Canvas, x1, y1, x2, y2 float64) []drawtex.Op {
	c.RenderRectFilled(x1, y1, x2, y2)
	return c.Ops()
}
func want_C19_canvasRect(c *drawtex.Canvas, x1, y1, x2, y2 float64) []drawtex.Op {
	return append(c.Ops(), drawtex.RectOp{X1: x1, Y1: y1, X2: x2, Y2: y2})
}

//vf:at github.com/go-latex/latex/drawtex.New
func got_C19_canvasNew() int  { return len(drawtex.New().Ops()) }
func want_C19_canvasNew() int { return 0 }

//vf:at (*github.com/go-latex/latex/font/ttf.Backend).RenderRectFilled
func got_C19_backendRect(fnts *ttf.Fonts, x1, y1, x2, y2 float64) []drawtex.Op {
	c := drawtex.New()
	ttf.NewFrom(c, fnts).RenderRectFilled(x1, y1, x2, y2)
	return c.Ops()
}
func want_C19_backendRect(fnts *ttf.Fonts, x1, y1, x2, y2 float64) []drawtex.Op {
	return []drawtex.Op{drawtex.RectOp{X1: x1, Y1: y1, X2: x2, Y2: y2}}
}

//vf:at github.com/go-latex/latex/mtex.Render
//vf:opaque mtex.Parse (tex.Node).Width (tex.Node).Height (tex.Node).Depth
//vf:traced (*tex.Ship).Call
//vf:traced (mtex.Renderer).Render
//vf:world tex.Node HList VList
//vf:partial
func got_C19_render(dst mtex.Renderer, expr string, size, dpi float64, fnts *ttf.Fonts) bool {
	return mtex.Render(dst, expr, size, dpi, fnts) == nil
}
func want_C19_render(dst mtex.Renderer, expr string, size, dpi float64, fnts *ttf.Fonts) bool {
	c := drawtex.New()
	var be font.Backend
	if fnts == nil {
		be = ttf.New(c)
	} else {
		be = ttf.NewFrom(c, fnts)
	}
	box, err := mtex.Parse(expr, size, 72, be)
	if err != nil {
		return false
	}
	var s tex.Ship
	s.Call(0, 0, box.(tex.Tree))
	w, h := box.Width()/72, math.Ceil(box.Height()+math.Max(box.Depth(), 0))/72
	if err := dst.Render(w, h, dpi, c); err != nil {
		return false
	}
	return true
}

//vf:at (*github.com/go-latex/latex/drawtex/drawimg.Renderer).Render
//vf:draw
func got_C19_drawimg(out io.Writer, width, height, dpi float64, c *drawtex.Canvas) (ok bool) {
	return drawimg.NewRenderer(out).Render(width, height, dpi, c) == nil
}
func want_C19_drawimg(out io.Writer, width, height, dpi float64, c *drawtex.Canvas) (ok bool) {
	ctx := gg.NewContext(int(math.Ceil(width*dpi)), int(math.Ceil(height*dpi)))
	ctx.SetColor(color.Black)
	for _, op := range c.Ops() {
		switch op := op.(type) {
		case drawtex.GlyphOp:
			face, err := opentype.NewFace(op.Glyph.Font, &opentype.FaceOptions{Size: op.Glyph.Size, DPI: dpi, Hinting: stdfont.HintingNone})
			if err != nil {
				panic(err)
			}
			ctx.SetFontFace(face)
			ctx.DrawString(op.Glyph.Symbol, op.X*dpi/72, op.Y*dpi/72)
		case drawtex.RectOp:
			x1, y1, x2, y2 := op.X1*dpi/72, op.Y1*dpi/72, op.X2*dpi/72, op.Y2*dpi/72
			ctx.MoveTo(x1, y1)
			ctx.LineTo(x2, y1)
			ctx.LineTo(x2, y2)
			ctx.LineTo(x1, y2)
			ctx.Fill()
		default:
			panic(fmt.Sprint("unknown operation", op))
		}
	}
	return png.Encode(out, ctx.Image()) == nil
}
