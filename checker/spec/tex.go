package vspec

// Reference models of the box model (package tex).  got_<property>_<name>
// performs an operation of the library, want_<property>_<name> states what it
// must yield.

import (
	"math"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// Fields without an exported accessor; resolved by role.
func X_tex_Glue_stretch(g *tex.Glue) float64      { panic(0) }
func X_tex_Glue_stretchOrder(g *tex.Glue) int     { panic(0) }
func X_tex_Glue_shrink(g *tex.Glue) float64       { panic(0) }
func X_tex_Glue_shrinkOrder(g *tex.Glue) int      { panic(0) }
func X_tex_VList_shift(l *tex.VList) float64      { panic(0) }
func X_tex_List_shift(l *tex.List) float64        { panic(0) }
func X_tex_Char_be(c *tex.Char) font.Backend      { panic(0) }
func X_tex_Char_font(c *tex.Char) font.Font       { panic(0) }
func X_tex_Char_c(c *tex.Char) string             { panic(0) }
func X_tex_Char_dpi(c *tex.Char) float64          { panic(0) }
func X_tex_Char_math(c *tex.Char) bool            { panic(0) }
func X_tex_Char_metrics(c *tex.Char) font.Metrics { panic(0) }
func X_tex_Accent_char(a *tex.Accent) tex.Char    { panic(0) }
func X_tex_Rule_out(r *tex.Rule) font.Backend     { panic(0) }
func X_tex_Box_size(n *tex.Box) int               { panic(0) }
func X_tex_Char_size(n *tex.Char) int             { panic(0) }
func X_tex_Accent_size(n *tex.Accent) int         { panic(0) }
func X_tex_Kern_size(n *tex.Kern) int             { panic(0) }
func X_tex_Glue_size(n *tex.Glue) int             { panic(0) }
func X_tex_Rule_size(n *tex.Rule) int             { panic(0) }
func X_tex_List_size(n *tex.List) int             { panic(0) }
func X_tex_HList_size(n *tex.HList) int           { panic(0) }
func X_tex_VList_size(n *tex.VList) int           { panic(0) }

func inf(x float64) bool { return math.IsInf(x, 0) }

func shift(n tex.Node) float64 {
	switch n := n.(type) {
	case *tex.HList:
		return n.Shift()
	case *tex.VList:
		return X_tex_VList_shift(n)
	case *tex.List:
		return X_tex_List_shift(n)
	}
	return 0
}

// ---- C16 packing

func hpackWant(nodes []tex.Node) (w, h, d float64, st, sh [4]float64) {
	for _, n := range nodes {
		w += n.Width()
		switch n := n.(type) {
		case *tex.Glue:
			st[X_tex_Glue_stretchOrder(n)] += X_tex_Glue_stretch(n)
			sh[X_tex_Glue_shrinkOrder(n)] += X_tex_Glue_shrink(n)
		case *tex.Kern:
		case *tex.Char, *tex.Accent:
			h = math.Max(h, n.Height())
			d = math.Max(d, n.Depth())
		default:
			if !inf(n.Height()) && !inf(n.Depth()) {
				h = math.Max(h, n.Height()-shift(n))
				d = math.Max(d, n.Depth()+shift(n))
			}
		}
	}
	return
}

//vf:at (*github.com/go-latex/latex/tex.HList).HPack
//vf:world tex.Node Box Char Accent Rule Glue Kern List HList VList
func got_C16_HPack(l *tex.HList, width float64, additional bool) (w, h, d float64) {
	l.HPack(width, additional)
	return l.Width(), l.Height(), l.Depth()
}
func want_C16_HPack(l *tex.HList, width float64, additional bool) (w, h, d float64) {
	w, h, d, _, _ = hpackWant(l.Nodes())
	if additional {
		return w + width, h, d
	}
	return width, h, d
}

func vpackWant(nodes []tex.Node) (w, h, d float64, st, sh [4]float64) {
	for _, n := range nodes {
		h += d
		d = 0
		switch n := n.(type) {
		case *tex.Glue:
			h += n.Width()
			st[X_tex_Glue_stretchOrder(n)] += X_tex_Glue_stretch(n)
			sh[X_tex_Glue_shrinkOrder(n)] += X_tex_Glue_shrink(n)
		case *tex.Kern:
			h += n.Width()
		default:
			h += n.Height()
			d = n.Depth()
			if !inf(n.Width()) {
				w = math.Max(w, n.Width())
			}
		}
	}
	return
}

//vf:at (*github.com/go-latex/latex/tex.VList).VPack
//vf:world tex.Node Box Rule Glue Kern List HList VList
func got_C16_VPack(l *tex.VList, height float64, additional bool, limit float64) (w, h, d float64) {
	l.VPack(height, additional, limit)
	return l.Width(), l.Height(), l.Depth()
}
func want_C16_VPack(l *tex.VList, height float64, additional bool, limit float64) (w, h, d float64) {
	w, h, d, _, _ = vpackWant(l.Nodes())
	if d > limit {
		h += d - limit
		d = limit
	}
	if additional {
		return w, h + height, d
	}
	return w, height, d
}

// ---- C18 glue

func glueWant(excess float64, st, sh [4]float64) (sign, order int, set float64) {
	tot := st
	sign = 1
	if excess < 0 {
		tot = sh
		sign = -1
	}
	if excess == 0 {
		return 0, 0, 0
	}
	for o := 3; o >= 0; o-- {
		if tot[o] != 0 {
			return sign, o, excess / tot[o]
		}
	}
	return 0, 0, 0
}

func glueGot(l tex.Tree) (sign, order int, set float64) {
	if l.GlueSign() == 0 {
		return 0, 0, 0
	}
	return l.GlueSign(), l.GlueOrder(), l.GlueSet()
}

//vf:at (*github.com/go-latex/latex/tex.HList).HPack
func got_C18_HPack(l *tex.HList, width float64, additional bool) (sign, order int, set float64) {
	l.HPack(width, additional)
	return glueGot(l)
}
func want_C18_HPack(l *tex.HList, width float64, additional bool) (sign, order int, set float64) {
	w, _, _, st, sh := hpackWant(l.Nodes())
	if additional {
		return glueWant(width, st, sh)
	}
	return glueWant(width-w, st, sh)
}

//vf:at (*github.com/go-latex/latex/tex.VList).VPack
//vf:world tex.Node Rule Glue Kern HList VList
func got_C18_VPack(l *tex.VList, height float64, additional bool, limit float64) (sign, order int, set float64) {
	l.VPack(height, additional, limit)
	return glueGot(l)
}
func want_C18_VPack(l *tex.VList, height float64, additional bool, limit float64) (sign, order int, set float64) {
	_, h, d, st, sh := vpackWant(l.Nodes())
	if d > limit {
		h += d - limit
	}
	if additional {
		return glueWant(height, st, sh)
	}
	return glueWant(height-h, st, sh)
}
