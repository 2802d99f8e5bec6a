package vspec

import (
	"math"

	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
)

// ---- C15 shrinking and growing

const (
	down   = 0.7
	up     = 1 / 0.7
	levels = 6
)

// scale is the factor of one call, for a node whose level before it is size.
func scale(size int, grow bool) float64 {
	if grow {
		return up
	}
	if size+1 < levels {
		return down
	}
	return 1
}
func level(size int, grow bool) int {
	if grow {
		return size - 1
	}
	return size + 1
}
func step(n tex.Node, grow bool) {
	if grow {
		n.Grow()
	} else {
		n.Shrink()
	}
}

//vf:at (*github.com/go-latex/latex/tex.Box).Shrink
func got_C15_Box(n *tex.Box, grow bool) (size int, w, h, d float64) {
	if grow {
		n.Grow()
	} else {
		n.Shrink()
	}
	return X_tex_Box_size(n), n.Width(), n.Height(), n.Depth()
}
func want_C15_Box(n *tex.Box, grow bool) (size int, w, h, d float64) {
	f := scale(X_tex_Box_size(n), grow)
	return level(X_tex_Box_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f
}

//vf:at (*github.com/go-latex/latex/tex.Rule).Shrink
func got_C15_Rule(n *tex.Rule, grow bool) (size int, w, h, d float64) {
	step(n, grow)
	return X_tex_Rule_size(n), n.Width(), n.Height(), n.Depth()
}
func want_C15_Rule(n *tex.Rule, grow bool) (size int, w, h, d float64) {
	f := scale(X_tex_Rule_size(n), grow)
	return level(X_tex_Rule_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f
}

//vf:at (*github.com/go-latex/latex/tex.Kern).Shrink
func got_C15_Kern(n *tex.Kern, grow bool) (size int, w, h, d float64) {
	step(n, grow)
	return X_tex_Kern_size(n), n.Width(), n.Height(), n.Depth()
}
func want_C15_Kern(n *tex.Kern, grow bool) (size int, w, h, d float64) {
	f := scale(X_tex_Kern_size(n), grow)
	return level(X_tex_Kern_size(n), grow), n.Width() * f, 0, 0
}

//vf:at (*github.com/go-latex/latex/tex.Glue).Shrink
func got_C15_Glue(n *tex.Glue, grow bool) (size int, w, h, d, st, sh float64, sto, sho int) {
	step(n, grow)
	return X_tex_Glue_size(n), n.Width(), n.Height(), n.Depth(), X_tex_Glue_stretch(n), X_tex_Glue_shrink(n), X_tex_Glue_stretchOrder(n), X_tex_Glue_shrinkOrder(n)
}
func want_C15_Glue(n *tex.Glue, grow bool) (size int, w, h, d, st, sh float64, sto, sho int) {
	f := scale(X_tex_Glue_size(n), grow)
	return level(X_tex_Glue_size(n), grow), n.Width() * f, 0, 0, X_tex_Glue_stretch(n), X_tex_Glue_shrink(n), X_tex_Glue_stretchOrder(n), X_tex_Glue_shrinkOrder(n)
}

//vf:at (*github.com/go-latex/latex/tex.Char).Shrink
func got_C15_Char(n *tex.Char, grow bool) (size int, w, h, d float64) {
	step(n, grow)
	n.Render(0, 0)
	return X_tex_Char_size(n), n.Width(), n.Height(), n.Depth()
}
func want_C15_Char(n *tex.Char, grow bool) (size int, w, h, d float64) {
	f := scale(X_tex_Char_size(n), grow)
	ft := X_tex_Char_font(n)
	ft.Size *= f
	X_tex_Char_be(n).RenderGlyph(0, 0, ft, X_tex_Char_c(n), X_tex_Char_dpi(n))
	return level(X_tex_Char_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f
}

//vf:at (*github.com/go-latex/latex/tex.Accent).Shrink
func got_C15_Accent(n *tex.Accent, grow bool) (size int, w, h, d float64) {
	step(n, grow)
	n.Render(0, 0)
	return X_tex_Accent_size(n), n.Width(), n.Height(), n.Depth()
}
func want_C15_Accent(n *tex.Accent, grow bool) (size int, w, h, d float64) {
	f := scale(X_tex_Accent_size(n), grow)
	c := X_tex_Accent_char(n)
	ft := X_tex_Char_font(&c)
	ft.Size *= f
	m := X_tex_Char_be(&c).Metrics(X_tex_Char_c(&c), ft, X_tex_Char_dpi(&c), X_tex_Char_math(&c))
	X_tex_Char_be(&c).RenderGlyph(-m.XMin, m.YMin, ft, X_tex_Char_c(&c), X_tex_Char_dpi(&c))
	return level(X_tex_Accent_size(n), grow), m.XMax - m.XMin, m.YMax - m.YMin, 0
}

//vf:at (*github.com/go-latex/latex/tex.List).Shrink
//vf:traced (tex.Node).Shrink (tex.Node).Grow
func got_C15_List(n *tex.List, grow bool) (size int, w, h, d, shift, set float64, nodes []tex.Node) {
	if grow {
		n.Grow()
	} else {
		n.Shrink()
	}
	return X_tex_List_size(n), n.Width(), n.Height(), n.Depth(), X_tex_List_shift(n), n.GlueSet(), n.Nodes()
}
func want_C15_List(n *tex.List, grow bool) (size int, w, h, d, shift, set float64, nodes []tex.Node) {
	f := scale(X_tex_List_size(n), grow)
	if grow {
		for _, c := range n.Nodes() {
			c.Grow()
		}
	} else {
		for _, c := range n.Nodes() {
			c.Shrink()
		}
	}
	return level(X_tex_List_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f, X_tex_List_shift(n) * f, n.GlueSet() * f, n.Nodes()
}

//vf:at (*github.com/go-latex/latex/tex.HList).Shrink
//vf:traced (tex.Node).Shrink (tex.Node).Grow
func got_C15_HList(n *tex.HList, grow bool) (size int, w, h, d, shift, set float64, sign, order int, nodes []tex.Node) {
	if grow {
		n.Grow()
	} else {
		n.Shrink()
	}
	return X_tex_HList_size(n), n.Width(), n.Height(), n.Depth(), n.Shift(), n.GlueSet(), n.GlueSign(), n.GlueOrder(), n.Nodes()
}
func want_C15_HList(n *tex.HList, grow bool) (size int, w, h, d, shift, set float64, sign, order int, nodes []tex.Node) {
	f := scale(X_tex_HList_size(n), grow)
	if grow {
		for _, c := range n.Nodes() {
			c.Grow()
		}
	} else {
		for _, c := range n.Nodes() {
			c.Shrink()
		}
	}
	return level(X_tex_HList_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f, n.Shift() * f, n.GlueSet() * f, n.GlueSign(), n.GlueOrder(), n.Nodes()
}

//vf:at (*github.com/go-latex/latex/tex.VList).Shrink
//vf:traced (tex.Node).Shrink (tex.Node).Grow
func got_C15_VList(n *tex.VList, grow bool) (size int, w, h, d, shift, set float64, sign, order int, nodes []tex.Node) {
	if grow {
		n.Grow()
	} else {
		n.Shrink()
	}
	return X_tex_VList_size(n), n.Width(), n.Height(), n.Depth(), X_tex_VList_shift(n), n.GlueSet(), n.GlueSign(), n.GlueOrder(), n.Nodes()
}
func want_C15_VList(n *tex.VList, grow bool) (size int, w, h, d, shift, set float64, sign, order int, nodes []tex.Node) {
	f := scale(X_tex_VList_size(n), grow)
	if grow {
		for _, c := range n.Nodes() {
			c.Grow()
		}
	} else {
		for _, c := range n.Nodes() {
			c.Shrink()
		}
	}
	return level(X_tex_VList_size(n), grow), n.Width() * f, n.Height() * f, n.Depth() * f, X_tex_VList_shift(n) * f, n.GlueSet() * f, n.GlueSign(), n.GlueOrder(), n.Nodes()
}

// New nodes start at level zero.
//
//vf:at github.com/go-latex/latex/tex.NewChar
func got_C15_fresh(c string, st tex.State, math bool, w float64, glue string, nodes []tex.Node) (ch, ac, ru, ke, gl, hl, vl, hb, vb int) {
	return X_tex_Char_size(tex.NewChar(c, st, math)), X_tex_Accent_size(tex.NewAccent(c, st, math)), X_tex_Rule_size(tex.NewRule(w, w, w, st)),
		X_tex_Kern_size(tex.NewKern(w)), X_tex_Glue_size(tex.NewGlue(glue)), X_tex_HList_size(tex.HListOf(nodes, false)), X_tex_VList_size(tex.VListOf(nil)),
		X_tex_Box_size(tex.HBox(w)), X_tex_Box_size(tex.VBox(w, w))
}

//vf:partial
func want_C15_fresh(c string, st tex.State, math bool, w float64, glue string, nodes []tex.Node) (ch, ac, ru, ke, gl, hl, vl, hb, vb int) {
	return 0, 0, 0, 0, 0, 0, 0, 0, 0
}

// ---- C16 constructors

//vf:at github.com/go-latex/latex/tex.HListOf
func got_C16_HListOf(nodes []tex.Node) (w, h, d, shift float64) {
	l := tex.HListOf(nodes, false)
	return l.Width(), l.Height(), l.Depth(), l.Shift()
}
func want_C16_HListOf(nodes []tex.Node) (w, h, d, shift float64) {
	w, h, d, _, _ = hpackWant(nodes)
	return w, h, d, 0
}

//vf:at github.com/go-latex/latex/tex.VListOf
//vf:world tex.Node Rule Glue Kern HList VList
func got_C16_VListOf(nodes []tex.Node) (w, h, d, shift float64) {
	l := tex.VListOf(nodes)
	return l.Width(), l.Height(), l.Depth(), X_tex_VList_shift(l)
}
func want_C16_VListOf(nodes []tex.Node) (w, h, d, shift float64) {
	w, h, d, _, _ = vpackWant(nodes)
	return w, h, d, 0
}

//vf:at (*github.com/go-latex/latex/tex.VList).SetShift
func got_C16_SetShift(l *tex.VList, s float64) (shift, w, h, d float64) {
	l.SetShift(s)
	return X_tex_VList_shift(l), l.Width(), l.Height(), l.Depth()
}
func want_C16_SetShift(l *tex.VList, s float64) (shift, w, h, d float64) {
	return s, l.Width(), l.Height(), l.Depth()
}

//vf:at github.com/go-latex/latex/tex.NewRule
func got_C16_boxes(a, b, c float64, st tex.State) (kw, kh, kd, hw, hh, hd, vw, vh, vd, rw, rh, rd float64) {
	k, h, v, r := tex.NewKern(a), tex.HBox(a), tex.VBox(a, b), tex.NewRule(a, b, c, st)
	return k.Width(), k.Height(), k.Depth(), h.Width(), h.Height(), h.Depth(), v.Width(), v.Height(), v.Depth(), r.Width(), r.Height(), r.Depth()
}
func want_C16_boxes(a, b, c float64, st tex.State) (kw, kh, kd, hw, hh, hd, vw, vh, vd, rw, rh, rd float64) {
	return a, 0, 0, a, 0, 0, 0, a, b, a, b, c
}

//vf:at github.com/go-latex/latex/tex.VRule
func got_C16_rules(st tex.State, t float64) (hw, hh, hd, vw, vh, vd float64) {
	h, v := tex.HRule(st, t), tex.VRule(st)
	return h.Width(), h.Height(), h.Depth(), v.Width(), v.Height(), v.Depth()
}
func want_C16_rules(st tex.State, t float64) (hw, hh, hd, vw, vh, vd float64) {
	u := st.Backend().UnderlineThickness(st.Font, st.DPI)
	if t < 0 {
		t = u
	}
	return math.Inf(1), t / 2, t / 2, u, math.Inf(1), math.Inf(1)
}

// ---- C10 lists keep their elements

//vf:at github.com/go-latex/latex/tex.ListOf
func got_C10_lists(nodes []tex.Node) (l, h, v []tex.Node) {
	return tex.ListOf(nodes).Nodes(), tex.HListOf(nodes, false).Nodes(), tex.VListOf(nodes).Nodes()
}

//vf:partial
func want_C10_lists(nodes []tex.Node) (l, h, v []tex.Node) {
	return nodes, nodes, nodes
}

//vf:at (*github.com/go-latex/latex/tex.HList).HPack
func got_C10_hpackNodes(l *tex.HList, w float64, add bool) []tex.Node {
	l.HPack(w, add)
	return l.Nodes()
}
func want_C10_hpackNodes(l *tex.HList, w float64, add bool) []tex.Node { return l.Nodes() }

//vf:at (*github.com/go-latex/latex/tex.VList).VPack
//vf:world tex.Node Rule Glue Kern HList VList
func got_C10_vpackNodes(l *tex.VList, w float64, add bool, m float64) []tex.Node {
	l.VPack(w, add, m)
	return l.Nodes()
}
func want_C10_vpackNodes(l *tex.VList, w float64, add bool, m float64) []tex.Node { return l.Nodes() }

// ---- C18 glue tables and centering

//vf:at github.com/go-latex/latex/tex.NewGlue
func got_C18_NewGlue(name string) (w, st float64, sto int, sh float64, sho int) {
	g := tex.NewGlue(name)
	return g.Width(), X_tex_Glue_stretch(g), X_tex_Glue_stretchOrder(g), X_tex_Glue_shrink(g), X_tex_Glue_shrinkOrder(g)
}
func want_C18_NewGlue(name string) (w, st float64, sto int, sh float64, sho int) {
	switch name {
	case "empty":
	case "fil":
		st, sto = 1, 1
	case "fill":
		st, sto = 1, 2
	case "filll":
		st, sto = 1, 3
	case "neg_fil":
		sh, sho = 1, 1
	case "neg_fill":
		sh, sho = 1, 2
	case "neg_filll":
		sh, sho = 1, 3
	case "ss":
		st, sto, sh, sho = 1, 1, -1, 1
	default:
		panic("unknown glue")
	}
	return
}

//vf:at github.com/go-latex/latex/tex.HCentered
//vf:identity
func got_C18_HCentered(nodes []tex.Node) []tex.Node { return tex.HCentered(nodes).Nodes() }
func want_C18_HCentered(nodes []tex.Node) []tex.Node {
	l := []tex.Node{tex.NewGlue("ss")}
	l = append(l, nodes...)
	return append(l, tex.NewGlue("ss"))
}

//vf:at github.com/go-latex/latex/tex.VCentered
//vf:identity
func got_C18_VCentered(nodes []tex.Node) []tex.Node { return tex.VCentered(nodes).Nodes() }

//vf:partial
func want_C18_VCentered(nodes []tex.Node) []tex.Node { return want_C18_HCentered(nodes) }

// ---- C22 character boxes

//vf:at github.com/go-latex/latex/tex.NewChar
func got_C22_NewChar(c string, st tex.State, math bool) (w, h, d float64) {
	ch := tex.NewChar(c, st, math)
	ch.Render(1, 2)
	return ch.Width(), ch.Height(), ch.Depth()
}
func want_C22_NewChar(c string, st tex.State, math bool) (w, h, d float64) {
	m := st.Backend().Metrics(c, st.Font, st.DPI, math)
	st.Backend().RenderGlyph(1, 2, st.Font, c, st.DPI)
	w = m.Width
	if c == " " {
		w = m.Advance
	}
	return w, m.Iceberg, m.Height - m.Iceberg
}

//vf:at github.com/go-latex/latex/tex.NewAccent
func got_C22_NewAccent(c string, st tex.State, math bool) (w, h, d float64) {
	ch := tex.NewAccent(c, st, math)
	return ch.Width(), ch.Height(), ch.Depth()
}
func want_C22_NewAccent(c string, st tex.State, math bool) (w, h, d float64) {
	m := st.Backend().Metrics(c, st.Font, st.DPI, math)
	return m.XMax - m.XMin, m.YMax - m.YMin, 0
}

// ---- C28 kerning and sized characters

//vf:at (*github.com/go-latex/latex/tex.HList).kern
func got_C28_HListOf(nodes []tex.Node) []tex.Node { return tex.HListOf(nodes, true).Nodes() }
func want_C28_HListOf(nodes []tex.Node) []tex.Node {
	var out []tex.Node
	for i := 0; i < len(nodes); i++ {
		var next tex.Node
		if i+1 < len(nodes) {
			next = nodes[i+1]
		}
		out = append(out, nodes[i])
		if k := nodes[i].Kerning(next); k != 0 {
			out = append(out, tex.NewKern(k))
		}
	}
	return out
}

func charKern(c *tex.Char, next tex.Node) float64 {
	k := X_tex_Char_metrics(c).Advance - c.Width()
	switch n := next.(type) {
	case *tex.Char:
		k += X_tex_Char_be(c).Kern(X_tex_Char_font(c), X_tex_Char_c(c), X_tex_Char_font(n), X_tex_Char_c(n), X_tex_Char_dpi(c))
	case *tex.Accent:
		a := X_tex_Accent_char(n)
		k += X_tex_Char_be(c).Kern(X_tex_Char_font(c), X_tex_Char_c(c), X_tex_Char_font(&a), X_tex_Char_c(&a), X_tex_Char_dpi(c))
	}
	return k
}

//vf:at (*github.com/go-latex/latex/tex.Char).Kerning
func got_C28_Char(c *tex.Char, next tex.Node) (k, last float64) {
	return c.Kerning(next), c.Kerning(nil)
}
func want_C28_Char(c *tex.Char, next tex.Node) (k, last float64) {
	return charKern(c, next), charKern(c, nil)
}

//vf:at (*github.com/go-latex/latex/tex.Accent).Kerning
func got_C28_Accent(a *tex.Accent, next tex.Node) (k, last float64) {
	return a.Kerning(next), a.Kerning(nil)
}
func want_C28_Accent(a *tex.Accent, next tex.Node) (k, last float64) {
	c := X_tex_Accent_char(a)
	return charKern(&c, next), charKern(&c, nil)
}

//vf:at (*github.com/go-latex/latex/tex.List).Kerning
//vf:world tex.Node Box Rule Glue Kern List HList VList
func got_C28_others(n, next tex.Node) (k, last float64)  { return n.Kerning(next), n.Kerning(nil) }
func want_C28_others(n, next tex.Node) (k, last float64) { return 0, 0 }

//vf:at (*github.com/go-latex/latex/tex.Accent).Render
func got_C28_accentAt(a *tex.Accent, x, y float64) int { a.Render(x, y); return 0 }
func want_C28_accentAt(a *tex.Accent, x, y float64) int {
	c := X_tex_Accent_char(a)
	m := X_tex_Char_metrics(&c)
	X_tex_Char_be(&c).RenderGlyph(x-m.XMin, y+m.YMin, X_tex_Char_font(&c), X_tex_Char_c(&c), X_tex_Char_dpi(&c))
	return 0
}

//vf:at github.com/go-latex/latex/tex.AutoHeightChar
func got_C28_AutoHeightChar(c string, height, depth float64, st tex.State, factor float64) (shift float64, nodes []tex.Node, w, h, d float64) {
	l := tex.AutoHeightChar(c, height, depth, st, factor)
	return l.Shift(), l.Nodes(), l.Width(), l.Height(), l.Depth()
}
func want_C28_AutoHeightChar(c string, height, depth float64, st tex.State, factor float64) (shift float64, nodes []tex.Node, w, h, d float64) {
	m := st.Backend().Metrics(c, st.Font, st.DPI, true)
	if st.Font.Name != "" {
		if factor == 0 {
			factor = (height + depth) / m.Height
		}
		st.Font.Size *= factor
		m = st.Backend().Metrics(c, st.Font, st.DPI, true)
		shift = depth - (m.Height - m.Iceberg)
	}
	ch := tex.NewChar(c, st, true)
	nodes = []tex.Node{ch}
	w = m.Width
	if c == " " {
		w = m.Advance
	}
	if m.Advance != w {
		k := m.Advance - w
		nodes = append(nodes, tex.NewKern(k))
		w += k
	}
	return shift, nodes, w, math.Max(0, m.Iceberg), math.Max(0, m.Height-m.Iceberg)
}

var _ font.Backend
