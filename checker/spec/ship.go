package vspec

import (
	"math"

	"github.com/go-latex/latex/tex"
)

// One level of output of a horizontal and a vertical list, and the contract
// of a nested one (see ship.go of the checker).
func S_hlist(s *tex.Ship, l tex.Tree)                                    { panic(0) }
func S_vlist(s *tex.Ship, l tex.Tree)                                    { panic(0) }
func R_hlist(n tex.Node, width, h, v, oh, ov float64) (float64, float64) { panic(0) }
func R_vlist(n tex.Node, width, h, v, oh, ov float64) (float64, float64) { panic(0) }
func F_ship(s *tex.Ship) (h, v, oh, ov float64)                          { panic(0) }
func X_tex_HList_nodes(l *tex.HList) []tex.Node                          { panic(0) }

// glueAt is the rounded total of the glue set so far.
func glueRound(set, total float64) int {
	x := set * total
	const big = 1e9
	if x < -big {
		x = -big
	} else if x > big {
		x = big
	}
	return int(math.Round(x))
}

//vf:at (*github.com/go-latex/latex/tex.Ship).Call
func got_C17_call(s *tex.Ship, x, y float64, l *tex.HList) { s.Call(x, y, l) }
func want_C17_call(s *tex.Ship, x, y float64, l *tex.HList) {
	R_hlist(l, 0, 0, 0, x, y+l.Height())
}

//vf:at (*github.com/go-latex/latex/tex.Ship).Call
func got_C17_callV(s *tex.Ship, x, y float64, l *tex.VList) { s.Call(x, y, l) }
func want_C17_callV(s *tex.Ship, x, y float64, l *tex.VList) {
	R_hlist(l, 0, 0, 0, x, y+l.Height())
}

func hlistWant(h, v, oh, ov float64, l tex.Tree) (h2, v2 float64) {
	total, set := 0.0, 0
	for _, n := range l.Nodes() {
		switch n := n.(type) {
		case *tex.Char:
			n.Render(h+oh, v+ov)
			h += n.Width()
		case *tex.Accent:
			n.Render(h+oh, v+ov)
			h += n.Width()
		case *tex.Kern:
			h += n.Width()
		case *tex.Glue:
			before := set
			if l.GlueSign() == 1 {
				if X_tex_Glue_stretchOrder(n) == l.GlueOrder() {
					total += X_tex_Glue_stretch(n)
					set = glueRound(l.GlueSet(), total)
				}
			} else if l.GlueSign() != 0 {
				if X_tex_Glue_shrinkOrder(n) == l.GlueOrder() {
					total += X_tex_Glue_shrink(n)
					set = glueRound(l.GlueSet(), total)
				}
			}
			h += n.Width() + float64(set) - float64(before)
		case *tex.HList:
			if len(n.Nodes()) > 0 {
				R_hlist(n, 0, h, v+n.Shift(), oh, ov)
			}
			h += n.Width()
		case *tex.VList:
			if len(n.Nodes()) > 0 {
				R_vlist(n, n.Width(), h, v+X_tex_VList_shift(n), oh, ov)
			}
			h += n.Width()
		case *tex.Rule:
			hh, d, w := n.Height(), n.Depth(), n.Width()
			if inf(hh) {
				hh = l.Height()
			}
			if inf(d) {
				d = l.Depth()
			}
			if hh > 0 && w > 0 {
				ruleAt(n, h+oh, v+d+ov, w, hh)
			}
			h += w
		}
	}
	return h, v
}

// ruleAt draws a rule from its bottom left corner.
func ruleAt(n *tex.Rule, x, y, w, h float64) {
	X_tex_Rule_out(n).RenderRectFilled(x, y, x+w, y+h)
}

//vf:at (*github.com/go-latex/latex/tex.Ship).Call
func got_C17_hlist(s *tex.Ship, l *tex.HList) (h, v, oh, ov float64) {
	S_hlist(s, l)
	return F_ship(s)
}
func want_C17_hlist(s *tex.Ship, l *tex.HList) (h, v, oh, ov float64) {
	h, v, oh, ov = F_ship(s)
	h, v = hlistWant(h, v, oh, ov, l)
	return
}

// vlistWant: the cursor starts at the top of the list; every item moves it
// down by its height and depth.
func vlistWant(h, v, oh, ov float64, l tex.Tree) (h2, v2 float64) {
	total, set := 0.0, 0
	v -= l.Height()
	for _, n := range l.Nodes() {
		switch n := n.(type) {
		case *tex.Kern:
			v += n.Width()
		case *tex.Glue:
			before := set
			if l.GlueSign() == 1 {
				if X_tex_Glue_stretchOrder(n) == l.GlueOrder() {
					total += X_tex_Glue_stretch(n)
					set = glueRound(l.GlueSet(), total)
				}
			} else if l.GlueSign() != 0 {
				if X_tex_Glue_shrinkOrder(n) == l.GlueOrder() {
					total += X_tex_Glue_shrink(n)
					set = glueRound(l.GlueSet(), total)
				}
			}
			v += n.Width() + float64(set) - float64(before)
		case *tex.HList:
			if len(n.Nodes()) > 0 {
				R_hlist(n, 0, h+n.Shift(), v+n.Height(), oh, ov)
			}
			v += n.Height() + n.Depth()
		case *tex.VList:
			if len(n.Nodes()) > 0 {
				R_vlist(n, l.Width(), h+X_tex_VList_shift(n), v+n.Height(), oh, ov)
			}
			v += n.Height() + n.Depth()
		case *tex.Rule:
			w, hh := n.Width(), n.Height()+n.Depth()
			if inf(w) {
				w = l.Width()
			}
			v += hh
			if hh > 0 && w > 0 {
				ruleAt(n, h+oh, v+ov, w, hh)
			}
		case *tex.Char, *tex.Accent:
			panic("characters do not occur in vertical lists")
		}
	}
	return h, v
}

//vf:at (*github.com/go-latex/latex/tex.Ship).Call
func got_C17_vlist(s *tex.Ship, l *tex.VList) (h, v, oh, ov float64) {
	S_vlist(s, l)
	return F_ship(s)
}

//vf:partial
func want_C17_vlist(s *tex.Ship, l *tex.VList) (h, v, oh, ov float64) {
	h, v, oh, ov = F_ship(s)
	h, v = vlistWant(h, v, oh, ov, l)
	return
}

//vf:at (*github.com/go-latex/latex/tex.Ship).Call
func got_C17_hlistOfV(s *tex.Ship, l *tex.VList) (h, v, oh, ov float64) {
	S_hlist(s, l)
	return F_ship(s)
}
func want_C17_hlistOfV(s *tex.Ship, l *tex.VList) (h, v, oh, ov float64) {
	h, v, oh, ov = F_ship(s)
	h, v = hlistWant(h, v, oh, ov, l)
	return
}
