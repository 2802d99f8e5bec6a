package vspec

import (
	"math"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/mtex"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/token"

	latex "github.com/go-latex/latex"
)

// V_visit lays out one node: the boxes it appends, the state and mode
// afterwards, whether the children are walked by the traversal, and whether
// everything else of the visitor is as before.  L_nodes is the contract of a
// nested walk.
func V_visit(be font.Backend, expr string, n ast.Node, st tex.State, mode bool) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	panic(0)
}
func L_nodes(n ast.Node, st tex.State, mode bool) []tex.Node { panic(0) }

func lay(n ast.Node, st tex.State, mode bool) *tex.HList {
	return tex.HListOf(L_nodes(n, st, mode), true)
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_parse(expr string, size, dpi float64, be font.Backend) (n tex.Node, failed bool) {
	n, err := mtex.Parse(expr, size, dpi, be)
	return n, err != nil
}
func want_C10_parse(expr string, size, dpi float64, be font.Backend) (n tex.Node, failed bool) {
	tree, err := latex.ParseExpr(expr)
	if err != nil {
		return nil, true
	}
	return lay(tree, tex.NewState(be, font.Font{Name: "default", Size: size, Type: "rm"}, dpi), false), false
}

// What the layout of one node is compared on: the boxes it appends, the state
// and mode afterwards, and whether everything else of the visitor is as before.
func leaf(be font.Backend, expr string, n ast.Node, st tex.State, mode bool) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	nodes, st2, math2, _, frame = V_visit(be, expr, n, st, mode)
	return
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_word(be font.Backend, expr string, st tex.State, mode bool, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Word{Text: text}, st, mode)
}
func want_C10_word(be font.Backend, expr string, st tex.State, mode bool, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	var cs []tex.Node
	for _, x := range text {
		cs = append(cs, tex.NewChar(string(x), st, mode))
	}
	return []tex.Node{tex.HListOf(cs, true)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_list(be font.Backend, expr string, st tex.State, mode bool, l ast.List) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	return V_visit(be, expr, l, st, mode)
}
func want_C10_list(be font.Backend, expr string, st tex.State, mode bool, l ast.List) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	return nil, st, mode, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_end(be font.Backend, expr string, st tex.State, mode bool) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, nil, st, mode)
}
func want_C10_end(be font.Backend, expr string, st tex.State, mode bool) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return nil, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_mathexpr(be font.Backend, expr string, st tex.State, mode bool, l ast.List, pos token.Pos, delim string) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	return V_visit(be, expr, &ast.MathExpr{Delim: delim, Left: pos, List: l, Right: pos}, st, mode)
}
func want_C10_mathexpr(be font.Backend, expr string, st tex.State, mode bool, l ast.List, pos token.Pos, delim string) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	in := st
	in.Font.Type = "it"
	for _, x := range l {
		nodes = append(nodes, L_nodes(x, in, true)...)
	}
	return nodes, st, mode, false, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C05_mathexpr(be font.Backend, expr string, st tex.State, mode bool, l ast.List, pos token.Pos, delim string) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	return V_visit(be, expr, &ast.MathExpr{Delim: delim, Left: pos, List: l, Right: pos}, st, mode)
}
func want_C05_mathexpr(be font.Backend, expr string, st tex.State, mode bool, l ast.List, pos token.Pos, delim string) (nodes []tex.Node, st2 tex.State, math2, descend, frame bool) {
	in := st
	in.Font.Type = "it"
	for _, x := range l {
		nodes = append(nodes, L_nodes(x, in, true)...)
	}
	return nodes, st, mode, false, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_no_arg(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Arg{List: l}, st, mode)
}
func want_C10_no_arg(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_no_optarg(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.OptArg{List: l}, st, mode)
}
func want_C10_no_optarg(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_no_sup(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Sup{Node: l}, st, mode)
}
func want_C10_no_sup(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_no_sub(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Sub{Node: l}, st, mode)
}
func want_C10_no_sub(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_no_ident(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Ident{Name: delim}, st, mode)
}
func want_C10_no_ident(be font.Backend, expr string, st tex.State, mode bool, l ast.List, delim string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_symbolText(be font.Backend, expr string, st tex.State, mode bool, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	if text == `\ ` {
		return nil, st, false, true
	}
	return leaf(be, expr, &ast.Symbol{Text: text}, st, false)
}
func want_C10_symbolText(be font.Backend, expr string, st tex.State, mode bool, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	if text == `\ ` {
		return nil, st, false, true
	}
	return []tex.Node{tex.NewChar(text, st, false)}, st, false, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C11_frac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\frac`}, Args: ast.List{&ast.Arg{List: num}, &ast.Arg{List: den}}}, st, mode)
}
func want_C11_frac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	thick := st.Backend().UnderlineThickness(st.Font, st.DPI)
	f := fraction(lay(num, st, mode), lay(den, st, mode), thick, true, st)
	return []tex.Node{f}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C11_tfrac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\tfrac`}, Args: ast.List{&ast.Arg{List: num}, &ast.Arg{List: den}}}, st, mode)
}
func want_C11_tfrac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	thick := st.Backend().UnderlineThickness(st.Font, st.DPI)
	f := fraction(lay(num, st, mode), lay(den, st, mode), thick, true, st)
	return []tex.Node{f}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C11_dfrac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\dfrac`}, Args: ast.List{&ast.Arg{List: num}, &ast.Arg{List: den}}}, st, mode)
}
func want_C11_dfrac(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	thick := st.Backend().UnderlineThickness(st.Font, st.DPI)
	f := fraction(lay(num, st, mode), lay(den, st, mode), thick, false, st)
	return []tex.Node{f}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C11_binom(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\binom`}, Args: ast.List{&ast.Arg{List: num}, &ast.Arg{List: den}}}, st, mode)
}
func want_C11_binom(be font.Backend, expr string, st tex.State, mode bool, num, den ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	f := fraction(lay(num, st, mode), lay(den, st, mode), 0, true, st)
	return []tex.Node{parens(f, st)}, st, mode, true
}

// fraction stacks num over den: reduced one step in text style, both packed
// to the larger width, and the same space on both sides of the rule, which
// lies on the axis: the middle of the equals sign.
func fraction(num, den *tex.HList, rule float64, text bool, st tex.State) *tex.HList {
	t := st.Backend().UnderlineThickness(st.Font, st.DPI)
	if text {
		num.Shrink()
		den.Shrink()
	}
	w := math.Max(num.Width(), den.Width())
	above := tex.HCentered([]tex.Node{num})
	above.HPack(w, false)
	below := tex.HCentered([]tex.Node{den})
	below.HPack(w, false)
	l := tex.VListOf([]tex.Node{above, tex.VBox(0, 2*t), tex.HRule(st, rule), tex.VBox(0, 2*t), below})
	eq := st.Font
	eq.Type = "it"
	m := st.Backend().Metrics("=", eq, st.DPI, true)
	axis := (m.YMin+m.YMax)/2 - 3*t
	l.SetShift(below.Height() - axis)
	return tex.HListOf([]tex.Node{l, tex.HBox(2 * t)}, true)
}

// parens encloses a box in parentheses of its size.
func parens(box *tex.HList, st tex.State) *tex.HList {
	h, d := math.Max(0, box.Height()), math.Max(0, box.Depth())
	return tex.HListOf([]tex.Node{
		tex.AutoHeightChar("(", h, d, st, 0), box, tex.AutoHeightChar(")", h, d, st, 0),
	}, true)
}

// ruled places a box under a rule, in a stack of the given height and depth.
func ruled(box tex.Node, h, d float64, st tex.State) *tex.VList {
	l := tex.VListOf([]tex.Node{tex.HRule(st, -1), tex.NewGlue("fill"), box})
	l.VPack(h+st.Font.Size*st.DPI/1200, false, d)
	return l
}

func radical(index tex.Node, body *tex.HList, st tex.State) *tex.HList {
	t := st.Backend().UnderlineThickness(st.Font, st.DPI)
	h, d := body.Height()-body.Shift()+5*t, body.Depth()+body.Shift()
	sign := tex.AutoHeightChar(`\__sqrt__`, h, d, st, 0)
	h, d = sign.Height()-sign.Shift(), sign.Depth()+sign.Shift()
	inner := tex.HListOf([]tex.Node{tex.HBox(2 * t), body, tex.HBox(2 * t)}, true)
	roof := ruled(inner, h, d, st)
	if index == nil {
		index = tex.HBox(0.5 * sign.Width())
	} else {
		index.Shrink()
		index.Shrink()
	}
	up := tex.VListOf([]tex.Node{tex.HListOf([]tex.Node{index}, true)})
	up.SetShift(-0.6 * h)
	return tex.HListOf([]tex.Node{up, tex.NewKern(-0.5 * sign.Width()), sign, roof}, true)
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C12_sqrt(be font.Backend, expr string, st tex.State, mode bool, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\sqrt`}, Args: ast.List{&ast.Arg{List: body}}}, st, mode)
}
func want_C12_sqrt(be font.Backend, expr string, st tex.State, mode bool, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{radical(nil, lay(body, st, mode), st)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C12_root(be font.Backend, expr string, st tex.State, mode bool, index, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\sqrt`}, Args: ast.List{&ast.OptArg{List: index}, &ast.Arg{List: body}}}, st, mode)
}
func want_C12_root(be font.Backend, expr string, st tex.State, mode bool, index, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	i := lay(index, st, mode)
	return []tex.Node{radical(i, lay(body, st, mode), st)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C12_overline(be font.Backend, expr string, st tex.State, mode bool, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\overline`}, Args: ast.List{&ast.Arg{List: body}}}, st, mode)
}
func want_C12_overline(be font.Backend, expr string, st tex.State, mode bool, body ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	t := st.Backend().UnderlineThickness(st.Font, st.DPI)
	b := lay(body, st, mode)
	h, d := b.Height()-b.Shift()+3*t, b.Depth()+b.Shift()
	return []tex.Node{tex.HListOf([]tex.Node{ruled(tex.HListOf([]tex.Node{b}, true), h, d, st)}, true)}, st, mode, true
}

// shaped lays out a macro with arguments of the given kinds: A is a mandatory
// one, O an optional one.
func shaped(be font.Backend, expr string, st tex.State, mode bool, name, kinds string, a, b, c, d ast.List) (nodes []tex.Node) {
	var args ast.List
	if len(kinds) > 0 {
		args = append(args, shape(kinds[0] == 'O', a))
	}
	if len(kinds) > 1 {
		args = append(args, shape(kinds[1] == 'O', b))
	}
	if len(kinds) > 2 {
		args = append(args, shape(kinds[2] == 'O', c))
	}
	if len(kinds) > 3 {
		args = append(args, shape(kinds[3] == 'O', d))
	}
	nodes, _, _, _ = leaf(be, expr, &ast.Macro{Name: &ast.Ident{Name: name}, Args: args}, st, mode)
	return nodes
}

func shape(optional bool, l ast.List) ast.Node {
	if optional {
		return &ast.OptArg{List: l}
	}
	return &ast.Arg{List: l}
}
