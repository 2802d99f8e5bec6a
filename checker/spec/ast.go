package vspec

import (
	"io"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
)

// Positions of nodes.

//vf:at (github.com/go-latex/latex/ast.List).Pos
//vf:opaque (ast.Node).Pos (ast.Node).End
func got_C04_list(x ast.List) (pos, end token.Pos) { return x.Pos(), x.End() }
func want_C04_list(x ast.List) (pos, end token.Pos) {
	if len(x) == 0 {
		return -1, -1
	}
	return x[0].Pos(), x[len(x)-1].End()
}

//vf:at (*github.com/go-latex/latex/ast.Macro).Pos
//vf:opaque (ast.Node).Pos (ast.Node).End
func got_C04_macronode(at token.Pos, name string, args ast.List) (pos, end token.Pos) {
	x := &ast.Macro{Name: &ast.Ident{NamePos: at, Name: name}, Args: args}
	return x.Pos(), x.End()
}
func want_C04_macronode(at token.Pos, name string, args ast.List) (pos, end token.Pos) {
	if len(args) == 0 {
		return at, at + token.Pos(len(name))
	}
	return at, args[len(args)-1].End()
}

//vf:at (*github.com/go-latex/latex/ast.Ident).Pos
func got_C04_leaves(k int, at token.Pos, text string) (pos, end token.Pos) {
	var x ast.Node
	switch k {
	case 0:
		x = &ast.Ident{NamePos: at, Name: text}
	case 1:
		x = &ast.Word{WordPos: at, Text: text}
	case 2:
		x = &ast.Literal{LitPos: at, Text: text}
	case 3:
		x = &ast.Symbol{SymPos: at, Text: text}
	default:
		panic("none")
	}
	return x.Pos(), x.End()
}
func want_C04_leaves(k int, at token.Pos, text string) (pos, end token.Pos) {
	if k < 0 || k > 3 {
		panic("none")
	}
	return at, at + token.Pos(len(text))
}

//vf:at (*github.com/go-latex/latex/ast.Arg).Pos
func got_C04_args(k int, a, b token.Pos, l ast.List) (pos, end token.Pos) {
	var x ast.Node
	switch k {
	case 0:
		x = &ast.Arg{Lbrace: a, List: l, Rbrace: b}
	case 1:
		x = &ast.OptArg{Lbrack: a, List: l, Rbrack: b}
	default:
		panic("none")
	}
	return x.Pos(), x.End()
}
func want_C04_args(k int, a, b token.Pos, l ast.List) (pos, end token.Pos) {
	if k < 0 || k > 1 {
		panic("none")
	}
	return a, b + 1
}

//vf:at (*github.com/go-latex/latex/ast.MathExpr).Pos
func got_C04_mathexpr(delim string, a, b token.Pos, l ast.List) (pos, end token.Pos) {
	x := &ast.MathExpr{Delim: delim, Left: a, List: l, Right: b}
	return x.Pos(), x.End()
}
func want_C04_mathexpr(delim string, a, b token.Pos, l ast.List) (pos, end token.Pos) {
	return a, b + token.Pos(len(delim))
}

//vf:at (*github.com/go-latex/latex/ast.Sub).End
//vf:opaque (ast.Node).Pos (ast.Node).End
func got_C04_scripts(k int, at token.Pos, n ast.Node) (pos, end token.Pos) {
	switch k {
	case 0:
		x := &ast.Sub{UnderPos: at, Node: n}
		return x.Pos(), x.End()
	case 1:
		x := &ast.Sup{HatPos: at, Node: n}
		return x.Pos(), x.End()
	}
	panic("none")
}
func want_C04_scripts(k int, at token.Pos, n ast.Node) (pos, end token.Pos) {
	if k < 0 || k > 1 {
		panic("none")
	}
	return at, n.End()
}

// Traversal.

//vf:at github.com/go-latex/latex/ast.Walk
//vf:walk
//vf:each k kinds
func got_C06_walk(v ast.Visitor, k int, a, b ast.Node, l ast.List, id *ast.Ident, text string, p, q token.Pos) {
	ast.Walk(v, someNode(k, a, l, id, text, p, q))
}
func want_C06_walk(v ast.Visitor, k int, a, b ast.Node, l ast.List, id *ast.Ident, text string, p, q token.Pos) {
	n := someNode(k, a, l, id, text, p, q)
	w := v.Visit(n)
	if w == nil {
		return
	}
	switch k {
	case 0, 2, 3, 4:
		for _, x := range l {
			ast.Walk(w, x)
		}
	case 1:
		if id != nil {
			ast.Walk(w, id)
		}
		for _, x := range l {
			ast.Walk(w, x)
		}
	case 5, 6:
		ast.Walk(w, a)
	}
	w.Visit(nil)
}

// someNode is a node of each kind.
func someNode(k int, a ast.Node, l ast.List, id *ast.Ident, text string, p, q token.Pos) ast.Node {
	switch k {
	case 0:
		return l
	case 1:
		return &ast.Macro{Name: id, Args: l}
	case 2:
		return &ast.Arg{Lbrace: p, List: l, Rbrace: q}
	case 3:
		return &ast.OptArg{Lbrack: p, List: l, Rbrack: q}
	case 4:
		return &ast.MathExpr{Delim: text, Left: p, List: l, Right: q}
	case 5:
		return &ast.Sub{UnderPos: p, Node: a}
	case 6:
		return &ast.Sup{HatPos: p, Node: a}
	case 7:
		return &ast.Ident{NamePos: p, Name: text}
	case 8:
		return &ast.Word{WordPos: p, Text: text}
	case 9:
		return &ast.Literal{LitPos: p, Text: text}
	case 10:
		return &ast.Symbol{SymPos: p, Text: text}
	}
	panic("none")
}

//vf:at github.com/go-latex/latex/ast.Inspect
//vf:walk
//vf:each k kinds
func got_C06_inspect(f func(ast.Node) bool, k int, a ast.Node, l ast.List, id *ast.Ident, text string, p, q token.Pos) {
	ast.Inspect(someNode(k, a, l, id, text, p, q), f)
}
func want_C06_inspect(f func(ast.Node) bool, k int, a ast.Node, l ast.List, id *ast.Ident, text string, p, q token.Pos) {
	n := someNode(k, a, l, id, text, p, q)
	if !f(n) {
		return
	}
	switch k {
	case 0, 2, 3, 4:
		for _, x := range l {
			ast.Inspect(x, f)
		}
	case 1:
		if id != nil {
			ast.Inspect(id, f)
		}
		for _, x := range l {
			ast.Inspect(x, f)
		}
	case 5, 6:
		ast.Inspect(a, f)
	}
	f(nil)
}

func W_text(w io.Writer, s string) { panic(0) }

//vf:at github.com/go-latex/latex/ast.Print
//vf:print
//vf:each k kinds
func got_C07_print(w io.Writer, k int, a ast.Node, l ast.List, name, text string, p, q token.Pos) {
	ast.Print(w, someNode(k, a, l, &ast.Ident{Name: name}, text, p, q))
}
func want_C07_print(w io.Writer, k int, a ast.Node, l ast.List, name, text string, p, q token.Pos) {
	switch k {
	case 0, 2, 3, 4:
		for _, x := range l {
			ast.Print(w, x)
		}
	case 1:
		W_text(w, name)
		for _, x := range l {
			ast.Print(w, x)
		}
	case 5, 6:
		ast.Print(w, a)
	case 7, 8, 9, 10:
		W_text(w, text)
	default:
		panic("none")
	}
}

//vf:at github.com/go-latex/latex/ast.Print
//vf:print
func got_C07_nil(w io.Writer)  { ast.Print(w, nil) }
func want_C07_nil(w io.Writer) {}
