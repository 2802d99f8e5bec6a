package vspec

import (
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"
)

// The models of parsing, seen as: the delimiters that end what is open (C02),
// positions (C04), and the mode that nested parts are parsed in (C05).

// strip leaves the positions out.
func strip(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.Word:
		return &ast.Word{Text: n.Text}
	case *ast.Literal:
		return &ast.Literal{Text: n.Text}
	case *ast.Symbol:
		return &ast.Symbol{Text: n.Text}
	case *ast.Ident:
		return &ast.Ident{Name: n.Name}
	case *ast.MathExpr:
		return &ast.MathExpr{Delim: n.Delim, List: n.List}
	case *ast.Sup:
		return &ast.Sup{Node: n.Node}
	case *ast.Sub:
		return &ast.Sub{Node: n.Node}
	case *ast.Arg:
		return &ast.Arg{List: n.List}
	case *ast.OptArg:
		return &ast.OptArg{List: n.List}
	case *ast.Macro:
		var args ast.List
		for _, x := range n.Args {
			args = append(args, stripArg(x))
		}
		return &ast.Macro{Name: &ast.Ident{Name: n.Name.Name}, Args: args}
	}
	return n
}

func stripArg(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.Arg:
		return &ast.Arg{List: n.List}
	case *ast.OptArg:
		return &ast.OptArg{List: n.List}
	}
	return n
}

func argPos(n ast.Node) (a, b token.Pos) {
	switch n := n.(type) {
	case *ast.Arg:
		return n.Lbrace, n.Rbrace
	case *ast.OptArg:
		return n.Lbrack, n.Rbrack
	}
	return
}

// positions are those recorded in a node.
func positions(n ast.Node) (p []token.Pos) {
	switch n := n.(type) {
	case *ast.Word:
		p = append(p, n.WordPos)
	case *ast.Literal:
		p = append(p, n.LitPos)
	case *ast.Symbol:
		p = append(p, n.SymPos)
	case *ast.Ident:
		p = append(p, n.NamePos)
	case *ast.MathExpr:
		p = append(p, n.Left, n.Right)
	case *ast.Sup:
		p = append(p, n.HatPos)
	case *ast.Sub:
		p = append(p, n.UnderPos)
	case *ast.Arg:
		p = append(p, n.Lbrace, n.Rbrace)
	case *ast.OptArg:
		p = append(p, n.Lbrack, n.Rbrack)
	case *ast.Macro:
		p = append(p, n.Name.NamePos)
		for _, x := range n.Args {
			a, b := argPos(x)
			p = append(p, a, b)
		}
	}
	return p
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_leaf(s Stream, tok token.Token, math bool) (p []token.Pos) {
	n, _, _ := got_node_leaf(s, tok, math)
	return positions(n)
}

func want_C04_leaf(s Stream, tok token.Token, math bool) (p []token.Pos) {
	n, _, _ := want_node_leaf(s, tok, math)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_blank(s Stream, text string, pos token.Pos, math bool) (none, frame bool) {
	n, _, frame := got_node_leaf(s, token.Token{Kind: token.Space, Pos: pos, Text: text}, math)
	return n == nil, frame
}

func want_C05_blank(s Stream, text string, pos token.Pos, math bool) (none, frame bool) {
	n, _, frame := want_node_leaf(s, token.Token{Kind: token.Space, Pos: pos, Text: text}, math)
	return n == nil, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_math(s Stream, pos token.Pos, math bool) (p []token.Pos) {
	n, _, _ := got_node_math(s, pos, math)
	return positions(n)
}

func want_C04_math(s Stream, pos token.Pos, math bool) (p []token.Pos) {
	n, _, _ := want_node_math(s, pos, math)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_math(s Stream, pos token.Pos, math bool) (rest Stream) {
	_, rest, _ = got_node_math(s, pos, math)
	return
}

func want_C02_math(s Stream, pos token.Pos, math bool) (rest Stream) {
	_, rest, _ = want_node_math(s, pos, math)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_math(s Stream, pos token.Pos, math bool) (rest Stream, frame bool) {
	_, rest, frame = got_node_math(s, pos, math)
	return
}

func want_C05_math(s Stream, pos token.Pos, math bool) (rest Stream, frame bool) {
	_, rest, frame = want_node_math(s, pos, math)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_sup_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sup_inmath(s, pos)
	return positions(n)
}

func want_C04_sup_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sup_inmath(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_sup_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sup_inmath(s, pos)
	return
}

func want_C02_sup_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sup_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_sup_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sup_inmath(s, pos)
	return
}

func want_C05_sup_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sup_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_sup_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sup_intext(s, pos)
	return positions(n)
}

func want_C04_sup_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sup_intext(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_sup_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sup_intext(s, pos)
	return
}

func want_C02_sup_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sup_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_sup_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sup_intext(s, pos)
	return
}

func want_C05_sup_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sup_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_sub_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sub_inmath(s, pos)
	return positions(n)
}

func want_C04_sub_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sub_inmath(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_sub_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sub_inmath(s, pos)
	return
}

func want_C02_sub_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sub_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_sub_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sub_inmath(s, pos)
	return
}

func want_C05_sub_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sub_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_sub_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sub_intext(s, pos)
	return positions(n)
}

func want_C04_sub_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sub_intext(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_sub_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sub_intext(s, pos)
	return
}

func want_C02_sub_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sub_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_sub_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sub_intext(s, pos)
	return
}

func want_C05_sub_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sub_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_brace_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_brace_inmath(s, pos)
	return positions(n)
}

func want_C04_brace_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_brace_inmath(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C02_brace_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_brace_inmath(s, pos)
	return
}

func want_C02_brace_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_brace_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C05_brace_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_brace_inmath(s, pos)
	return
}

func want_C05_brace_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_brace_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macro
//vf:partial
func got_C04_macro(s Stream, name string, pos token.Pos, math bool) (p []token.Pos) {
	n, _, _ := got_node_macro(s, name, pos, math)
	return positions(n)
}

func want_C04_macro(s Stream, name string, pos token.Pos, math bool) (p []token.Pos) {
	n, _, _ := want_node_macro(s, name, pos, math)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
//vf:partial
func got_C04_one_inmath(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_one_inmath(s, name, pos)
	return positions(n)
}

func want_C04_one_inmath(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_one_inmath(s, name, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
func got_C02_one_inmath(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_one_inmath(s, name, pos)
	return
}

func want_C02_one_inmath(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_one_inmath(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
//vf:partial
func got_C05_one_inmath(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_one_inmath(s, name, pos)
	return
}

func want_C05_one_inmath(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_one_inmath(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
//vf:partial
func got_C04_two_inmath(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_two_inmath(s, name, pos)
	return positions(n)
}

func want_C04_two_inmath(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_two_inmath(s, name, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
func got_C02_two_inmath(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_two_inmath(s, name, pos)
	return
}

func want_C02_two_inmath(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_two_inmath(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
//vf:partial
func got_C05_two_inmath(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_two_inmath(s, name, pos)
	return
}

func want_C05_two_inmath(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_two_inmath(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:partial
func got_C04_sqrt_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sqrt_inmath(s, pos)
	return positions(n)
}

func want_C04_sqrt_inmath(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sqrt_inmath(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
func got_C02_sqrt_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sqrt_inmath(s, pos)
	return
}

func want_C02_sqrt_inmath(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sqrt_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:partial
func got_C05_sqrt_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sqrt_inmath(s, pos)
	return
}

func want_C05_sqrt_inmath(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sqrt_inmath(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
//vf:partial
func got_C04_one_intext(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_one_intext(s, name, pos)
	return positions(n)
}

func want_C04_one_intext(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_one_intext(s, name, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
func got_C02_one_intext(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_one_intext(s, name, pos)
	return
}

func want_C02_one_intext(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_one_intext(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
//vf:partial
func got_C05_one_intext(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_one_intext(s, name, pos)
	return
}

func want_C05_one_intext(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_one_intext(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
//vf:partial
func got_C04_two_intext(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_two_intext(s, name, pos)
	return positions(n)
}

func want_C04_two_intext(s Stream, name string, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_two_intext(s, name, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
func got_C02_two_intext(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_two_intext(s, name, pos)
	return
}

func want_C02_two_intext(s Stream, name string, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_two_intext(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
//vf:partial
func got_C05_two_intext(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_two_intext(s, name, pos)
	return
}

func want_C05_two_intext(s Stream, name string, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_two_intext(s, name, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:partial
func got_C04_sqrt_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := got_node_sqrt_intext(s, pos)
	return positions(n)
}

func want_C04_sqrt_intext(s Stream, pos token.Pos) (p []token.Pos) {
	n, _, _ := want_node_sqrt_intext(s, pos)
	return positions(n)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
func got_C02_sqrt_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = got_node_sqrt_intext(s, pos)
	return
}

func want_C02_sqrt_intext(s Stream, pos token.Pos) (rest Stream) {
	_, rest, _ = want_node_sqrt_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:partial
func got_C05_sqrt_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = got_node_sqrt_intext(s, pos)
	return
}

func want_C05_sqrt_intext(s Stream, pos token.Pos) (rest Stream, frame bool) {
	_, rest, frame = want_node_sqrt_intext(s, pos)
	return
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:partial
func got_C04_token(s Stream) (pos token.Pos) {
	_, _, pos, _, _, _ = got_C03_token(s)
	return
}

func want_C04_token(s Stream) (pos token.Pos) {
	_, _, pos, _, _, _ = want_C03_token(s)
	return
}
