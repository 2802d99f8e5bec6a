package vspec

import (
	"text/scanner"
	"unicode"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/token"

	latex "github.com/go-latex/latex"
)

// Stream is a place in the stream of tokens (S_), or in the stream of pieces
// that text/scanner finds (R_).
type Stream *struct{}

func S_init(x string) Stream            { panic(0) }
func S_next(s Stream) Stream            { panic(0) }
func S_token(s Stream) token.Token      { panic(0) }
func S_peek(s Stream) rune              { panic(0) }
func R_scan(s Stream, ws uint64) Stream { panic(0) }
func R_peek(s Stream) rune              { panic(0) }
func R_rune(s Stream) rune              { panic(0) }
func R_text(s Stream) string            { panic(0) }
func R_pos(s Stream) token.Pos          { panic(0) }

// N_node is the node of the token at a place, N_rest the place of its last token.
func N_node(s Stream, math bool) ast.Node { panic(0) }
func N_rest(s Stream, math bool) Stream   { panic(0) }

// V_expr is ParseExpr; V_node its parsing of one node, V_token of one token.
func V_expr(x string) (n ast.Node, failed bool)                                         { panic(0) }
func V_node(s Stream, tok token.Token, math bool) (n ast.Node, rest Stream, frame bool) { panic(0) }
func V_token(s Stream) (tok token.Token, more bool, rest Stream, frame bool)            { panic(0) }
func V_blanks() uint64                                                                  { panic(0) }
func V_mode() uint                                                                      { panic(0) }
func V_ident(ch rune, i int) bool                                                       { panic(0) }

var _ = latex.ParseExpr

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_expr(x string) (n ast.Node, failed bool) { return V_expr(x) }
func want_C03_expr(x string) (n ast.Node, failed bool) {
	var l ast.List
	s := S_init(x)
	for {
		s = S_next(s)
		if S_token(s).Kind == token.EOF {
			break
		}
		x := N_node(s, false)
		s = N_rest(s, false)
		if x != nil {
			l = append(l, x)
		}
	}
	return l, false
}

// group is what lies between the place s and the token that ends the group.
func group(s Stream, math bool, ends func(token.Token) bool) (l ast.List, end Stream) {
	for {
		s = S_next(s)
		t := S_token(s)
		if t.Kind == token.EOF {
			panic("not closed")
		}
		if ends(t) {
			return l, s
		}
		x := N_node(s, math)
		s = N_rest(s, math)
		if x != nil {
			l = append(l, x)
		}
	}
}

func isKind(k token.Kind) func(token.Token) bool {
	return func(t token.Token) bool { return t.Kind == k }
}

// operand is the next node.
func operand(s Stream, math bool) (ast.Node, Stream) {
	for {
		s = S_next(s)
		if S_token(s).Kind == token.EOF {
			panic("no operand")
		}
		x := N_node(s, math)
		s = N_rest(s, math)
		if x != nil {
			return x, s
		}
	}
}

// script is what a sub- or superscript applies to.
func script(s Stream, math bool) (ast.Node, Stream) {
	if S_peek(s) == '{' {
		s = S_next(s)
		if S_token(s).Text != "{" {
			panic("no brace")
		}
		l, s := group(s, math, isKind(token.Rbrace))
		return l, s
	}
	return operand(s, math)
}

func isSpecial(t token.Token) bool {
	return t.Kind == token.Macro || t.Kind == token.Lbrace ||
		t.Kind == token.Symbol && (t.Text == "$" || t.Text == "^" || t.Text == "_")
}

// Tokens that are nodes of their own.
func got_node_leaf(s Stream, tok token.Token, math bool) (n ast.Node, rest Stream, frame bool) {
	if isSpecial(tok) {
		panic("of no concern here")
	}
	return V_node(s, tok, math)
}
func want_node_leaf(s Stream, tok token.Token, math bool) (n ast.Node, rest Stream, frame bool) {
	if isSpecial(tok) {
		panic("of no concern here")
	}
	switch tok.Kind {
	case token.Comment:
		return nil, s, true
	case token.Word:
		return &ast.Word{WordPos: tok.Pos, Text: tok.Text}, s, true
	case token.Number:
		return &ast.Literal{LitPos: tok.Pos, Text: tok.Text}, s, true
	case token.Symbol, token.Lparen, token.Rparen, token.Lbrack, token.Rbrack:
		return &ast.Symbol{SymPos: tok.Pos, Text: tok.Text}, s, true
	case token.Space:
		if math && tok.Text == " " {
			return nil, s, true
		}
		return &ast.Symbol{SymPos: tok.Pos, Text: tok.Text}, s, true
	}
	panic("not part of the language")
}

func got_node_math(s Stream, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Symbol, Pos: pos, Text: "$"}, math)
}
func want_node_math(s Stream, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	l, end := group(s, true, func(t token.Token) bool { return t.Text == "$" })
	return &ast.MathExpr{Delim: "$", Left: pos, List: l, Right: S_token(end).Pos}, end, true
}

func got_node_sup_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Symbol, Pos: pos, Text: "^"}, true)
}
func want_node_sup_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	x, end := script(s, true)
	return &ast.Sup{HatPos: pos, Node: x}, end, true
}

func got_node_sup_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Symbol, Pos: pos, Text: "^"}, false)
}
func want_node_sup_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	x, end := script(s, false)
	return &ast.Sup{HatPos: pos, Node: x}, end, true
}

func got_node_sub_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Symbol, Pos: pos, Text: "_"}, true)
}
func want_node_sub_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	x, end := script(s, true)
	return &ast.Sub{UnderPos: pos, Node: x}, end, true
}

func got_node_sub_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Symbol, Pos: pos, Text: "_"}, false)
}
func want_node_sub_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	x, end := script(s, false)
	return &ast.Sub{UnderPos: pos, Node: x}, end, true
}

func got_node_brace_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Lbrace, Pos: pos, Text: "{"}, true)
}
func want_node_brace_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	l, end := group(s, true, isKind(token.Rbrace))
	return l, end, true
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_brace_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Lbrace, Pos: pos, Text: "{"}, false)
}
func want_C03_brace_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	panic("not part of the language")
}

func arg(s Stream, math bool) (*ast.Arg, Stream) {
	s = S_next(s)
	if S_token(s).Text != "{" {
		panic("no argument")
	}
	l, end := group(s, math, isKind(token.Rbrace))
	return &ast.Arg{Lbrace: S_token(s).Pos, List: l, Rbrace: S_token(end).Pos}, end
}

func optArg(s Stream, math bool) (*ast.OptArg, Stream) {
	s = S_next(s)
	if S_token(s).Text != "[" {
		panic("no argument")
	}
	l, end := group(s, math, isKind(token.Rbrack))
	return &ast.OptArg{Lbrack: S_token(s).Pos, List: l, Rbrack: S_token(end).Pos}, end
}

func named(name string, pos token.Pos, args ...ast.Node) *ast.Macro {
	return &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}, Args: args}
}

func got_node_macro(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, math)
}
func want_node_macro(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	return named(name, pos), s, true
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name unhandled
func got_C03_unknown(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, math)
}
func want_C03_unknown(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	panic("not part of the language")
}

func got_node_one_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, true)
}
func want_node_one_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	a, s := arg(s, true)
	return named(name, pos, a), s, true
}

func got_node_two_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, true)
}
func want_node_two_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	a, s := arg(s, true)
	b, s := arg(s, true)
	return named(name, pos, a, b), s, true
}

func got_node_sqrt_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: `\sqrt`}, true)
}
func want_node_sqrt_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	var args []ast.Node
	if S_peek(s) == '[' {
		o, end := optArg(s, true)
		args, s = append(args, o), end
	}
	a, s := arg(s, true)
	return named(`\sqrt`, pos, append(args, a)...), s, true
}

func got_node_one_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, false)
}
func want_node_one_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	a, s := arg(s, false)
	return named(name, pos, a), s, true
}

func got_node_two_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: name}, false)
}
func want_node_two_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	a, s := arg(s, false)
	b, s := arg(s, false)
	return named(name, pos, a, b), s, true
}

func got_node_sqrt_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	return V_node(s, token.Token{Kind: token.Macro, Pos: pos, Text: `\sqrt`}, false)
}
func want_node_sqrt_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	var args []ast.Node
	if S_peek(s) == '[' {
		o, end := optArg(s, false)
		args, s = append(args, o), end
	}
	a, s := arg(s, false)
	return named(`\sqrt`, pos, append(args, a)...), s, true
}

const blanks = 1<<'\t' | 1<<'\n' | 1<<'\r'

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_token(s Stream) (kind token.Kind, text string, pos token.Pos, more bool, rest Stream, frame bool) {
	t, more, rest, frame := V_token(s)
	kind, text, pos = t.Kind, t.Text, t.Pos
	if kind == token.Comment || kind == token.EOF {
		text = ""
	}
	return
}
func want_C03_token(s Stream) (kind token.Kind, text string, pos token.Pos, more bool, rest Stream, frame bool) {
	s = R_scan(s, blanks)
	text, pos = R_text(s), R_pos(s)
	switch R_rune(s) {
	case scanner.Ident:
		kind = token.Word
	case scanner.Int, scanner.Float:
		kind = token.Number
	case scanner.String, scanner.Char:
		kind = token.Other
	case scanner.EOF:
		return token.EOF, "", pos, false, s, true
	case '[':
		kind = token.Lbrack
	case ']':
		kind = token.Rbrack
	case '{':
		kind = token.Lbrace
	case '}':
		kind = token.Rbrace
	case '(':
		kind = token.Lparen
	case ')':
		kind = token.Rparen
	case ' ':
		kind, text = token.Space, " "
	case '$', '_', '=', '<', '>', '^', '/', '*', '-', '+', '!', '?', '\'', ':', ',', ';', '.':
		kind = token.Symbol
	case '\\':
		blank := R_peek(s) == ' '
		s = R_scan(s, blanks)
		if blank {
			kind, text = token.Space, `\ `
		} else {
			kind, text = token.Macro, `\`+R_text(s)
		}
	case '%':
		for {
			s = R_scan(s, 0)
			if R_rune(s) == '\n' || R_rune(s) == scanner.EOF {
				break
			}
		}
		kind, text = token.Comment, ""
	default:
		panic("not part of the language")
	}
	return kind, text, pos, true, s, true
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_scanner(ch rune, i int) (mode uint, ws uint64, ident bool) {
	return V_mode(), V_blanks(), V_ident(ch, i)
}
func want_C03_scanner(ch rune, i int) (mode uint, ws uint64, ident bool) {
	return scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats | scanner.ScanStrings, blanks, unicode.IsLetter(ch)
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_leaf(s Stream, tok token.Token, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_leaf(s, tok, math)
	return strip(n), rest, frame
}
func want_C03_leaf(s Stream, tok token.Token, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_leaf(s, tok, math)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_math(s Stream, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_math(s, pos, math)
	return strip(n), rest, frame
}
func want_C03_math(s Stream, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_math(s, pos, math)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_sup_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sup_inmath(s, pos)
	return strip(n), rest, frame
}
func want_C03_sup_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sup_inmath(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_sup_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sup_intext(s, pos)
	return strip(n), rest, frame
}
func want_C03_sup_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sup_intext(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_sub_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sub_inmath(s, pos)
	return strip(n), rest, frame
}
func want_C03_sub_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sub_inmath(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_sub_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sub_intext(s, pos)
	return strip(n), rest, frame
}
func want_C03_sub_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sub_intext(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
func got_C03_brace_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_brace_inmath(s, pos)
	return strip(n), rest, frame
}
func want_C03_brace_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_brace_inmath(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macro
func got_C03_macro(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_macro(s, name, pos, math)
	return strip(n), rest, frame
}
func want_C03_macro(s Stream, name string, pos token.Pos, math bool) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_macro(s, name, pos, math)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
func got_C03_one_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_one_inmath(s, name, pos)
	return strip(n), rest, frame
}
func want_C03_one_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_one_inmath(s, name, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
func got_C03_two_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_two_inmath(s, name, pos)
	return strip(n), rest, frame
}
func want_C03_two_inmath(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_two_inmath(s, name, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
func got_C03_sqrt_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sqrt_inmath(s, pos)
	return strip(n), rest, frame
}
func want_C03_sqrt_inmath(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sqrt_inmath(s, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroA
func got_C03_one_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_one_intext(s, name, pos)
	return strip(n), rest, frame
}
func want_C03_one_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_one_intext(s, name, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
//vf:each name macroAA
func got_C03_two_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_two_intext(s, name, pos)
	return strip(n), rest, frame
}
func want_C03_two_intext(s Stream, name string, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_two_intext(s, name, pos)
	return strip(n), rest, frame
}

//vf:at github.com/go-latex/latex.ParseExpr
//vf:parse
//vf:globals internal/tex2unicode
func got_C03_sqrt_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = got_node_sqrt_intext(s, pos)
	return strip(n), rest, frame
}
func want_C03_sqrt_intext(s Stream, pos token.Pos) (n ast.Node, rest Stream, frame bool) {
	n, rest, frame = want_node_sqrt_intext(s, pos)
	return strip(n), rest, frame
}
