package vspec

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/token"
)

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:each name unicode
func got_C13_name(name string) rune {
	return tex2unicode.Index(`\`+name, true)
}
func want_C13_name(name string) rune { return unicodeOf(name) }

// unicodeOf is the table of characters of the oracle.
func unicodeOf(name string) rune { panic(0) }

//vf:at github.com/go-latex/latex/internal/tex2unicode.HasSymbol
//vf:globals internal/tex2unicode
//vf:each name unicode
func got_C13_has(name string) bool  { return tex2unicode.HasSymbol(name) }
func want_C13_has(name string) bool { return true }

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:each name unknown
func got_C13_unknown(name string) rune  { return tex2unicode.Index(name, true) }
func want_C13_unknown(name string) rune { panic("not a symbol") }

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:partial
func got_C13_text(s string) rune {
	r, n := utf8.DecodeRuneInString(s)
	if n != len(s) || r == utf8.RuneError {
		panic("of no concern here")
	}
	return tex2unicode.Index(s, false)
}
func want_C13_text(s string) rune {
	r, n := utf8.DecodeRuneInString(s)
	if n != len(s) || r == utf8.RuneError {
		panic("of no concern here")
	}
	return r
}

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:each name unicode
func got_C13_textName(name string) rune {
	return tex2unicode.Index(`\`+name, false)
}
func want_C13_textName(name string) rune { return unicodeOf(name) }

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:each name unknown
func got_C13_unknownText(name string) rune  { return tex2unicode.Index(name, false) }
func want_C13_unknownText(name string) rune { panic("not a symbol") }

//vf:at github.com/go-latex/latex/internal/tex2unicode.Index
//vf:globals internal/tex2unicode
//vf:partial
func got_C13_single(s string) rune {
	r, n := utf8.DecodeRuneInString(s)
	if n != len(s) || r == utf8.RuneError {
		panic("of no concern here")
	}
	return tex2unicode.Index(s, true)
}
func want_C13_single(s string) rune {
	r, n := utf8.DecodeRuneInString(s)
	if n != len(s) || r == utf8.RuneError {
		panic("of no concern here")
	}
	if s == "-" {
		return '−'
	}
	return r
}

// space is a kern of n em.
func space(n float64, st tex.State) *tex.Kern {
	f := st.Font
	f.Name, f.Type = "it", "it"
	return tex.NewKern(st.Backend().Metrics("m", f, st.DPI, true).Advance * n)
}

func isDigit(c byte) bool { return '0' <= c && c <= '9' }

// emOf is the width of a space macro.
func emOf(name string) float64 {
	switch name {
	case `\,`, `\thinspace`, `\/`:
		return 0.16667
	case `\>`, `\:`:
		return 0.22222
	case `\;`:
		return 0.27778
	case `\ `, `~`:
		return 0.33333
	case `\enspace`:
		return 0.5
	case `\quad`:
		return 1
	case `\qquad`:
		return 2
	case `\!`:
		return -0.16667
	}
	panic("not a space")
}

// opens tells whether the last character before a position, blanks aside, is
// an opening brace or left delimiter.
func opens(expr string, pos token.Pos) bool {
	before := expr[:pos]
	i := strings.LastIndexFunc(before, func(r rune) bool { return r != ' ' })
	if i < 0 {
		return false
	}
	switch before[i] {
	case '{', '(', '[', '<':
		return true
	}
	return false
}

func spaced(sym string, st tex.State, mode bool) tex.Node {
	return tex.HListOf([]tex.Node{space(0.2, st), tex.NewChar(sym, st, mode), space(0.2, st)}, true)
}

func binary(sym string, expr string, pos token.Pos, st tex.State, mode bool) tex.Node {
	if opens(expr, pos) {
		return tex.NewChar(sym, st, mode)
	}
	return spaced(sym, st, mode)
}

func period(expr string, pos token.Pos, st tex.State, mode bool) tex.Node {
	p := int(pos)
	if p > 0 && isDigit(expr[p-1]) && p < len(expr)-1 && isDigit(expr[p+1]) {
		return tex.NewChar(".", st, mode)
	}
	return tex.HListOf([]tex.Node{tex.NewChar(".", st, mode), space(0.2, st)}, true)
}

func function(name string, st tex.State, mode bool, args []tex.Node) tex.Node {
	up := st
	up.Font.Type = "rm"
	var cs []tex.Node
	for _, c := range name[1:] {
		cs = append(cs, tex.NewChar(string(c), up, mode))
	}
	return tex.HListOf(append(cs, args...), true)
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name binary
func got_C14_binary(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode)
}
func want_C14_binary(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{binary(name, expr, pos, st, mode)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name relation
func got_C14_spaced(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode)
}
func want_C14_spaced(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{spaced(name, st, mode)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name space
func got_C14_space(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode)
}
func want_C14_space(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{space(emOf(name), st)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name plain
//vf:partial
func got_C14_plain(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode)
}
func want_C14_plain(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{tex.NewChar(name, st, mode)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name binary
func got_C14_binarySymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true)
}
func want_C14_binarySymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{binary(name, expr, pos, st, true)}, st, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name relation
func got_C14_spacedSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true)
}
func want_C14_spacedSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{spaced(name, st, true)}, st, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name space
func got_C14_spaceSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true)
}
func want_C14_spaceSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{space(emOf(name), st)}, st, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name plain
//vf:partial
func got_C14_plainSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true)
}
func want_C14_plainSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{tex.NewChar(name, st, true)}, st, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name function
func got_C14_function(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode)
}
func want_C14_function(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{function(name, st, mode, nil)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C14_period(be font.Backend, expr string, st tex.State, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: "."}, st, true)
}
func want_C14_period(be font.Backend, expr string, st tex.State, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{period(expr, pos, st, true)}, st, true, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name function
func got_C10_functionArg(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos, l ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}, Args: ast.List{&ast.Arg{List: l}}}, st, mode)
}
func want_C10_functionArg(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos, l ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return []tex.Node{function(name, st, mode, []tex.Node{lay(l, st, mode)})}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C14_hspace(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: `\hspace`}, Args: ast.List{&ast.Arg{List: ast.List{&ast.Literal{Text: text}}}}}, st, mode)
}
func want_C14_hspace(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	x, err := strconv.ParseFloat(text, 64)
	if err != nil {
		panic("not a number")
	}
	return []tex.Node{space(x, st)}, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C14_literal(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Literal{LitPos: pos, Text: text}, st, mode)
}
func want_C14_literal(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	for i, c := range text {
		x := string(c)
		p := pos + token.Pos(i)
		switch x {
		case "+", "-", "*":
			nodes = append(nodes, binary(x, expr, p, st, mode))
		case "=", "<", ">", ":":
			nodes = append(nodes, spaced(x, st, mode))
		case ".":
			nodes = append(nodes, period(expr, p, st, mode))
		case ",", ";", "!":
			panic("has no layout")
		default:
			nodes = append(nodes, tex.NewChar(x, st, mode))
		}
	}
	return nodes, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
func got_C10_literal(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Literal{LitPos: pos, Text: text}, st, mode)
}
func want_C10_literal(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, text string) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	for i, c := range text {
		x := string(c)
		p := pos + token.Pos(i)
		switch x {
		case "+", "-", "*":
			nodes = append(nodes, binary(x, expr, p, st, mode))
		case "=", "<", ">", ":":
			nodes = append(nodes, spaced(x, st, mode))
		case ".":
			nodes = append(nodes, period(expr, p, st, mode))
		case ",", ";", "!":
			panic("has no layout")
		default:
			nodes = append(nodes, tex.NewChar(x, st, mode))
		}
	}
	return nodes, st, mode, true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name unhandled
func got_C10_unknownMacro(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos, l ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}, Args: l}, st, mode)
}
func want_C10_unknownMacro(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos, l ast.List) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name unhandled
func got_C10_unknownSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	return leaf(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true)
}
func want_C10_unknownSymbol(be font.Backend, expr string, st tex.State, mode bool, name string, pos token.Pos) (nodes []tex.Node, st2 tex.State, math2, frame bool) {
	panic("has no layout")
}

func characterOf(name string, math bool) rune { return tex2unicode.Index(name, math) }
