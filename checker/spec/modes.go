package vspec

import (
	"github.com/go-latex/latex/ast"
	"github.com/go-latex/latex/font"
	"github.com/go-latex/latex/tex"
	"github.com/go-latex/latex/token"
)

// L_modes tells whether the parts of a layout are laid out in the given state
// and mode; upright characters are a function's name.
func L_modes(nodes []tex.Node, st tex.State, mode, upright bool) bool { panic(0) }

func inMode(be font.Backend, expr string, n ast.Node, st tex.State, mode, upright bool) bool {
	nodes, _, _, _, _ := V_visit(be, expr, n, st, mode)
	return L_modes(nodes, st, mode, upright)
}

func macro1(name string, a ast.List) *ast.Macro {
	return &ast.Macro{Name: &ast.Ident{Name: name}, Args: ast.List{&ast.Arg{List: a}}}
}

func macro2(name string, a, b ast.List) *ast.Macro {
	return &ast.Macro{Name: &ast.Ident{Name: name}, Args: ast.List{&ast.Arg{List: a}, &ast.Arg{List: b}}}
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_frac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return inMode(be, expr, macro2(`\frac`, a, b), st, mode, false)
}
func want_C05_arg_frac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_tfrac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return inMode(be, expr, macro2(`\tfrac`, a, b), st, mode, false)
}
func want_C05_arg_tfrac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_dfrac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return inMode(be, expr, macro2(`\dfrac`, a, b), st, mode, false)
}
func want_C05_arg_dfrac(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_binom(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return inMode(be, expr, macro2(`\binom`, a, b), st, mode, false)
}
func want_C05_arg_binom(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_sqrt(be font.Backend, expr string, st tex.State, mode bool, a ast.List) (same bool) {
	return inMode(be, expr, macro1(`\sqrt`, a), st, mode, false)
}
func want_C05_arg_sqrt(be font.Backend, expr string, st tex.State, mode bool, a ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_overline(be font.Backend, expr string, st tex.State, mode bool, a ast.List) (same bool) {
	return inMode(be, expr, macro1(`\overline`, a), st, mode, false)
}
func want_C05_arg_overline(be font.Backend, expr string, st tex.State, mode bool, a ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_arg_root(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return inMode(be, expr, &ast.Macro{Name: &ast.Ident{Name: `\sqrt`}, Args: ast.List{&ast.OptArg{List: a}, &ast.Arg{List: b}}}, st, mode, false)
}
func want_C05_arg_root(be font.Backend, expr string, st tex.State, mode bool, a, b ast.List) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name function
//vf:partial
func got_C05_arg_function(be font.Backend, expr string, st tex.State, mode bool, a ast.List, name string) (same bool) {
	return inMode(be, expr, macro1(name, a), st, mode, true)
}
func want_C05_arg_function(be font.Backend, expr string, st tex.State, mode bool, a ast.List, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name function
//vf:partial
func got_C05_function(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode, true)
}
func want_C05_function(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_word(be font.Backend, expr string, st tex.State, mode bool, text string) (same bool) {
	return inMode(be, expr, &ast.Word{Text: text}, st, mode, false)
}
func want_C05_word(be font.Backend, expr string, st tex.State, mode bool, text string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_literal(be font.Backend, expr string, st tex.State, mode bool, text string, pos token.Pos) (same bool) {
	return inMode(be, expr, &ast.Literal{LitPos: pos, Text: text}, st, mode, false)
}
func want_C05_literal(be font.Backend, expr string, st tex.State, mode bool, text string, pos token.Pos) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:partial
func got_C05_symbolText(be font.Backend, expr string, st tex.State, text string) (same bool) {
	return inMode(be, expr, &ast.Symbol{Text: text}, st, false, false)
}
func want_C05_symbolText(be font.Backend, expr string, st tex.State, text string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name binary
//vf:partial
func got_C05_binary(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode, false)
}
func want_C05_binary(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name binary
//vf:partial
func got_C05_binarySymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true, false)
}
func want_C05_binarySymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name relation
//vf:partial
func got_C05_relation(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode, false)
}
func want_C05_relation(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name relation
//vf:partial
func got_C05_relationSymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true, false)
}
func want_C05_relationSymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name plain
//vf:partial
func got_C05_plain(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Macro{Name: &ast.Ident{NamePos: pos, Name: name}}, st, mode, false)
}
func want_C05_plain(be font.Backend, expr string, st tex.State, mode bool, pos token.Pos, name string) (same bool) {
	return true
}

//vf:at github.com/go-latex/latex/mtex.Parse
//vf:mtex
//vf:globals internal/tex2unicode mtex/symbols mtex
//vf:each name plain
//vf:partial
func got_C05_plainSymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return inMode(be, expr, &ast.Symbol{SymPos: pos, Text: name}, st, true, false)
}
func want_C05_plainSymbol(be font.Backend, expr string, st tex.State, pos token.Pos, name string) (same bool) {
	return true
}
