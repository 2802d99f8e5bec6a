package main

// Traversals and printing of syntax trees: the function the recursion goes
// through is analysed for one node; nested calls of it are recorded.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func inPkg(path string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return funcPkg(f, nil) == path
	}
}

// recursionOf is the function through which the recursion of a traversal goes.
func (p *Prog) recursionOf(root *ssa.Function, in func(*ssa.Function) bool) *ssa.Function {
	if p.recM == nil {
		p.recM = map[*ssa.Function]*ssa.Function{}
	}
	if r, ok := p.recM[root]; ok {
		return r
	}
	// the root itself?
	seen := map[*ssa.Function]bool{}
	rec := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, g := range p.callees(f) {
			if g == root {
				rec = true
			}
			if in(g) && !seen[g] {
				seen[g] = true
				visit(g)
			}
		}
	}
	visit(root)
	r := root
	if !rec {
		hs := p.heads(root, in)
		if len(hs) != 1 {
			panic(undecided(fmt.Sprintf("the recursion of %s has %d entries", root, len(hs))))
		}
		r = hs[0]
	}
	p.recM[root] = r
	return r
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// treeHook interprets traversals for the reference models with //vf:walk and
// //vf:print; with lits, the fixed text printed is recorded as well.
func treeHook(p *Prog, root string, lits bool) func(e *Eng, fr *Frame, c *CallCtx) bool {
	entered := false
	var rootF, head *ssa.Function
	nodeT := p.Type(astPath, "Node")
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		u := e.U
		if rootF == nil {
			rootF = p.Func(astPath, root)
			head = p.recursionOf(rootF, inPkg(astPath))
		}
		if fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == specPath && fr.path == "" {
			entered = false
		}
		do := func(name string, args ...*V) {
			args = append([]*V{}, args...)
			for i, x := range args {
				args[i] = u.Under(x, u.And(e.ctx, c.G))
			}
			c.St = traceAppend(e, c.St, name, args...)
			c.Res = u.Nil(nil)
		}
		var text func(w, s *V)
		text = func(w, s *V) {
			for s.op == OApp && (s.s == "bytes" || s.s == "string") && len(s.args) == 1 {
				s = s.args[0]
			}
			if s = u.Under(s, u.And(e.ctx, c.G)); s.op == OIte {
				st := c.St
				text(w, s.args[1])
				hi := c.St
				c.St = st
				text(w, s.args[2])
				if hi != c.St {
					c.St = e.mergeSt(u.Atom(s.args[0]), hi, c.St)
				}
				return
			}
			if _, ok := s.strConst(); ok {
				c.Res = u.Nil(nil)
				if lits {
					do("lit", w, s)
				}
				return
			}
			do("text", w, s)
		}
		if c.Name == "dyn" || c.Method != nil && c.Method.FullName() == "("+astPath+".Visitor).Visit" && c.Recv.op != OIface {
			// unknown code: what it answers depends on all that happened before
			before := traceOf(e, c.St)
			args := append([]*V{c.Recv}, c.Args...)
			do("visit", args...)
			c.Res = u.lift(func(x []*V) *V { return u.App("answer", siteType(c), x...) }, append(args, before)...)
			return true
		}
		if c.Fn == nil {
			if c.Method != nil && c.Method.FullName() == "(io.Writer).Write" {
				text(c.Recv, e.Content(c.St, c.Args[0]))
				c.Res = u.Tuple(u.Int(0), u.Nil(types.Universe.Lookup("error").Type()))
				return true
			}
			return false
		}
		if c.Fn == head || c.Fn == rootF {
			want := strings.HasPrefix(fr.path+"/"+fr.fn.Name(), "/want_")
			if !want && (c.Fn != head || !entered) {
				entered = entered || c.Fn == head
				return false
			}
			var xs []*V
			for i, q := range c.Fn.Params {
				if types.Identical(q.Type(), nodeT) || isNamed(q.Type(), astPath, "Visitor") || isNamed(q.Type(), "io", "Writer") {
					xs = append(xs, e.resolve(c.St, c.Args[i], q.Type(), true))
				} else {
					panic(undecided("the recursion of " + root + " carries more than the node"))
				}
			}
			do("nested", xs...)
			return true
		}
		werr := func() *V {
			return u.Tuple(u.Sym("written", types.Typ[types.Int]), u.Nil(types.Universe.Lookup("error").Type()))
		}
		switch c.Name {
		case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
			w := c.Args[0]
			if c.Name == "io.WriteString" {
				text(w, c.Args[1])
				c.Res = werr()
				return true
			}
			k := 1
			format := ""
			if c.Name == "fmt.Fprintf" {
				f, ok := c.Args[1].strConst()
				if !ok {
					panic(undecided("a format that is not constant"))
				}
				format, k = f, 2
			}
			va := e.Content(c.St, c.Args[k])
			var vs []*V
			if va.op == OSeq {
				vs = va.args
			} else if !va.isNilConst() {
				panic(undecided("arguments of a print are not known"))
			}
			un := func(x *V) *V {
				return u.lift(func(y []*V) *V {
					if y[0].op == OIface {
						return y[0].args[0]
					}
					return y[0]
				}, x)
			}
			if c.Name != "fmt.Fprintf" {
				for _, x := range vs {
					text(w, un(x))
				}
				c.Res = werr()
				return true
			}
			lit, n := "", 0
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					lit += string(format[i])
					continue
				}
				i++
				for i < len(format) && strings.ContainsRune("+-# 0123456789", rune(format[i])) {
					i++
				}
				if i < len(format) && format[i] == '%' {
					lit += "%"
					continue
				}
				if lit != "" {
					text(w, u.Str(lit))
					lit = ""
				}
				if n >= len(vs) {
					panic(undecided("a print lacks arguments"))
				}
				switch {
				case i < len(format) && strings.ContainsRune("svqd", rune(format[i])):
					text(w, un(vs[n]))
				default: // not the text itself
					do("formatted", w, un(vs[n]))
				}
				n++
			}
			if lit != "" {
				text(w, u.Str(lit))
			}
			c.Res = werr()
			return true
		}
		if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath && c.Fn.Name() == "W_text" {
			do("text", c.Args...)
			return true
		}
		return false
	}
}
