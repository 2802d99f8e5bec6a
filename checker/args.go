package main

// C09: the arguments that the parser collects for a macro are those that the
// layout of the macro consumes.  The parser is analysed for every macro name
// that occurs in it (or in a table of the library) and yields the kinds of the
// arguments the node of that name has; the layout is then analysed for a macro
// node of that name and with those arguments.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// macroNames are the names of macros the library mentions, and those of the
// reference tables.
func (p *Prog) macroNames() []string {
	m := map[string]bool{}
	for _, f := range p.allF {
		if !p.library(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); len(s) > 1 && s[0] == '\\' && !strings.ContainsAny(s, "\n\t%") {
							m[s] = true
						}
					}
				}
			}
		}
	}
	for n := range texUnicode {
		m[`\`+n] = true
	}
	for _, t := range [][]string{texBinary, texRelation, texArrow, texLoose, texFunction, texSpace, texPunct, texFont, texConstruct, texArg, texArg2} {
		for _, n := range t {
			if len(n) > 1 && n[0] == '\\' {
				m[n] = true
			}
		}
	}
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (p *Prog) specFn(name string) *ssa.Function { return p.Func(specPath, name) }

// shapesOf are the kinds of arguments with which the parser makes a node of a
// macro; none if it refuses the macro.
func shapesOf(e *Eng, fn *ssa.Function, name string) []string {
	u := e.U
	args := e.Params(fn)
	for i, q := range fn.Params {
		if q.Name() == "name" {
			args[i] = u.Str(name)
		}
	}
	r := e.Run(fn, args, newState())
	if r.G == u.False {
		return nil
	}
	got := map[string]bool{}
	for _, l := range u.Leaves(r.Vals[0]) {
		if u.And(l.cond, r.G) == u.False || l.val.isNilConst() {
			continue
		}
		v := l.val
		if v.op != OIface || typeName(v.typ) != "*"+astPath+".Macro" {
			got["?"+v.String()] = true
			continue
		}
		s := structOf(derefT(v.typ))
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "Args" {
				continue
			}
			c := e.Content(r.St, e.loadAt(r.St, v.args[0], fmt.Sprintf(".%d", i), s.Field(i).Type()))
			for _, m := range u.Leaves(c) {
				g := u.And(u.And(m.cond, l.cond), r.G)
				if g == u.False {
					continue
				}
				got[kindsOf(u.Under(m.val, g))] = true
			}
		}
	}
	var l []string
	for k := range got {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func kindsOf(c *V) string {
	if c.isNilConst() {
		return ""
	}
	if c.op != OSeq {
		return "?" + c.String()
	}
	k := ""
	for _, x := range c.args {
		switch {
		case x.op == OIface && typeName(x.typ) == "*"+astPath+".Arg":
			k += "A"
		case x.op == OIface && typeName(x.typ) == "*"+astPath+".OptArg":
			k += "O"
		default:
			return "?" + c.String()
		}
	}
	return k
}

// deepContains follows the objects a value refers to.
func deepContains(st *State, v *V, want *V) bool {
	seen := map[*V]bool{}
	var rec func(v *V) bool
	rec = func(v *V) bool {
		return Contains(v, func(x *V) bool {
			if x == want {
				return true
			}
			if x.op == OAlloc && !seen[x] {
				seen[x] = true
				for l, y := range st.mem {
					if l.base == x && rec(y) {
						return true
					}
				}
			}
			return false
		})
	}
	return rec(v)
}

func init() {
	addRule("C09", "arguments parsed are arguments laid out", 500, func(c *Ctx) {
		p := c.P
		const r = "arguments parsed are arguments laid out"
		engine := func(globals string, d map[string][]string) *Eng {
			u := NewUniv()
			e := NewEng(p, u, Cfg{Dispatch: p.world(), Hook: specHook(p, d, nil)})
			u.NonNil = func(v *V) bool { return v.op != OConst && e.world(v.typ) != nil }
			var ps []string
			for _, y := range strings.Fields(globals) {
				ps = append(ps, modPath+"/"+y)
			}
			e.Globals = p.InitGlobals(e, ps...)
			return e
		}
		pe := engine("internal/tex2unicode", map[string][]string{"parse": {""}})
		le := engine("internal/tex2unicode mtex/symbols mtex", map[string][]string{"mtex": {""}})
		ie := engine("internal/tex2unicode", nil)
		macro, lay, chr := p.specFn("got_node_macro"), p.specFn("shaped"), p.specFn("characterOf")
		known := func(name string, math bool) bool {
			return ie.Run(chr, []*V{ie.U.Str(name), ie.U.Bool(math)}, newState()).G != ie.U.False
		}
		where := func(f *ssa.Function) string { return p.posStr(f.Pos()) + " " + f.String() }
		for _, name := range p.macroNames() {
			name := name
			c.guarded(r, func() {
				shapes := shapesOf(pe, macro, name)
				refused := len(shapes) == 0
				if refused {
					// would the layout use arguments of it?
					shapes = []string{"AA"}
				}
				var denied, laid []string
				for _, k := range shapes {
					at := fmt.Sprintf("%s(%s)", name, k)
					if strings.HasPrefix(k, "?") || len(k) > 4 {
						panic(undecided("the arguments of " + name + " are not recognised: " + k))
					}
					u := le.U
					args := le.Params(lay)
					lists := map[string]*V{}
					for i, q := range lay.Params {
						switch q.Name() {
						case "name":
							args[i] = u.Str(name)
						case "kinds":
							args[i] = u.Str(k)
						case "a", "b", "c", "d":
							lists[q.Name()] = args[i]
						}
					}
					p.ownBackend(u, lay, args)
					res := le.Run(lay, args, newState())
					if refused {
						used := res.G != u.False && deepContains(res.St, res.Vals[0], lists["a"])
						c.check(!used, r, at, where(p.Func(mtexPath, "Parse")), "the layout has a construct with arguments for "+name+", which the parser refuses")
						continue
					}
					good := true
					allEffs(res.Effs, nil, func(x *Eff, _ *Loop) {
						if x.Site == nil || !p.library(x.Site.Parent()) || x.Guard == u.False {
							return
						}
						switch x.Kind {
						case "index":
							if n := u.Len(x.Recv); len(x.Args) == 1 && isArgs(x.Recv, k) {
								i, it := x.Args[0], types.Typ[types.Int]
								in := u.And(u.Not(u.Pos(u.Sub(u.Int(0), i, it), it)), u.Pos(u.Sub(n, i, it), it))
								if u.And(x.Guard, u.Not(in)) != u.False {
									good = false
									c.bad(r, at+" index", p.posStr(x.Pos)+" "+x.Site.Parent().String(), fmt.Sprintf("the parser gives %s the arguments %q, the layout takes number %s", name, k, x.Args[0]))
								}
							}
						case "assert":
							if x.Recv.op == OIface && (typeName(x.Recv.typ) == "*"+astPath+".Arg" || typeName(x.Recv.typ) == "*"+astPath+".OptArg") {
								good = false
								c.bad(r, at+" kind", p.posStr(x.Pos)+" "+x.Site.Parent().String(), fmt.Sprintf("the parser gives %s the arguments %q, the layout takes a %s for another kind", name, k, typeName(x.Recv.typ)))
							}
						}
					})
					if res.G == u.False { // refused by the layout
						if good {
							c.ok(r, at+": refused by the layout")
						}
						denied = append(denied, k)
						continue
					}
					for i := range k {
						l := lists[string(rune('a'+i))]
						for _, lf := range u.Leaves(res.Vals[0]) {
							if u.And(lf.cond, res.G) == u.False || deepContains(res.St, lf.val, l) {
								continue
							}
							if refusedChar(res.St, lf.val, name, known) {
								continue
							}
							good = false
							c.bad(r, fmt.Sprintf("%s argument %d", at, i), where(p.Func(mtexPath, "Parse")), fmt.Sprintf("argument %d of %s (%s) is not laid out", i, name, k))
						}
					}
					laid = append(laid, k)
					if good {
						c.ok(r, at)
					}
				}
				if len(laid) > 0 && len(denied) > 0 {
					c.bad(r, name, where(p.Func(mtexPath, "Parse")), fmt.Sprintf("the parser gives %s the arguments %q too, the layout takes only %q", name, denied, laid))
				}
			})
		}
		for _, e := range []*Eng{pe, le, ie} {
			for f := range e.Inlined {
				if f.Pkg == nil || f.Pkg.Pkg.Path() != specPath {
					c.Funcs[f.String()] = true
				}
			}
		}
	})
}

// isArgs reports whether a sequence is that of the arguments of the macro.
func isArgs(v *V, kinds string) bool {
	if v.isNilConst() {
		return kinds == "" && typeName(v.typ) == astPath+".List"
	}
	return v.op == OSeq && kindsOf(v) == kinds && (len(v.args) > 0 || typeName(v.typ) == astPath+".List")
}

// refusedChar: the output holds the character of a name that is not known.
func refusedChar(st *State, v *V, name string, known func(string, bool) bool) bool {
	if known(name, true) || known(name, false) {
		return false
	}
	seen := map[*V]bool{}
	var rec func(v *V) bool
	rec = func(v *V) bool {
		return Contains(v, func(x *V) bool {
			if x.op == OApp && x.s == "tex:NewChar" {
				if s, ok := x.args[0].strConst(); ok && s == name {
					return true
				}
			}
			if x.op == OAlloc && !seen[x] {
				seen[x] = true
				for l, y := range st.mem {
					if l.base == x && rec(y) {
						return true
					}
				}
			}
			return false
		})
	}
	return rec(v)
}

var _ = types.Identical
