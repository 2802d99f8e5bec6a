package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r origin) describe(f *ssa.Function) string {
	s := ""
	switch r.kind {
	case 'p':
		s = f.Params[r.i].Name()
		if s == "" {
			s = fmt.Sprintf("argument %d", r.i)
		}
	case 'f':
		s = "captured " + f.FreeVars[r.i].Name()
	case 'g':
		s = "the package variable " + r.g.String()
	case 't':
		s = "a tree of the parser"
	}
	if r.via != "" {
		s = "what " + s + " leads to (" + r.via[strings.LastIndex(r.via, "/")+1:] + ")"
	}
	return s
}

func sortedMods(w *own) (out []modKey) {
	for m := range w.mods {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.site.Pos() != b.site.Pos() {
			return a.site.Pos() < b.site.Pos()
		}
		return a.what+a.r.via+fmt.Sprint(a.r.kind, a.r.i) < b.what+b.r.via+fmt.Sprint(b.r.kind, b.r.i)
	})
	return
}

// astMemory tells memory of the syntax tree by its type.
func astMemory(what string) bool {
	return strings.HasPrefix(strings.TrimLeft(what, "[]*"), modPath+"/ast.")
}

// sharedTypes are the types whose values the library hands out to all.
func (p *Prog) sharedTypes() map[string]bool {
	o := p.owners()
	out := map[string]bool{}
	add := func(t types.Type) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && p.isModule(n.Obj().Pkg().Path()) {
			out[tkey(t)] = true
		}
	}
	for _, f := range p.allF {
		if !p.library(f) || !exported(f) || o.fn[f] == nil {
			continue
		}
		for i, r := range o.fn[f].ret {
			for x := range r {
				if x.kind == 'g' {
					add(f.Signature.Results().At(i).Type())
				}
			}
		}
	}
	for path, sp := range p.SPkg {
		if path == specPath || strings.Contains(path, "/internal/") || strings.Contains(path, "/cmd/") {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Object() != nil && g.Object().Exported() && hasRefs(derefT(g.Type())) {
				add(derefT(g.Type()))
			}
		}
	}
	return out
}

func writes(f *ssa.Function) (n int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				n++
			}
		}
	}
	return
}

func init() {
	addRule("C23", "what functions change when the library is used: never package variables, nor what they lead to, nor tables handed out to all", 100, func(c *Ctx) {
		const r = "package state is only written while it is set up"
		p := c.P
		o := p.owners()
		run, guarded := p.running()
		shared := p.sharedTypes()
		for _, f := range run {
			if !p.library(f) || guarded[f] != nil {
				continue
			}
			w := o.fn[f]
			if w == nil {
				continue
			}
			c.Funcs[f.String()] = true
			c.Counts["writes"] += writes(f)
			bad := map[string]bool{}
			for _, m := range sortedMods(w) {
				why := ""
				switch {
				case m.r.kind == 'g':
					why = "is changed while the library is used, where any other call may see it"
				case exported(f) && m.r.kind == 'p' && shared[m.what]:
					why = "of a type that is handed out to all (" + m.what + ") is changed"
				}
				key := f.String() + ": " + m.r.describe(f)
				if why == "" || bad[key] {
					continue
				}
				bad[key] = true
				c.bad(r, key, p.posStr(m.site.Pos()), m.r.describe(f)+" "+why)
			}
			if len(bad) == 0 {
				c.ok(r, f.String())
			}
		}
	})
	addRule("C23", "what is set up under a guard is read after the guard, and set up under one guard only", 0, func(c *Ctx) {
		const r = "guards are passed before what they guard is used"
		p := c.P
		o := p.owners()
		run, guarded := p.running()
		under := map[*ssa.Global]*ssa.Global{}
		for f, once := range guarded {
			w := o.fn[f]
			if w == nil || !p.library(f) {
				continue
			}
			for m := range w.mods {
				if m.r.kind != 'g' || m.r.g == once {
					continue
				}
				if u := under[m.r.g]; u != nil && u != once {
					c.bad(r, m.r.g.String()+" guards", p.posStr(m.site.Pos()), "it is set up under two guards")
				}
				under[m.r.g] = once
			}
		}
		for _, f := range run {
			if guarded[f] != nil {
				continue
			}
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					var rands [16]*ssa.Value
					for _, v := range in.Operands(rands[:0]) {
						g, ok := (*v).(*ssa.Global)
						if !ok || under[g] == nil {
							continue
						}
						c.check(passes(f, b, i, under[g]), r, f.String()+": "+g.String(), p.posStr(in.Pos()), g.String()+" is used before its guard is passed")
					}
				}
			}
		}
	})
	addRule("C08", "what functions change when the library is used: never a node or list of a tree outside of the parser", 35, func(c *Ctx) {
		const r = "trees are not changed"
		p := c.P
		o := p.owners()
		run, _ := p.running()
		for _, f := range run {
			w := o.fn[f]
			if w == nil || !p.library(f) || !handlesTrees(f) || funcPkg(f, nil) == modPath && !exported(f) {
				continue
			}
			c.Funcs[f.String()] = true
			c.Counts["writes"] += writes(f)
			bad := false
			for _, m := range sortedMods(w) {
				if !astMemory(m.what) || m.r.kind == 'g' {
					continue
				}
				if m.r.kind == 't' || m.r.kind == 'p' && exported(f) {
					bad = true
					c.bad(r, f.String()+": "+m.what, p.posStr(m.site.Pos()), "memory of the tree ("+m.what+", of "+m.r.describe(f)+") is changed")
				}
			}
			if !bad {
				c.ok(r, f.String())
			}
		}
	})
	addRule("C08", "no package variable and no result keeps a reference to a tree", 45, func(c *Ctx) {
		const r = "trees are not kept"
		p := c.P
		o := p.owners()
		run, _ := p.running()
		isTree := func(f *ssa.Function, x origin) bool {
			return x.kind == 't' || x.kind == 'p' && exported(f) && isAST(f.Params[x.i].Type())
		}
		for _, f := range run {
			w := o.fn[f]
			if w == nil || !p.library(f) || !handlesTrees(f) {
				continue
			}
			bad := false
			for k := range w.retains {
				if k.in.kind == 'g' && isTree(f, k.what) {
					bad = true
					c.bad(r, f.String()+": "+k.in.describe(f), p.posStr(k.site.Pos()), k.in.describe(f)+" keeps "+k.what.describe(f))
				}
			}
			ofPackage := func(v ssa.Value) (origin, bool) {
				if g, ok := v.(*ssa.Global); ok {
					return origin{kind: 'g', g: g}, true
				}
				for x := range o.of(w, v) {
					if x.kind == 'g' {
						return x, true
					}
				}
				return origin{}, false
			}
			kept := func(in ssa.Value, site ssa.Instruction, vs ...ssa.Value) {
				for _, v := range vs {
					if v == in || !treeValue(v) {
						continue
					}
					if g, ok := ofPackage(in); ok {
						bad = true
						c.bad(r, f.String()+": "+g.describe(f), p.posStr(site.Pos()), g.describe(f)+" keeps a tree ("+v.Type().String()+")")
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						_, _, base := place(x.Addr)
						kept(base, in, x.Val)
					case *ssa.MapUpdate:
						kept(x.Map, in, x.Key, x.Value)
					case *ssa.Send:
						kept(x.Chan, in, x.X)
					case ssa.CallInstruction:
						com := x.Common()
						g := com.StaticCallee()
						if _, ok := com.Value.(*ssa.Builtin); ok || g != nil && o.fn[g] != nil {
							continue
						}
						if com.Method != nil && com.Method.Pkg() != nil && p.isModule(com.Method.Pkg().Path()) {
							continue
						}
						for _, a := range changes(g, com.Method, com) {
							kept(a, in, com.Args...)
						}
					}
				}
			}
			if exported(f) {
				for i, rs := range w.ret {
					for x := range rs {
						if x.kind == 'g' && isAST(f.Signature.Results().At(i).Type()) {
							bad = true
							c.bad(r, f.String()+fmt.Sprintf(" result %d", i), p.posStr(f.Pos()), "the tree returned is shared by all that call it: it comes from "+x.describe(f))
						}
						if isTree(f, x) && !isAST(f.Signature.Results().At(i).Type()) && x.kind == 't' {
							bad = true
							c.bad(r, f.String()+fmt.Sprintf(" result %d", i), p.posStr(f.Pos()), "the result keeps "+x.describe(f))
						}
					}
				}
			}
			if !bad {
				c.ok(r, f.String())
			}
		}
	})
}

// holdsTree tells types whose values lead to nodes of a tree.
func holdsTree(t types.Type, seen map[types.Type]bool) bool {
	if isAST(t) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return holdsTree(x.Elem(), seen)
	case *types.Slice:
		return holdsTree(x.Elem(), seen)
	case *types.Array:
		return holdsTree(x.Elem(), seen)
	case *types.Chan:
		return holdsTree(x.Elem(), seen)
	case *types.Map:
		return holdsTree(x.Key(), seen) || holdsTree(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holdsTree(x.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// treeValue is a value that leads to nodes of a tree, whatever interface it
// is passed as.
func treeValue(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		v = ci.X
	}
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	return holdsTree(v.Type(), map[types.Type]bool{})
}

// handlesTrees tells the functions in which values of the tree occur.
func handlesTrees(f *ssa.Function) bool {
	for _, q := range f.Params {
		if isAST(q.Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isAST(v.Type()) {
				return true
			}
		}
	}
	return false
}

// passes tells whether a guard is passed before an instruction.
func passes(f *ssa.Function, b *ssa.BasicBlock, i int, once *ssa.Global) bool {
	for _, d := range f.Blocks {
		if !d.Dominates(b) {
			continue
		}
		for j, in := range d.Instrs {
			if d == b && j >= i {
				break
			}
			if c, ok := in.(*ssa.Call); ok {
				if g, _ := guardOf(c); g == once {
					return true
				}
			}
		}
	}
	return false
}
