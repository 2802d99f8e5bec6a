package main

// Output (tex.Ship): the two mutually recursive routines that walk a box tree
// are analysed one level at a time.  A nested call is replaced by its
// contract: it is recorded with the node, the cursor and the origin it was
// made with, the cursor afterwards is unknown, and the origin is unchanged
// (which is an obligation of both routines).

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type shipRoles struct {
	h, v                   *ssa.Function
	curH, curV, offH, offV string
}

var shipMemo = map[*Prog]*shipRoles{}

func (p *Prog) shipOf() *shipRoles {
	if r := shipMemo[p]; r != nil {
		return r
	}
	r := &shipRoles{}
	ship := types.NewPointer(p.Type(modPath+"/tex", "Ship"))
	call := p.MethodOf(ship, "Call")
	if call == nil {
		panic(undecided("tex.Ship has no method Call"))
	}
	scc := p.recursive(call)
	tree := p.Type(modPath+"/tex", "Tree")
	isTree := func(t types.Type) bool { return types.Identical(t, tree) }
	var cands []*ssa.Function
	for _, f := range scc {
		n := 0
		for _, q := range f.Params {
			if isTree(q.Type()) {
				n++
			}
		}
		if n == 1 && f.Synthetic == "" {
			cands = append(cands, f)
		}
	}
	// the root routine is the one that Call enters
	entered := p.firstEntered(call, cands)
	if entered == nil {
		panic(undecided("no recursive routine is entered by Ship.Call"))
	}
	r.h = entered
	var rest []*ssa.Function
	for _, f := range cands {
		if f != r.h {
			rest = append(rest, f)
		}
	}
	if len(rest) > 1 {
		var w []*ssa.Function
		for _, f := range rest {
			if p.hasLoop(f) {
				w = append(w, f)
			}
		}
		rest = w
	}
	if len(rest) != 1 {
		panic(undecided(fmt.Sprintf("%d candidates for the routine that outputs vertical lists", len(rest))))
	}
	r.v = rest[0]
	shipMemo[p] = r
	defer func() {
		if x := recover(); x != nil {
			delete(shipMemo, p)
			panic(x)
		}
	}()
	// the fields of the cursor and the origin
	u := NewUniv()
	var offH, offV, curs []string
	e := NewEng(p, u, Cfg{Dispatch: p.world(), Hook: func(e *Eng, fr *Frame, c *CallCtx) bool {
		if c.Fn == r.h {
			for k, v := range c.St.mem {
				if k.base.op != OSym || k.base.s != "p0" {
					continue
				}
				switch {
				case v == u.Sym("p1", types.Typ[types.Float64]):
					offH = append(offH, k.path)
				case Contains(v, func(x *V) bool { return x == u.Sym("p2", types.Typ[types.Float64]) }):
					offV = append(offV, k.path)
				case isFloat(v.typ):
					curs = append(curs, k.path)
				}
			}
			c.Res = u.Nil(nil)
			return true
		}
		return false
	}})
	e.Run(call, e.Params(call), newState())
	if len(offH) != 1 || len(offV) != 1 || len(curs) != 2 {
		panic(undecided("the cursor and origin of Ship are not recognised"))
	}
	r.offH, r.offV = offH[0], offV[0]
	// a kern moves the horizontal cursor in a horizontal list
	kern := p.ptrs("/tex", "Kern")
	e2 := NewEng(p, u, Cfg{Dispatch: func(t types.Type, m *types.Func) []types.Type {
		if types.Identical(t, p.Type(modPath+"/tex", "Node")) {
			return kern
		}
		return p.world()(t, m)
	}})
	res := e2.Run(r.h, e2.Params(r.h), newState())
	sort.Strings(curs)
	for _, c := range curs {
		v := res.St.mem[Loc{u.Sym("p0", r.h.Params[0].Type()), c}]
		if v != nil && v != u.App("load:"+c, types.Typ[types.Float64], u.Sym("p0", r.h.Params[0].Type())) {
			if r.curH != "" {
				panic(undecided("a kern in a horizontal list moves both coordinates"))
			}
			r.curH = c
		} else {
			r.curV = c
		}
	}
	if r.curH == "" || r.curV == "" {
		panic(undecided("the cursor of Ship is not recognised"))
	}
	return r
}

// recursive lists the functions reachable from f by static calls that can
// reach themselves.
func (p *Prog) recursive(f *ssa.Function) []*ssa.Function {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		work := p.callees(from)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if m[g] {
				continue
			}
			m[g] = true
			work = append(work, p.callees(g)...)
		}
		return m
	}
	var out []*ssa.Function
	for g := range reach(f) {
		if reach(g)[g] {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// firstEntered is the candidate reached from f without passing another one.
func (p *Prog) firstEntered(f *ssa.Function, cands []*ssa.Function) *ssa.Function {
	is := map[*ssa.Function]bool{}
	for _, c := range cands {
		is[c] = true
	}
	seen := map[*ssa.Function]bool{}
	var found []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, h := range p.callees(g) {
			if seen[h] {
				continue
			}
			seen[h] = true
			if is[h] {
				found = append(found, h)
				continue
			}
			walk(h)
		}
	}
	walk(f)
	if len(found) == 1 {
		return found[0]
	}
	return nil
}

func (p *Prog) hasLoop(f *ssa.Function) bool {
	l, _, _ := p.loopsOf(f)
	return len(l) > 0
}

// shipHook interprets the primitives S_hlist, S_vlist (one level of output)
// and R_hlist, R_vlist (the contract of a nested list).
func shipHook(p *Prog) func(e *Eng, fr *Frame, c *CallCtx) bool {
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		if c.Fn == nil {
			return false
		}
		u := e.U
		f64 := types.Typ[types.Float64]
		contract := func(kind string, node, width, h, v, oh, ov *V) (*V, *V) {
			args := []*V{node, h, v, oh, ov}
			if kind == "vlist" {
				args = append(args, width)
			}
			c.St = traceAppend(e, c.St, "output "+kind, args...)
			return e.pureApp("after:h:"+kind, f64, args), e.pureApp("after:v:"+kind, f64, args)
		}
		if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath {
			switch c.Fn.Name() {
			case "S_hlist", "S_vlist":
				r := p.shipOf()
				fn := r.h
				if c.Fn.Name() == "S_vlist" {
					fn = r.v
				}
				var node *V
				if b := c.Args[1]; b.op == OIface {
					node = b
				} else {
					node = u.Iface(b, b.typ)
				}
				_, g, st := e.evalFn(fn, orderShip(fn, c.Args[0], node), nil, c.St, u.And(e.ctx, c.G), fr.path+"/S")
				c.G, c.St, c.Res = u.And(c.G, g), st, u.Nil(nil)
				return true
			case "R_hlist", "R_vlist":
				a := c.Args
				h, v := contract(c.Fn.Name()[2:], a[0], a[1], a[2], a[3], a[4], a[5])
				c.Res = u.Tuple(h, v)
				return true
			case "F_ship":
				r := p.shipOf()
				var xs []*V
				for _, q := range []string{r.curH, r.curV, r.offH, r.offV} {
					xs = append(xs, e.loadAt(c.St, c.Args[0], q, f64))
				}
				c.Res = u.Tuple(xs...)
				return true
			}
			return false
		}
		r := shipMemo[p]
		if r == nil {
			if rv := c.Fn.Signature.Recv(); rv == nil || derefT(rv.Type()) != p.Type(modPath+"/tex", "Ship") {
				return false
			}
			r = p.shipOf()
		}
		if c.Fn != r.h && c.Fn != r.v {
			return false
		}
		kind := "hlist"
		if c.Fn == r.v {
			kind = "vlist"
		}
		var sh, node *V
		for i, q := range c.Fn.Params {
			if isIfaceT(q.Type()) {
				node = c.Args[i]
			} else {
				sh = c.Args[i]
			}
		}
		ld := func(q string) *V { return e.loadAt(c.St, sh, q, f64) }
		width := u.Nil(nil)
		if kind == "vlist" {
			width = fr.ask(c, node, "Width")
		}
		h, v := contract(kind, node, width, ld(r.curH), ld(r.curV), ld(r.offH), ld(r.offV))
		c.St = c.St.clone()
		e.storeAt(c.St, sh, r.curH, h, f64)
		e.storeAt(c.St, sh, r.curV, v, f64)
		c.Res = u.Nil(nil)
		return true
	}
}

func orderShip(fn *ssa.Function, ship, node *V) []*V {
	var o []*V
	for _, q := range fn.Params {
		if isIfaceT(q.Type()) {
			o = append(o, node)
		} else {
			o = append(o, ship)
		}
	}
	return o
}

// ask evaluates a method without arguments on a value, without effects.
func (fr *Frame) ask(c *CallCtx, recv *V, method string) *V {
	e := fr.e
	return e.U.lift(func(x []*V) *V {
		v := x[0]
		one := func(t types.Type, r *V) *V {
			vals, _, _ := e.evalFn(e.P.MethodOf(t, method), []*V{r}, nil, c.St.clone(), e.ctx, fr.path+"/ask")
			return vals[0]
		}
		if v.op == OIface {
			return one(v.typ, v.args[0])
		}
		ts := e.world(v.typ)
		if ts == nil {
			panic(undecided("the type of " + v.str(3) + " is not known"))
		}
		var r *V
		for _, t := range ts {
			w := one(t, e.As(v, t))
			if r == nil {
				r = w
			} else {
				r = e.U.Ite(e.isAtom(v, t), w, r)
			}
		}
		return r
	}, recv)
}
