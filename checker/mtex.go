package main

// Layout (mtex): the visitor that mtex.Parse hands to ast.Walk is analysed
// for one node at a time.  Operations of the box model (package tex) are kept
// as uninterpreted constructors, updates and readings of box objects, since
// what they do is decided separately; a nested walk is replaced by its
// contract (it appends the layout of the node in the visitor's current state
// and mode, and leaves both as they were), which is an obligation of every
// case of Visit.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	texPath  = modPath + "/tex"
	mtexPath = modPath + "/mtex"
	astPath  = modPath + "/ast"
)

// texNode is the named type of the box model a pointer type refers to.
func (p *Prog) texNode(t types.Type) *types.Named {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != texPath {
		return nil
	}
	node, _ := p.Type(texPath, "Node").Underlying().(*types.Interface)
	if !types.Implements(pt, node) {
		return nil
	}
	return n
}

// visitorRoles are the fields of the visitor.
type visitorRoles struct{ nodes, state, math string }

func (p *Prog) visitorOf(t types.Type) visitorRoles {
	var r visitorRoles
	st := p.Type(texPath, "State")
	var rec func(t types.Type, path string)
	set := func(dst *string, path string) {
		if *dst != "" {
			panic(undecided("two fields of the visitor play the same role"))
		}
		*dst = path
	}
	rec = func(t types.Type, path string) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			q := fmt.Sprintf("%s.%d", path, i)
			switch {
			case types.Identical(f.Type(), st):
				set(&r.state, q)
			case types.TypeString(f.Type(), nil) == "[]"+texPath+".Node":
				set(&r.nodes, q)
			case types.Identical(f.Type(), types.Typ[types.Bool]):
				set(&r.math, q)
			case structOf(f.Type()) != nil:
				rec(f.Type(), q)
			}
		}
	}
	rec(derefT(t), "")
	if r.nodes == "" || r.state == "" || r.math == "" {
		panic(undecided("the fields of the layout visitor are not recognised"))
	}
	return r
}

type mtexVisit struct {
	node, st, math *V
	out            []*V
	g              *V
	after          *State
	reached        bool
	template       bool
	vis            *V
}

// boxObj applies f to the object a reference denotes, under the conditions
// of the reference.
func (fr *Frame) boxRef(r *V) []leaf {
	if r.op == OIface {
		return fr.boxRef(r.args[0])
	}
	u := fr.e.U
	if r.op == OIte {
		var out []leaf
		for _, l := range u.Leaves(r) {
			for _, m := range fr.boxRef(l.val) {
				out = append(out, leaf{u.And(l.cond, m.cond), m.val})
			}
		}
		return out
	}
	return []leaf{{u.True, r}}
}

// snapshot replaces the box objects in a value by what they are now.
func (e *Eng) snapshot(st *State, v *V) *V {
	sub := map[*V]*V{}
	Contains(v, func(x *V) bool {
		if x.op == OAlloc && sub[x] == nil && e.P.texNode(x.typ) != nil {
			if c, ok := st.mem[Loc{x, ""}]; ok {
				sub[x] = e.U.App("box", nil, c)
			}
		}
		return false
	})
	if len(sub) == 0 {
		return v
	}
	return e.U.Subst(v, sub)
}

func (p *Prog) texOp(e *Eng, fr *Frame, c *CallCtx) bool {
	u := e.U
	var name string
	var sig *types.Signature
	var recv *V
	args := c.Args
	switch {
	case c.Method != nil:
		if c.Method.Pkg() == nil || c.Method.Pkg().Path() != texPath {
			return false
		}
		name, sig, recv = c.Method.Name(), c.Method.Type().(*types.Signature), c.Recv
	case c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == texPath && c.Fn.Object() != nil && c.Fn.Object().Exported():
		name, sig = c.Fn.Name(), c.Fn.Signature
		if sig.Recv() != nil {
			if p.texNode(sig.Recv().Type()) == nil {
				return false
			}
			recv, args = args[0], args[1:]
		} else if sig.Results().Len() != 1 || p.texNode(sig.Results().At(0).Type()) == nil {
			return false
		}
	default:
		return false
	}
	xs := make([]*V, len(args))
	for i, a := range args {
		xs[i] = a
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
			xs[i] = e.Content(c.St, a)
		}
	}
	switch {
	case recv == nil: // constructor
		t := sig.Results().At(0).Type()
		a := u.Alloc(fr.site(c.Site)+"/box", t)
		c.St = c.St.clone()
		c.St.mem[Loc{a, "#"}] = u.True
		var snaps []*V
		for _, x := range xs {
			if s := e.snapshot(c.St, x); s != x {
				snaps = append(snaps, s)
			}
		}
		// the condition part of an argument distributes over the operation
		op := u.lift(func(y []*V) *V { return u.App("tex:"+name, derefT(t), y...) }, append(xs, snaps...)...)
		c.St.mem[Loc{a, ""}] = op
		c.Res = a
		return true
	case sig.Results().Len() == 0: // update
		c.St = c.St.clone()
		for _, l := range fr.boxRef(recv) {
			if l.val.isNilConst() || u.And(u.And(e.ctx, c.G), l.cond) == u.False {
				continue
			}
			old, ok := c.St.mem[Loc{l.val, ""}]
			if !ok {
				if l.val.op == OAlloc {
					panic(undecided("update of an unknown box"))
				}
				old = u.App("boxof", nil, l.val)
			}
			nw := u.lift(func(y []*V) *V { return u.App("tex:do:"+name, y[0].typ, y...) }, append([]*V{old}, xs...)...)
			c.St.mem[Loc{l.val, ""}] = u.Ite(l.cond, nw, old)
		}
		c.Res = u.Nil(nil)
		return true
	default: // reading
		t := siteType(c)
		var r *V
		ls := fr.boxRef(recv)
		for i := len(ls) - 1; i >= 0; i-- {
			l := ls[i]
			cur, ok := c.St.mem[Loc{l.val, ""}]
			if !ok {
				cur = u.App("boxof", nil, l.val)
			}
			cur = e.snapshot(c.St, cur)
			ys := []*V{cur}
			for _, x := range xs {
				ys = append(ys, e.snapshot(c.St, x))
			}
			v := u.lift(func(y []*V) *V { return u.App("tex:get:"+name, t, y...) }, ys...)
			if r == nil {
				r = v
			} else {
				r = u.Ite(l.cond, v, r)
			}
		}
		c.Res = r
		return true
	}
}

// layHook interprets layout for the reference models with //vf:mtex.
func layHook(p *Prog) func(e *Eng, fr *Frame, c *CallCtx) bool {
	var cur *mtexVisit
	type tkey struct{ be, expr *V }
	type template struct {
		st  *State
		vis *V
		g   *V
	}
	texT := p.Type(texPath, "State")
	nodesT := types.NewSlice(p.Type(texPath, "Node"))
	templates := map[tkey]*template{}
	visit := func(e *Eng, fr *Frame, site ssa.CallInstruction, vis *V, base *State, v *mtexVisit) {
		u := e.U
		obj := vis.args[0]
		r := p.visitorOf(vis.typ)
		st := base.clone()
		e.storeAt(st, obj, r.nodes, u.Nil(nodesT), nodesT)
		e.storeAt(st, obj, r.state, v.st, texT)
		e.storeAt(st, obj, r.math, v.math, types.Typ[types.Bool])
		before := e.loadAt(st, obj, "", derefT(vis.typ))
		fn := p.MethodOf(vis.typ, "Visit")
		vals, g, st2 := e.evalFn(fn, []*V{obj, v.node}, nil, st, e.ctx, fr.site(site))
		after := st2.clone()
		ld := func(q string, t types.Type) *V { return e.loadAt(st2, obj, q, t) }
		// everything else of the visitor stays as it is
		frame := after.clone()
		e.storeAt(frame, obj, r.nodes, u.Nil(nodesT), nodesT)
		e.storeAt(frame, obj, r.state, v.st, texT)
		e.storeAt(frame, obj, r.math, v.math, types.Typ[types.Bool])
		same := u.Eq(e.loadAt(frame, obj, "", derefT(vis.typ)), before)
		descend, other := u.False, u.False
		if len(vals) == 1 {
			nilv := u.Eq(vals[0], u.Nil(vals[0].typ))
			descend = u.Not(nilv)
			other = u.And(descend, u.Not(u.Eq(vals[0], vis)))
		}
		v.out = []*V{e.Content(st2, ld(r.nodes, nodesT)), ld(r.state, texT), ld(r.math, types.Typ[types.Bool]), descend, u.And(same, u.Not(other))}
		v.g, v.after, v.reached = g, after, true
	}
	parse := p.Func(mtexPath, "Parse")
	walk := p.Func(astPath, "Walk")
	laid := func(e *Eng, n, st, math *V) *V {
		u := e.U
		if n.op == OIface && n.args[0].op == OStruct {
			panic(undecided("a node that is not a pointer"))
		}
		return u.lift(func(x []*V) *V { return u.App("laid", nodesT, x...) }, n, st, math)
	}
	normNode := func(e *Eng, st *State, n *V) *V {
		return e.U.lift(func(x []*V) *V {
			v := x[0]
			if v.op == OIface {
				if _, ok := v.typ.Underlying().(*types.Slice); ok {
					return e.U.Iface(e.Content(st, v.args[0]), v.typ)
				}
			}
			return v
		}, n)
	}
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		u := e.U
		if c.Fn == nil {
			return c.Method != nil && p.texOp(e, fr, c)
		}
		if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath {
			switch c.Fn.Name() {
			case "L_nodes":
				c.Res = laid(e, normNode(e, c.St, c.Args[0]), c.Args[1], c.Args[2])
				return true
			case "L_modes": // nodes, state, math, upright
				c.Res = p.modes(e, c.St, e.snapshot(c.St, e.Content(c.St, c.Args[0])), c.Args[1], c.Args[2], c.Args[3])
				return true
			case "V_visit": // be, expr, node, state, math
				v := &mtexVisit{node: normNode(e, c.St, c.Args[2]), st: c.Args[3], math: c.Args[4]}
				k := tkey{c.Args[0], c.Args[1]}
				if k.be.op == OSym && k.expr.op == OSym {
					// what mtex.Parse sets up does not depend on the node
					t := templates[k]
					if t == nil {
						tv := &mtexVisit{template: true}
						saved, ctx := cur, e.ctx
						cur, e.ctx = tv, u.True
						size, dpi := u.Sym("size", types.Typ[types.Float64]), u.Sym("dpi", types.Typ[types.Float64])
						e.evalFn(parse, []*V{c.Args[1], size, dpi, c.Args[0]}, nil, newState(), u.True, fr.site(c.Site))
						cur, e.ctx = saved, ctx
						if tv.after == nil {
							panic(undecided("mtex.Parse does not walk the tree with a visitor"))
						}
						t = &template{tv.after, tv.vis, tv.g}
						templates[k] = t
					}
					base := c.St.clone()
					for l, x := range t.st.mem {
						base.mem[l] = x
					}
					saved, ctx := cur, e.ctx
					cur = v
					e.ctx = u.And(e.ctx, c.G)
					v.reached = true
					visit(e, fr, c.Site, t.vis, base, v)
					v.g = u.And(v.g, t.g)
					cur, e.ctx = saved, ctx
					c.Res, c.G, c.St = u.Tuple(v.out...), u.And(c.G, v.g), v.after
					return true
				}
				saved := cur
				cur = v
				size, dpi := u.Sym("size", types.Typ[types.Float64]), u.Sym("dpi", types.Typ[types.Float64])
				e.evalFn(parse, []*V{c.Args[1], size, dpi, c.Args[0]}, nil, c.St, u.And(e.ctx, c.G), fr.site(c.Site))
				cur = saved
				if !v.reached {
					panic(undecided("mtex.Parse does not walk the tree with a visitor"))
				}
				c.Res, c.G, c.St = u.Tuple(v.out...), u.And(c.G, v.g), v.after
				return true
			}
		}
		if c.Fn.String() == modPath+".ParseExpr" {
			t := c.Fn.Signature.Results()
			n := u.App("call:ParseExpr:tree", t.At(0).Type(), c.Args...)
			er := u.App("call:ParseExpr:err", t.At(1).Type(), c.Args...)
			if cur != nil {
				er = u.Nil(t.At(1).Type())
			}
			c.Res = u.Tuple(n, er)
			return true
		}
		if c.Fn == walk {
			vis := c.Args[0]
			if vis.op != OIface || vis.args[0].op != OAlloc {
				panic(undecided("ast.Walk is called with an unknown visitor"))
			}
			obj := vis.args[0]
			r := p.visitorOf(vis.typ)
			if cur != nil && cur.template {
				if cur.after != nil {
					panic(undecided("mtex.Parse walks the tree more than once"))
				}
				cur.after, cur.vis, cur.g = c.St.clone(), vis, u.And(e.ctx, c.G)
				c.Res = u.Nil(nil)
				return true
			}
			if cur != nil && !cur.reached {
				cur.reached = true
				visit(e, fr, c.Site, vis, c.St, cur)
				c.Res = u.Nil(nil)
				return true
			}
			old := e.Content(c.St, e.loadAt(c.St, obj, r.nodes, nodesT))
			st, m := e.loadAt(c.St, obj, r.state, texT), e.loadAt(c.St, obj, r.math, types.Typ[types.Bool])
			l := laid(e, normNode(e, c.St, c.Args[1]), st, m)
			c.St = c.St.clone()
			e.storeAt(c.St, obj, r.nodes, u.Append(old, l, nodesT), nodesT)
			c.Res = u.Nil(nil)
			return true
		}
		return p.texOp(e, fr, c)
	}
}

// modes is the condition that all parts of a layout are laid out in the given
// state and mode: nested nodes in exactly these, characters in the mode and
// the font type (or, where allowed, in the upright one).
func (p *Prog) modes(e *Eng, now *State, v, st, math, upright *V) *V {
	u := e.U
	type key struct{ v, g *V }
	seen := map[key]bool{}
	used := map[*V]*V{}
	var order []*V
	var rec func(v, g *V)
	rec = func(v, g *V) {
		if g == u.False || seen[key{v, g}] {
			return
		}
		seen[key{v, g}] = true
		if v.op == OIte {
			a := u.Atom(v.args[0])
			rec(v.args[0], g)
			rec(v.args[1], u.And(g, a))
			rec(v.args[2], u.And(g, u.Not(a)))
			return
		}
		if v.op == OApp {
			switch v.s {
			case "laid", "tex:NewChar", "tex:NewAccent", "tex:AutoHeightChar":
				if used[v] == nil {
					order = append(order, v)
					used[v] = u.False
				}
				used[v] = u.Or(used[v], g)
			}
		}
		for _, a := range v.args {
			rec(a, g)
		}
		for _, t := range v.terms {
			for _, m := range t.mono {
				rec(m, g)
			}
		}
	}
	rec(v, u.True)
	c := gather(e, []root{{v, now}}, nil)
	for _, x := range c.vars {
		rec(x.Next, u.True)
		if x.Init != nil {
			rec(x.Init, u.True)
		}
	}
	for _, a := range c.allocs {
		rec(c.cont[a], u.True)
	}
	stT := p.Type(texPath, "State")
	fontOf := func(st *V) *V {
		s := structOf(stT)
		for i := 0; i < s.NumFields(); i++ {
			if typeName(s.Field(i).Type()) == modPath+"/font.Font" {
				return u.Field(st, i, s.Field(i).Type())
			}
		}
		panic(undecided("no font in the layout state"))
	}
	typeOf := func(st *V) *V {
		f := fontOf(st)
		s := structOf(p.Type(modPath+"/font", "Font"))
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Type" {
				return u.Field(f, i, s.Field(i).Type())
			}
		}
		panic(undecided("no type in the font"))
	}
	res := u.True
	for _, x := range order {
		var ok *V
		switch x.s {
		case "laid":
			ok = u.And(u.Eq(x.args[1], st), u.Eq(x.args[2], math))
		case "tex:AutoHeightChar":
			ok = u.Eq(typeOf(x.args[3]), typeOf(st))
		default:
			t := typeOf(x.args[1])
			ok = u.And(u.Eq(x.args[2], math), u.Or(u.Eq(t, typeOf(st)), u.And(upright, u.Eq(t, u.Str("rm")))))
		}
		res = u.And(res, u.Or(u.Not(used[x]), ok))
	}
	return res
}

var _ = ssa.NaiveForm

// ownBackend makes the backend of a state the one that mtex.Parse was given.
func (p *Prog) ownBackend(u *Univ, f *ssa.Function, args []*V) {
	stT := p.Type(texPath, "State")
	var be *V
	for i, q := range f.Params {
		if q.Name() == "be" {
			be = args[i]
		}
	}
	for i, q := range f.Params {
		if be == nil || !types.Identical(q.Type(), stT) {
			continue
		}
		s := structOf(stT)
		xs := make([]*V, s.NumFields())
		for k := range xs {
			xs[k] = u.Field(args[i], k, s.Field(k).Type())
			if types.Identical(s.Field(k).Type(), be.typ) {
				xs[k] = be
			}
		}
		args[i] = u.Struct(stT, xs)
	}
}

// inSource: the position of a part of the tree is one of the expression it
// was parsed from, so 0 <= pos < len(expr), and so is that of a character of
// a literal.
func (p *Prog) inSource(u *Univ, f *ssa.Function, args []*V) {
	at := map[*V]bool{}
	var n *V
	for i, q := range f.Params {
		switch {
		case q.Name() == "expr":
			n = u.Len(args[i])
		case typeName(q.Type()) == modPath+"/token.Pos":
			at[args[i]] = true
		}
	}
	if n == nil {
		return
	}
	u.Place = func(q *V) (positive, known bool) {
		var c, ln, ps int64
		var off []int64
		for _, t := range u.termsOf(q) {
			if !t.coef.IsInt() || len(t.mono) > 1 {
				return false, false
			}
			k := t.coef.Num().Int64()
			switch {
			case len(t.mono) == 0:
				c = k
			case t.mono[0] == n:
				ln = k
			case at[t.mono[0]]:
				if ps != 0 {
					return false, false
				}
				ps = k
			case t.mono[0].op == OApp && t.mono[0].s == "rkey":
				off = append(off, k)
			default:
				return false, false
			}
		}
		for _, k := range off {
			if k != ps || len(off) > 1 {
				return false, false
			}
		}
		switch {
		case ps == 1 && ln == -1 && c <= 1:
			return false, true
		case ps == -1 && ln == 1 && c >= 0:
			return true, true
		case ps == 1 && ln == 0 && c >= 1:
			return true, true
		case ps == -1 && ln == 0 && c <= 0:
			return false, true
		}
		return false, false
	}
}
