package main

// Errors: every operation that reports an error is followed, in the value
// graph of the function that performs it, to where the error ends.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

// failing tells whether the last result of a signature is an error.
func failing(s *types.Signature) bool {
	r := s.Results()
	return r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), errorType)
}

// makesErrors tells the functions that make an error of what they are given.
func makesErrors(name string) bool {
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return true
	}
	return false
}

// neverFails are operations documented not to fail.
func neverFails(f *ssa.Function, m *types.Func) bool {
	name := ""
	if f != nil {
		name = f.String()
	} else if m != nil {
		name = m.FullName()
	}
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).Write", "(hash.Hash).Write"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// printer tells the operations that write text.
func printer(f *ssa.Function, m *types.Func) bool {
	name := ""
	if f != nil {
		name = f.String()
	} else if m != nil {
		name = m.FullName()
	}
	return strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "(io.Writer).Write"
}

// errScope tells whether the rules about errors apply to a function.
func (p *Prog) errScope(f *ssa.Function) bool {
	if p.library(f) {
		return true
	}
	return failing(f.Signature) || !p.window(f)
}

// window tells the functions that draw the window: without an error to
// return, they keep what they last showed.
func (p *Prog) window(f *ssa.Function) bool {
	if p.library(f) {
		return false
	}
	if f.Parent() != nil && p.window(f.Parent()) {
		return true
	}
	gio := func(t types.Type) bool { return strings.Contains(types.TypeString(t, nil), "gioui.org/") }
	for _, q := range f.Params {
		t := q.Type()
		if gio(t) {
			return true
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if st := structOf(derefT(pt)); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if gio(st.Field(i).Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// calledInPlace tells the closures whose only uses are the calls of the
// function around them, and whether those are deferred.
func calledInPlace(f *ssa.Function) (deferred, only bool) {
	if f.Parent() == nil {
		return false, false
	}
	n, only := 0, true
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if ok && mc.Fn != f {
				continue
			}
			if !ok {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(f) {
					n++
					if _, ok := in.(*ssa.Defer); ok {
						deferred = true
					}
				} else {
					var rands [16]*ssa.Value
					for _, v := range in.Operands(rands[:0]) {
						only = only && *v != ssa.Value(f)
					}
				}
				continue
			}
			for _, u := range *mc.Referrers() {
				switch x := u.(type) {
				case *ssa.Defer:
					only = only && x.Call.Value == ssa.Value(mc)
					deferred = true
				case *ssa.Call:
					only = only && x.Call.Value == ssa.Value(mc)
				case *ssa.DebugRef:
					continue
				default:
					only = false
				}
				n++
			}
		}
	}
	return deferred && only, only && n > 0
}

type errOp struct {
	sym  *V
	res  *V // all results
	g    *V
	name string
	pos  string
	loop int
	made bool // an error made here
}

func allEffs(es []*Eff, lp *Loop, out func(x *Eff, lp *Loop)) {
	for _, x := range es {
		out(x, lp)
		if x.Loop != nil {
			allEffs(x.Loop.Effs, x.Loop, out)
		}
	}
}

func (p *Prog) errorsOf(c *Ctx, f *ssa.Function) {
	const r = "errors are handled"
	u := NewUniv()
	u.NonNil = func(v *V) bool { return v.op == OSym && strings.HasPrefix(v.s, "made error") }
	ops := map[string]*errOp{}
	var order []string
	e := NewEng(p, u, Cfg{})
	takesErr := func(g *ssa.Function) bool {
		for _, q := range g.Params {
			if types.Identical(q.Type(), errorType) {
				return true
			}
		}
		return g.Parent() != nil
	}
	e.Cfg.Opaque = func(g *ssa.Function) bool { return g != f && !takesErr(g) }
	e.Cfg.Hook = func(e *Eng, fr *Frame, cc *CallCtx) bool {
		if cc.Fn != nil && p.inModule(cc.Fn) && cc.Fn.Blocks != nil && takesErr(cc.Fn) {
			return false
		}
		com := cc.Site.Common()
		sig := com.Signature()
		if !failing(sig) {
			return false
		}
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return false
		}
		if neverFails(cc.Fn, cc.Method) || printer(cc.Fn, cc.Method) && !failing(f.Signature) {
			return false // printers have no way to report
		}
		_, later := cc.Site.(*ssa.Defer)
		if d, _ := calledInPlace(fr.fn); later || d {
			// files are closed on the way out of failures
			nm := ""
			if cc.Fn != nil {
				nm = cc.Fn.Name()
			} else if cc.Method != nil {
				nm = cc.Method.Name()
			}
			if nm == "Close" {
				return false
			}
		}
		name := cc.Name
		at := fr.site(cc.Site)
		o := ops[at]
		if o == nil {
			o = &errOp{name: name, pos: p.posStr(cc.Site.Pos())}
			ops[at] = o
			order = append(order, at)
		}
		o.g = u.And(e.ctx, cc.G)
		o.loop = e.loopDepth
		n := sig.Results().Len()
		var args []*V
		for i, a := range cc.Args {
			var t types.Type
			if i < len(cc.Site.Common().Args) {
				t = cc.Site.Common().Args[i].Type()
			}
			args = append(args, e.resolve(cc.St, a, t, true))
		}
		if makesErrors(name) {
			o.made = true
			// its message shows its arguments
			o.sym = u.App("made error at "+at, errorType, args...)
			nonNilApps[o.sym.s] = true
			cc.Res = o.sym
			return true
		}
		o.sym = u.Sym("error of "+name+" at "+at, errorType)
		var xs []*V
		for i := 0; i < n-1; i++ {
			v := u.Sym(fmt.Sprintf("result %d of %s at %s", i, name, at), sig.Results().At(i).Type())
			xs = append(xs, v)
		}
		o.res = u.Tuple(xs...)
		if n == 1 {
			cc.Res = o.sym
		} else {
			cc.Res = u.Tuple(append(xs, o.sym)...)
		}
		// what the call may change besides
		if cc.Fn != nil && p.inModule(cc.Fn) || cc.Fn == nil {
			res, g := cc.Res, cc.G
			hk := e.Cfg.Hook
			e.Cfg.Hook = nil
			var recv *V
			a := cc.Args
			if cc.Method != nil {
				recv = cc.Recv
			} else if cc.Fn != nil && cc.Fn.Signature.Recv() != nil {
				recv, a = cc.Args[0], cc.Args[1:]
			}
			if cc.Fn != nil || cc.Method != nil {
				_, _, cc.St = fr.opaque(cc.Site, cc.Fn, cc.Method, recv, a, cc.G, cc.St)
			}
			e.Cfg.Hook = hk
			cc.Res, cc.G = res, g
		} else {
			e.emit(&Eff{Guard: cc.G, Kind: "call", Name: name, Fn: cc.Fn, Args: args, Res: cc.Res, Pos: cc.Site.Pos(), Site: cc.Site})
		}
		return true
	}
	var binds []*V
	st := newState()
	for i, fv := range f.FreeVars {
		a := u.Alloc(fmt.Sprintf("captured %d", i), derefT(fv.Type()))
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			e.storeAt(st, a, "", u.Sym(fmt.Sprintf("value of captured %d", i), derefT(fv.Type())), derefT(fv.Type()))
			binds = append(binds, a)
		} else {
			binds = append(binds, u.Sym(fmt.Sprintf("captured %d", i), fv.Type()))
		}
	}
	res := e.Run2(f, binds, st)
	c.Funcs[f.String()] = true
	nil_ := u.Nil(errorType)
	var result *V
	if failing(f.Signature) && len(res.Vals) > 0 {
		result = res.Vals[len(res.Vals)-1]
	}
	type sited struct {
		x  *Eff
		lp *Loop
	}
	var effs []sited
	allEffs(res.Effs, nil, func(x *Eff, lp *Loop) { effs = append(effs, sited{x, lp}) })
	count := map[string]int{}
	for _, at := range order {
		o := ops[at]
		count[o.name]++
		key := fmt.Sprintf("%s: %s", f, o.name)
		if count[o.name] > 1 {
			key += fmt.Sprintf(" (%d)", count[o.name])
		}
		has := func(v *V) bool { return v != nil && Contains(v, func(q *V) bool { return q == o.sym }) }
		if o.made {
			// an error that was made is used
			used := has(result)
			for _, s := range effs {
				for _, a := range append(append([]*V{}, s.x.Args...), s.x.Recv) {
					used = used || has(a)
				}
				if s.x.Loop != nil {
					for _, v := range s.x.Loop.Vars {
						used = used || has(v.Next)
					}
				}
			}
			for _, v := range res.Vals {
				used = used || has(v)
			}
			if res.St != nil {
				for _, v := range res.St.mem {
					used = used || has(v)
				}
			}
			c.check(used, r, key, o.pos, "an error is made and dropped")
			continue
		}
		bad := u.Not(u.Eq(o.sym, nil_))
		// errors told apart by name are handled
		for _, v := range append([]*V{res.G}, res.Vals...) {
			Contains(v, func(q *V) bool {
				if q.op == OApp && (q.s == "eqc" || q.s == "eq") && (q.args[0] == o.sym || q.args[1] == o.sym) && !q.args[0].isNilConst() && !q.args[1].isNilConst() {
					bad = u.And(bad, u.Not(u.asBool(q)))
				}
				if q.op == OApp && strings.HasSuffix(q.s, "errors.Is") && q.args[0] == o.sym {
					bad = u.And(bad, u.Not(u.asBool(q)))
				}
				return false
			})
		}
		// 1. results are not used before
		fault := ""
		for _, s := range effs {
			x := s.x
			if x.Kind == "loop" || x.Guard == nil {
				continue
			}
			if u.And(x.Guard, bad) == u.False {
				continue
			}
			if x.Kind == "call" && strings.HasPrefix(x.Name, "log.") || x.Kind == "store" && p.window(f) {
				continue
			}
			for _, a := range append(append([]*V{}, x.Args...), x.Recv) {
				if a == nil {
					continue
				}
				for _, v := range o.res_() {
					if Contains(u.Under(a, u.And(x.Guard, bad)), func(q *V) bool { return q == v }) {
						fault = "its result is used at " + p.posStr(x.Pos) + " though it may have failed"
					}
				}
			}
		}
		// 2. failing, the function fails
		if o.loop == 0 {
			g := u.And(u.And(res.G, o.g), bad)
			switch {
			case g == u.False:
			case result == nil:
				fault = "the function goes on after it has failed"
			default:
				rv := u.Under(result, g)
				if !u.Implies(g, u.Not(u.Eq(rv, nil_))) {
					fault = "the function may report success after it has failed"
				} else {
					for _, l := range u.Leaves(rv) {
						if u.And(l.cond, g) != u.False && !has(l.val) {
							fault = "the error returned says nothing of it: " + l.val.str(4)
						}
					}
				}
			}
		} else {
			for _, s := range effs {
				if lp := s.x.Loop; lp != nil {
					mine := false
					Contains(lp.Back, func(q *V) bool { mine = mine || q == o.sym; return false })
					inside := false
					allEffs(lp.Effs, lp, func(x *Eff, _ *Loop) { inside = inside || x.Res != nil && has(x.Res) })
					if (mine || inside) && u.And(lp.Back, bad) != u.False && u.And(u.And(lp.Back, o.g), bad) != u.False {
						fault = "the loop goes on after it has failed"
					}
				}
			}
		}
		// 3. failures that end here show it
		for _, s := range effs {
			x := s.x
			if x.Guard == nil || !(x.Kind == "panic" || x.Kind == "call" && exits(x.Name)) || x.Name == "os.Exit" {
				continue
			}
			if u.And(x.Guard, bad) == u.False || u.And(x.Guard, u.Not(bad)) != u.False {
				continue
			}
			shown := false
			for _, a := range x.Args {
				shown = shown || has(a)
			}
			if !shown && x.Kind == "panic" && x.Name != "panic" {
				continue
			}
			if !shown {
				fault = "the failure at " + p.posStr(x.Pos) + " says nothing of it"
			}
		}
		c.check(fault == "", r, key, o.pos, "the error of "+o.name+" is not handled: "+fault)
	}
}

func (o *errOp) res_() []*V {
	if o.res == nil {
		return nil
	}
	return o.res.args
}

func init() {
	addRule("C27", "every operation that reports an error: its results are not used, and the function does not succeed, when it failed; what it reports is part of the failure", 30, func(c *Ctx) {
		p := c.P
		for _, f := range p.allF {
			if !p.errScope(f) {
				continue
			}
			if _, in := calledInPlace(f); in {
				continue // part of the function around it
			}
			any := false
			fs := []*ssa.Function{f}
			for i := 0; i < len(fs); i++ {
				for _, b := range fs[i].Blocks {
					for _, in := range b.Instrs {
						if x, ok := in.(ssa.CallInstruction); ok && failing(x.Common().Signature()) && !neverFails(x.Common().StaticCallee(), nil) {
							any = true
						}
					}
				}
				for _, a := range fs[i].AnonFuncs {
					if _, in := calledInPlace(a); in {
						fs = append(fs, a)
					}
				}
			}
			if g := p.recovers(f); g != nil && failing(f.Signature) {
				c.guarded("errors are handled", func() { p.recoverSets(c, "errors are handled", f, g, true) })
			}
			if any {
				c.guarded("errors are handled", func() { p.errorsOf(c, f) })
			}
		}
	})
}
