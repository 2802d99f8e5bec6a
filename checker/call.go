package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee gives the function value and arguments of a call; for interface
// calls the function value is nil and args[0] is the receiver.
func (fr *Frame) callee(c *ssa.CallCommon) (*V, []*V) {
	var args []*V
	if c.IsInvoke() {
		args = append(args, fr.val(c.Value))
		for _, a := range c.Args {
			args = append(args, fr.val(a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	return fr.val(c.Value), args
}

type branch struct {
	cond *V
	run  func(g *V, st *State) (*V, *V, *State)
}

// branches evaluates alternatives under their conditions and joins them.
func (fr *Frame) branches(bs []branch, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	type out struct {
		c, v, g *V
		st      *State
	}
	var outs []out
	for _, b := range bs {
		c := u.And(g, b.cond)
		if c == u.False || u.And(e.ctx, c) == u.False {
			continue
		}
		s := st.clone()
		v, ng, ns := b.run(c, s)
		if ng == u.False {
			continue
		}
		outs = append(outs, out{ng, v, ng, ns})
	}
	if len(outs) == 0 {
		return u.Nil(nil), u.False, st
	}
	last := outs[len(outs)-1]
	v, rg, rst := last.v, last.g, last.st
	for i := len(outs) - 2; i >= 0; i-- {
		o := outs[i]
		v = fr.mergeVal(o.c, o.v, v)
		rst = e.mergeSt(o.c, o.st, rst)
		rg = u.Or(rg, o.g)
	}
	return v, rg, rst
}

func (fr *Frame) mergeVal(c, a, b *V) *V {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	u := fr.e.U
	if a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args) {
		args := make([]*V, len(a.args))
		for i := range args {
			args[i] = u.Ite(c, a.args[i], b.args[i])
		}
		return u.Tuple(args...)
	}
	return u.Ite(c, a, b)
}

// callVal evaluates a call; it returns the result, the guard under which the
// call returned, and the state after it.
func (fr *Frame) callVal(site ssa.CallInstruction, fn *V, args []*V, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	com := site.Common()
	if com.IsInvoke() {
		recv := args[0]
		if recv.op == OIte {
			var bs []branch
			for _, l := range u.Leaves(recv) {
				l := l
				bs = append(bs, branch{l.cond, func(g *V, st *State) (*V, *V, *State) {
					return fr.invoke(site, com.Method, l.val, args[1:], g, st)
				}})
			}
			return fr.branches(bs, g, st)
		}
		return fr.invoke(site, com.Method, recv, args[1:], g, st)
	}
	if fn.op == OIte {
		var bs []branch
		for _, l := range u.Leaves(fn) {
			l := l
			bs = append(bs, branch{l.cond, func(g *V, st *State) (*V, *V, *State) {
				return fr.callVal(site, l.val, args, g, st)
			}})
		}
		return fr.branches(bs, g, st)
	}
	if fn.op == OSym && strings.HasPrefix(fn.s, "builtin:") {
		return fr.builtin(site, fn.s[8:], args, g, st)
	}
	if fn.op == OFunc {
		return fr.static(site, fn.fn, fn.args, args, g, st)
	}
	// unknown function value
	if e.Cfg.Hook != nil {
		c := &CallCtx{Site: site, Recv: fn, Args: args, G: g, St: st, Name: "dyn"}
		if e.Cfg.Hook(e, fr, c) {
			return c.Res, c.G, c.St
		}
	}
	res := e.resSym(fr, site, "dyn")
	e.emit(&Eff{Guard: g, Kind: "call", Name: "dyn", Recv: fn, Args: args, Raw: args, Res: res, Pos: site.Pos(), Site: site, St: st.clone()})
	return res, g, st
}

func (e *Eng) resSym(fr *Frame, site ssa.CallInstruction, name string) *V {
	var t types.Type
	if v := site.Value(); v != nil {
		t = v.Type()
	}
	return e.U.Sym("res:"+name+"@"+fr.site(site), t)
}

func (e *Eng) closedImpls(it types.Type, m *types.Func) []types.Type {
	if it == nil || !isIfaceT(it) {
		return nil
	}
	if e.Cfg.Dispatch != nil {
		if r := e.Cfg.Dispatch(it, m); r != nil {
			return r
		}
	}
	i := it.Underlying().(*types.Interface)
	closed := false
	for k := 0; k < i.NumMethods(); k++ {
		if !i.Method(k).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil
	}
	return e.P.impls(i)
}

func (fr *Frame) invoke(site ssa.CallInstruction, m *types.Func, recv *V, args []*V, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	if recv.isNilConst() {
		e.emit(&Eff{Guard: g, Kind: "panic", Name: "nil receiver", Pos: site.Pos(), Site: site})
		return u.Nil(nil), u.False, st
	}
	if e.Cfg.Hook != nil {
		c := &CallCtx{Site: site, Method: m, Recv: recv, Args: args, G: g, St: st, Name: m.FullName()}
		if e.Cfg.Hook(e, fr, c) {
			return c.Res, c.G, c.St
		}
	}
	if recv.op == OIface {
		fn := e.P.method(recv.typ, m)
		if fn == nil {
			panic(undecided("no method " + m.Name() + " on " + recv.typ.String()))
		}
		return fr.static(site, fn, nil, append([]*V{recv.args[0]}, args...), g, st)
	}
	it := site.Common().Value.Type()
	if e.world(recv.typ) != nil {
		it = recv.typ
	}
	if cands := e.closedImpls(it, m); cands != nil {
		any := u.False
		var bs []branch
		for _, T := range cands {
			T := T
			c := e.isAtom(recv, T)
			any = u.Or(any, c)
			bs = append(bs, branch{c, func(g *V, st *State) (*V, *V, *State) {
				fn := e.P.method(T, m)
				return fr.static(site, fn, nil, append([]*V{e.As(recv, T)}, args...), g, st)
			}})
		}
		if m.Exported() && e.world(it) == nil {
			bs = append(bs, branch{u.Not(any), func(g *V, st *State) (*V, *V, *State) {
				return fr.opaque(site, nil, m, recv, args, g, st)
			}})
		}
		return fr.branches(bs, g, st)
	}
	return fr.opaque(site, nil, m, recv, args, g, st)
}

func (fr *Frame) static(site ssa.CallInstruction, fn *ssa.Function, binds, args []*V, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	if e.Cfg.Hook != nil {
		c := &CallCtx{Site: site, Fn: fn, Args: args, G: g, St: st, Name: fn.String()}
		if e.Cfg.Hook(e, fr, c) {
			return c.Res, c.G, c.St
		}
	}
	if r, ng, ok := fr.model(site, fn, args, g, st); ok {
		return r, ng, st
	}
	inl := fn.Blocks != nil && e.P.inModule(fn)
	if inl && e.Cfg.Opaque != nil && e.Cfg.Opaque(fn) {
		inl = false
	}
	if inl {
		for _, s := range e.stack {
			if s == fn {
				inl = false
			}
		}
	}
	if !inl {
		var m *types.Func
		if o, ok := fn.Object().(*types.Func); ok {
			m = o
		}
		var recv *V
		a := args
		if fn.Signature.Recv() != nil && len(args) > 0 {
			recv, a = args[0], args[1:]
		}
		return fr.opaque(site, fn, m, recv, a, g, st)
	}
	n0 := 0
	if e.Sink != nil {
		n0 = len(*e.Sink)
	}
	vals, ng, nst := e.evalFn(fn, args, binds, st, u.And(e.ctx, g), fr.site(site))
	if e.Sink != nil && g != u.True {
		for _, x := range (*e.Sink)[n0:] {
			if x.Guard != nil {
				x.Guard = u.And(g, x.Guard)
			}
		}
	}
	g = u.And(g, ng)
	var r *V
	switch {
	case g == u.False:
		r = u.Nil(nil)
	case len(vals) == 1:
		r = vals[0]
	default:
		r = u.Tuple(vals...)
	}
	return r, g, nst
}

// resolve turns an argument into a value independent of the memory: slices
// become their contents, pointers to local structs their values.
func (e *Eng) resolve(st *State, a *V, t types.Type, ext bool) *V {
	if t == nil {
		return a
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		c := e.Content(st, a)
		return e.U.lift(func(x []*V) *V {
			if x[0].op == OApp && x[0].s == "zeros" {
				if n, ok := x[0].args[0].intConst(); ok && n == 0 {
					return e.U.Seq(nil, nil, t)
				}
			}
			return x[0]
		}, c)
	case *types.Pointer:
		if ext && a.op == OAlloc && structOf(derefT(t)) != nil {
			return e.U.App("&", t, e.Load(st, a, derefT(t)))
		}
	case *types.Interface:
		if a.op == OIface && a.args[0].op == OApp && a.args[0].s == "sref" {
			return e.U.Iface(e.Content(st, a.args[0]), a.typ)
		}
	}
	return a
}

var purePkgs = map[string]bool{"math": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"errors": true, "bytes": true, "image": true, "image/color": true, "golang.org/x/image/math/fixed": true}

func funcPkg(fn *ssa.Function, m *types.Func) string {
	if fn != nil && fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if m != nil && m.Pkg() != nil {
		return m.Pkg().Path()
	}
	return ""
}

func (fr *Frame) opaque(site ssa.CallInstruction, fn *ssa.Function, m *types.Func, recv *V, args []*V, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	name := ""
	switch {
	case fn != nil:
		name = fn.String()
	case m != nil:
		name = m.FullName()
	}
	pkg := funcPkg(fn, m)
	inMod := e.P.isModule(pkg)
	all := args
	if recv != nil {
		all = append([]*V{recv}, args...)
	}
	var ats []types.Type
	if com := site.Common(); com.IsInvoke() {
		for _, a := range com.Args {
			ats = append(ats, a.Type())
		}
	} else if fn != nil {
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			ats = append(ats, sig.Params().At(i).Type())
		}
	}
	res := make([]*V, len(args))
	for i, a := range args {
		var t types.Type
		if i < len(ats) {
			t = ats[i]
		}
		res[i] = e.resolve(st, a, t, !inMod)
	}
	rargs := res
	if recv != nil {
		rv := recv
		if ver, ok := st.mem[Loc{recv, "!ver"}]; ok && !ver.isNilConst() {
			rv = u.App("at", recv.typ, recv, ver)
		}
		rargs = append([]*V{rv}, res...)
	}
	pure := false
	if fn != nil && purePkgs[pkg] && fn.Signature.Recv() == nil {
		pure = true
	}
	if pkg == "fmt" && (strings.HasSuffix(name, "fmt.Sprintf") || strings.HasSuffix(name, "fmt.Sprint") || strings.HasSuffix(name, "fmt.Errorf")) {
		pure = true
	}
	if !pure && e.Cfg.Pure != nil && e.Cfg.Pure(name) {
		pure = true
	}
	var t types.Type
	if v := site.Value(); v != nil {
		t = v.Type()
	}
	var r *V
	if pure {
		nm := "call:" + name
		if name == "fmt.Errorf" || name == "errors.New" {
			nm = "errorf"
		}
		r = u.lift(func(x []*V) *V { return u.App(nm, t, x...) }, rargs...)
	} else {
		r = u.App("res:"+name+"@"+fr.site(site), t, rargs...)
	}
	if tup, ok := t.(*types.Tuple); ok && tup.Len() > 0 {
		var xs []*V
		for i := 0; i < tup.Len(); i++ {
			i := i
			xs = append(xs, u.lift(func(x []*V) *V { return u.App(fmt.Sprintf("ext:%d", i), tup.At(i).Type(), x[0]) }, r))
		}
		r = u.Tuple(xs...)
	}
	e.emit(&Eff{Guard: g, Kind: "call", Name: name, Fn: fn, Method: m, Recv: recv, Args: res, Raw: all, Res: r, Pos: site.Pos(), Site: site, St: st.clone()})
	switch name {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit", "runtime.Goexit":
		return r, u.False, st
	}
	return r, g, st
}

func (fr *Frame) builtin(site ssa.CallInstruction, name string, args []*V, g *V, st *State) (*V, *V, *State) {
	e := fr.e
	u := e.U
	var t types.Type
	if v := site.Value(); v != nil {
		t = v.Type()
	}
	switch name {
	case "len", "cap":
		a := args[0]
		at := site.Common().Args[0].Type()
		if _, ok := at.Underlying().(*types.Map); ok {
			c := e.mapContent(st, a)
			if cm := e.constMap(c); cm != nil {
				return u.Int(int64(len(cm))), g, st
			}
			return u.App("maplen", t, c), g, st
		}
		if name == "len" {
			return u.Len(e.Content(st, a)), g, st
		}
		return u.App("cap", t, e.Content(st, a)), g, st
	case "append":
		a := e.Content(st, args[0])
		if len(args) == 1 {
			return a, g, st
		}
		b := e.Content(st, args[1])
		fix := func(v *V) *V {
			return u.lift(func(x []*V) *V {
				if x[0].op == OApp && x[0].s == "zeros" {
					if n, ok := x[0].args[0].intConst(); ok && n == 0 {
						return u.Seq(nil, nil, t)
					}
				}
				return x[0]
			}, v)
		}
		e.emit(&Eff{Guard: g, Kind: "append", Name: "append", Recv: args[0], Args: []*V{a, b}, Pos: site.Pos(), Site: site})
		return u.Append(fix(a), fix(b), t), g, st
	case "copy":
		d := args[0]
		src := e.Content(st, args[1])
		lo := u.Int(0)
		base := d
		for base.op == OApp && base.s == "sview" {
			lo = u.Add(base.args[1], lo, types.Typ[types.Int])
			base = base.args[0]
		}
		if base.op == OApp && base.s == "sref" {
			ab, ap := splitAddr(base.args[0])
			old := e.Content(st, base)
			var nv *V
			into, from := u.Sub(u.Len(e.Content(st, d)), u.Len(src), types.Typ[types.Int]), u.Len(src)
			if n, ok := into.intConst(); ok && n >= 0 {
				nv = u.overwrite(old, lo, from, src)
			}
			if nv != nil {
				st.mem[Loc{ab, ap}] = nv
			} else if d != base {
				st.mem[Loc{ab, ap}] = u.App("copied", old.typ, old, src, lo)
			} else if u.Len(old) == u.Len(src) {
				st.mem[Loc{ab, ap}] = src
			} else {
				st.mem[Loc{ab, ap}] = u.App("copied", old.typ, old, src)
			}
		} else {
			e.emit(&Eff{Guard: g, Kind: "store", Name: "copy", Recv: d, Args: []*V{src}, Pos: site.Pos(), Site: site})
		}
		return u.App("copyn", t, u.Len(e.Content(st, d)), u.Len(src)), g, st
	case "delete":
		m := args[0]
		st.mem[Loc{m, "{}"}] = u.App("mapdel", nil, e.mapContent(st, m), args[1])
		return u.Nil(nil), g, st
	case "recover":
		if e.Recovered != nil {
			return e.Recovered, g, st
		}
		return u.Nil(t), g, st
	case "max", "min":
		return u.MinMax(name, t, args...), g, st
	case "print", "println":
		e.emit(&Eff{Guard: g, Kind: "call", Name: "builtin." + name, Args: args, Pos: site.Pos(), Site: site})
		return u.Nil(nil), g, st
	case "clear":
		e.emit(&Eff{Guard: g, Kind: "store", Name: "clear", Recv: args[0], Pos: site.Pos(), Site: site})
		return u.Nil(nil), g, st
	case "ssa:wrapnilchk":
		return args[0], g, st
	}
	panic(undecided("builtin " + name))
}

// model gives the meaning of some library functions.
func (fr *Frame) model(site ssa.CallInstruction, fn *ssa.Function, args []*V, g *V, st *State) (*V, *V, bool) {
	e := fr.e
	u := e.U
	f64 := types.Typ[types.Float64]
	switch fn.String() {
	case "math.Max":
		return u.MinMax("max", f64, args...), g, true
	case "math.Min":
		return u.MinMax("min", f64, args...), g, true
	case "math.Abs":
		return u.lift(func(x []*V) *V {
			if r, ok := ratOf(x[0]); ok {
				return u.ratConst(r.Abs(r), f64)
			}
			return u.MinMax("max", f64, x[0], u.Neg(x[0], f64))
		}, args[0]), g, true
	case "math.Inf":
		return u.lift(func(x []*V) *V {
			if n, ok := x[0].intConst(); ok {
				if n >= 0 {
					return u.App("+inf", f64)
				}
				return u.App("-inf", f64)
			}
			return u.App("inf", f64, x[0])
		}, args[0]), g, true
	case "math.IsInf":
		return u.lift(func(x []*V) *V {
			n, ok := x[1].intConst()
			if r := e.moved(x[0]); r != nil && ok && n == 0 {
				x = []*V{r, x[1]}
			}
			if _, isc := ratOf(x[0]); isc {
				return u.False
			}
			if hasInf(x[0]) && ok {
				return u.Bool(n == 0 || (n > 0) == (x[0].s == "+inf"))
			}
			if ok {
				s := "0"
				if n > 0 {
					s = "1"
				} else if n < 0 {
					s = "-1"
				}
				return u.Atom(u.App("isinf"+s, types.Typ[types.Bool], x[0]))
			}
			return u.Atom(u.App("isinf", types.Typ[types.Bool], x...))
		}, args[0], args[1]), g, true
	case "strings.Replace", "strings.ReplaceAll", "strings.TrimPrefix", "strings.TrimSuffix":
		cs := make([]string, len(args))
		for i, a := range args {
			if s, ok := a.strConst(); ok {
				cs[i] = s
			} else if n, ok := a.intConst(); ok {
				cs[i] = fmt.Sprint(n)
			} else {
				return nil, nil, false
			}
		}
		switch fn.Name() {
		case "Replace":
			n, _ := args[3].intConst()
			return u.Str(strings.Replace(cs[0], cs[1], cs[2], int(n))), g, true
		case "ReplaceAll":
			return u.Str(strings.ReplaceAll(cs[0], cs[1], cs[2])), g, true
		case "TrimPrefix":
			return u.Str(strings.TrimPrefix(cs[0], cs[1])), g, true
		default:
			return u.Str(strings.TrimSuffix(cs[0], cs[1])), g, true
		}
	case "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
		cut, ok := args[1].strConst()
		for _, c := range cut {
			ok = ok && c < 128
		}
		if !ok || cut == "" {
			break
		}
		return u.lift(func(xs []*V) *V {
			x := xs[0]
			if s, ok := x.strConst(); ok {
				switch fn.Name() {
				case "TrimRight":
					return u.Str(strings.TrimRight(s, cut))
				case "TrimLeft":
					return u.Str(strings.TrimLeft(s, cut))
				}
				return u.Str(strings.Trim(s, cut))
			}
			k, ti := u.Sym("search:tmp", types.Typ[types.Int]), types.Typ[types.Int]
			n := u.Len(x)
			stop := func(i *V) *V {
				keep := u.True
				for _, c := range cut {
					keep = u.And(keep, u.Not(u.Eq(u.Index(x, i, types.Typ[types.Byte]), u.Const(constant.MakeInt64(int64(c)), types.Typ[types.Byte]))))
				}
				return u.Search(n, k, keep)
			}
			lo, hi := u.Int(0), n
			if fn.Name() != "TrimLeft" {
				hi = u.Sub(n, stop(u.Sub(u.Sub(n, u.Int(1), ti), k, ti)), ti)
			}
			if fn.Name() != "TrimRight" {
				// what is all cut off is empty either way
				lo = stop(k)
				if fn.Name() == "Trim" {
					lo = u.Ite(u.Eq(hi, u.Int(0)), u.Int(0), lo)
				}
			}
			return u.lift(func(y []*V) *V { return u.Sub3(x, y[0], y[1], x.typ) }, lo, hi)
		}, args[0]), g, true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := args[0].strConst(); ok {
			f := map[string]func(string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace}
			return u.Str(f[fn.Name()](s)), g, true
		}
	case "strings.ContainsRune", "strings.ContainsAny":
		a, ok := args[0].strConst()
		if b, ok2 := args[1].strConst(); ok && ok2 {
			return u.Bool(strings.ContainsAny(a, b)), g, true
		}
		if n, ok2 := args[1].intConst(); ok && ok2 {
			return u.Bool(strings.ContainsRune(a, rune(n))), g, true
		}
		if ok && fn.Name() == "ContainsRune" {
			r := u.False
			for _, x := range a {
				r = u.Or(r, u.Eq(args[1], u.Const(constant.MakeInt64(int64(x)), types.Typ[types.Rune])))
			}
			return r, g, true
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).String", "(*strings.Builder).Reset", "(*strings.Builder).Len", "(*strings.Builder).Grow":
		b, q := splitAddr(args[0])
		if b.op != OAlloc {
			break
		}
		l := Loc{b, q + "!text"}
		old, ok := st.mem[l]
		if !ok {
			old = u.Str("")
		}
		errT := types.Universe.Lookup("error").Type()
		switch fn.Name() {
		case "WriteString":
			st.mem[l] = u.Concat(old, args[1], types.Typ[types.String])
			return u.Tuple(u.Len(args[1]), u.Nil(errT)), g, true
		case "WriteByte", "WriteRune":
			x := u.lift(func(x []*V) *V {
				if n, ok := x[0].intConst(); ok {
					return u.Str(string(rune(n)))
				}
				return u.App("str", types.Typ[types.String], x[0])
			}, args[1])
			st.mem[l] = u.Concat(old, x, types.Typ[types.String])
			if fn.Name() == "WriteByte" {
				return u.Nil(errT), g, true
			}
			return u.Tuple(u.Len(x), u.Nil(errT)), g, true
		case "String":
			return old, g, true
		case "Len":
			return u.Len(old), g, true
		case "Reset":
			st.mem[l] = u.Str("")
		}
		return u.Nil(nil), g, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok1 := args[0].strConst()
		b, ok2 := args[1].strConst()
		if ok1 && ok2 {
			switch fn.Name() {
			case "HasPrefix":
				return u.Bool(strings.HasPrefix(a, b)), g, true
			case "HasSuffix":
				return u.Bool(strings.HasSuffix(a, b)), g, true
			}
			return u.Bool(strings.Contains(a, b)), g, true
		}
	case "strings.LastIndexFunc", "strings.IndexFunc":
		if args[1].op == OFunc {
			// the predicate is part of the operation, as a function of a rune
			r := u.Sym("rune:"+fn.Name(), types.Typ[types.Rune])
			vs, ok, _ := e.evalFn(args[1].fn, []*V{r}, args[1].args, st.clone(), u.And(e.ctx, g), fr.site(site)+"/pred")
			if len(vs) == 1 && ok == u.True {
				pred := u.App("pred", nil, vs[0])
				return u.lift(func(x []*V) *V { return u.App("call:"+fn.String(), types.Typ[types.Int], x[0], pred) }, args[0]), g, true
			}
		}
	case "sort.Strings":
		// sorting a slice built from constants
		if args[0].op == OApp && args[0].s == "sref" {
			ab, ap := splitAddr(args[0].args[0])
			st.mem[Loc{ab, ap}] = e.sortSeq(e.Content(st, args[0]))
			return u.Nil(nil), g, true
		}
	case "unicode/utf8.RuneCountInString":
		return u.Len(u.App("runes", nil, args[0])), g, true
	case "unicode.Is", "unicode.IsLetter", "unicode.IsDigit", "unicode.IsUpper", "unicode.IsLower":
		// one name for the class of letters (digits, ...)
		long := map[string]string{"L": "Letter", "Lu": "Upper", "Ll": "Lower", "Nd": "Digit"}
		class, r := strings.TrimPrefix(fn.Name(), "Is"), args[len(args)-1]
		if class == "" {
			a := args[0]
			if a.op != OApp || a.s != "load:" || a.args[0].op != OSym || !strings.HasPrefix(a.args[0].s, "global:unicode.") {
				break
			}
			class = strings.TrimPrefix(a.args[0].s, "global:unicode.")
			if l, ok := long[class]; ok {
				class = l
			}
		}
		return u.lift(func(x []*V) *V { return u.Atom(u.App("unicode:"+class, types.Typ[types.Bool], x[0])) }, r), g, true
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		a := args[0]
		if a.op == OApp && a.s == "bytes" {
			a = a.args[0]
		} else if fn.Name() == "DecodeRune" {
			return nil, nil, false
		}
		if s, ok := a.strConst(); ok {
			r, n := decodeRune(s)
			return u.Tuple(u.Const(constant.MakeInt64(int64(r)), types.Typ[types.Rune]), u.Int(int64(n))), g, true
		}
		return u.Tuple(u.App("rune0", types.Typ[types.Rune], a), u.App("runelen", types.Typ[types.Int], a)), g, true
	}
	return nil, nil, false
}

func (e *Eng) sortSeq(c *V) *V {
	if c.op != OSeq {
		return e.U.App("sorted", c.typ, c)
	}
	for i, a := range c.args {
		if _, ok := a.strConst(); !ok || c.splic[i] {
			return e.U.App("sorted", c.typ, c)
		}
	}
	ps := append([]*V(nil), c.args...)
	sort.Slice(ps, func(i, j int) bool {
		a, _ := ps[i].strConst()
		b, _ := ps[j].strConst()
		return a < b
	})
	return e.U.Seq(ps, nil, c.typ)
}

func decodeRune(s string) (rune, int) {
	for _, r := range s {
		return r, len(string(r))
	}
	return 0xFFFD, 0
}

// moved is what a quantity is apart from finite lengths that are added to it
// (the shifts of lists), if anything: one is infinite iff the other is.
func (e *Eng) moved(v *V) *V {
	if v.op != OPoly || e.Finite == nil {
		return nil
	}
	var rest *V
	for _, t := range e.U.termsOf(v) {
		if len(t.mono) == 0 || len(t.mono) == 1 && e.Finite(t.mono[0]) {
			continue
		}
		if rest != nil || len(t.mono) != 1 {
			return nil
		}
		rest = t.mono[0]
	}
	return rest
}
