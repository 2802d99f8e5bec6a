package main

// Who owns what: a flow-insensitive analysis of where references come from
// and which memory each function changes.  Values have origins: parameters,
// captured variables, package variables, trees returned by the parser; what
// was made during the call has none.  Each function is summarised by the
// origins it changes (and through which field), by what it stores where, and
// by the origins of its results; summaries are applied at the calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type origin struct {
	kind byte // 'p' parameter, 'f' captured variable, 'g' package variable, 't' tree
	i    int
	g    *ssa.Global
	via  string // the field last followed from it
}

func (r origin) flat() origin { r.via = ""; return r }

type origins map[origin]bool

func (a origins) add(b origins) bool {
	ch := false
	for r := range b {
		if !a[r] {
			a[r] = true
			ch = true
		}
	}
	return ch
}

func (a origins) one(r origin) bool {
	if a[r] {
		return false
	}
	a[r] = true
	return true
}

type modKey struct {
	r    origin
	what string // type of the memory changed
	site ssa.Instruction
}

type retain struct {
	in, what origin
	site     ssa.Instruction
}

type own struct {
	f       *ssa.Function
	val     map[ssa.Value]origins
	tup     map[ssa.Value][]origins
	stores  map[string]origins
	cells   map[ssa.Value]origins
	ret     []origins
	mods    map[modKey]bool
	retains map[retain]bool
	once    bool // runs once, under a guard of the package
}

type owners struct {
	p     *Prog
	fn    map[*ssa.Function]*own
	heap  map[string]origins
	taken map[string][]*ssa.Function // by signature, functions used as values
	clos  map[string][]*ssa.MakeClosure
	ch    bool
}

func hasRefs(t types.Type) bool { return hasRefs1(t, map[types.Type]bool{}) }

func hasRefs1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if fixed(t) {
		return false // nothing to be changed through it
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasRefs1(x.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs1(x.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if hasRefs1(x.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// sigKey names a type of functions, whatever their parameters are called.
func sigKey(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return tkey(t)
	}
	var b strings.Builder
	list := func(l *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < l.Len(); i++ {
			b.WriteString(sigKey(l.At(i).Type()) + ",")
		}
		b.WriteString(")")
	}
	b.WriteString("func")
	list(s.Params())
	list(s.Results())
	if s.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

func tkey(t types.Type) string { return types.TypeString(t, nil) }

// keysOf are the heap keys a value of a type is spread over when stored.
func keysOf(k string, t types.Type) []string {
	out := []string{k}
	if st := structOf(t); st != nil && t.Underlying() == types.Type(st) {
		for i := 0; i < st.NumFields(); i++ {
			if hasRefs(st.Field(i).Type()) {
				out = append(out, keysOf(fmt.Sprintf("%s.%d", tkey(t), i), st.Field(i).Type())...)
			}
		}
	}
	return out
}

// place is the key of the memory at an address, and what it is part of.
func place(a ssa.Value) (key, what string, base ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		t := derefT(x.X.Type())
		return fmt.Sprintf("%s.%d", tkey(t), x.Field), tkey(t), x.X
	case *ssa.IndexAddr:
		t := x.X.Type().Underlying()
		var el types.Type
		switch y := t.(type) {
		case *types.Slice:
			el = y.Elem()
		case *types.Pointer:
			el = derefT(x.X.Type()).Underlying().(*types.Array).Elem()
		}
		return "elem " + tkey(el), "[]" + tkey(el), x.X
	}
	t := derefT(a.Type())
	return "at " + tkey(t), tkey(t), a
}

func (p *Prog) owners() *owners {
	if p.own != nil {
		return p.own
	}
	o := &owners{p: p, fn: map[*ssa.Function]*own{}, heap: map[string]origins{}, taken: map[string][]*ssa.Function{}, clos: map[string][]*ssa.MakeClosure{}}
	p.own = o
	var fs []*ssa.Function
	for _, f := range p.everyF() {
		if !p.library(f) {
			continue // commands use the library, not the other way around
		}
		fs = append(fs, f)
		o.fn[f] = &own{f: f, val: map[ssa.Value]origins{}, tup: map[ssa.Value][]origins{}, stores: map[string]origins{}, cells: map[ssa.Value]origins{}, mods: map[modKey]bool{}, retains: map[retain]bool{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			o.fn[f].ret = append(o.fn[f].ret, origins{})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					s := sigKey(mc.Type())
					o.clos[s] = append(o.clos[s], mc)
				}
				c, isCall := in.(ssa.CallInstruction)
				var rands [16]*ssa.Value
				for _, v := range in.Operands(rands[:0]) {
					if g, ok := (*v).(*ssa.Function); ok && !(isCall && c.Common().Value == *v && !c.Common().IsInvoke()) {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
							continue
						}
						s := sigKey(g.Signature)
						o.taken[s] = append(o.taken[s], g)
					}
				}
			}
		}
	}
	for n := 0; n < 200; n++ {
		o.ch = false
		for _, f := range fs {
			o.step(o.fn[f])
		}
		if !o.ch {
			return o
		}
	}
	panic(undecided("the analysis of ownership does not stabilise"))
}

// everyF are all functions of the module, initialisers included.
func (p *Prog) everyF() []*ssa.Function {
	out := append([]*ssa.Function{}, p.allF...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil {
			seen[f] = true
			out = append(out, f)
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
	}
	var paths []string
	for k := range p.SPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if k == specPath {
			continue
		}
		add(p.SPkg[k].Func("init"))
	}
	// wrappers the compiler makes: bound methods, promoted methods
	for i := 0; i < len(out); i++ {
		for _, g := range p.callees(out[i]) {
			if g.Synthetic != "" {
				add(g)
			}
		}
	}
	return out
}

func (o *owners) of(w *own, v ssa.Value) origins {
	switch x := v.(type) {
	case *ssa.Global:
		return origins{origin{kind: 'g', g: x}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
		return nil
	case *ssa.Parameter:
		if !hasRefs(x.Type()) {
			return nil
		}
		for i, q := range w.f.Params {
			if q == x {
				return origins{origin{kind: 'p', i: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, q := range w.f.FreeVars {
			if q == x {
				return origins{origin{kind: 'f', i: i}: true}
			}
		}
	}
	return w.val[v]
}

func (o *owners) set(w *own, v ssa.Value, r origins) {
	if len(r) == 0 {
		return
	}
	m := w.val[v]
	if m == nil {
		m = origins{}
		w.val[v] = m
	}
	if m.add(r) {
		o.ch = true
	}
}

// load is what memory of a key, in what base leads to, may hold.
func (o *owners) load(w *own, base origins, key string, t types.Type, addr ssa.Value) origins {
	out := origins{}
	if !hasRefs(t) {
		return out
	}
	for r := range base {
		r.via = key
		out[r] = true
	}
	for _, k := range keysOf(key, t) {
		out.add(o.heap[k])
		out.add(w.stores[k])
	}
	if addr != nil {
		out.add(w.cells[addr])
	}
	return out
}

func (o *owners) storeTo(w *own, key string, t types.Type, r origins) {
	if len(r) == 0 {
		return
	}
	for _, k := range keysOf(key, t) {
		for x := range r {
			m := w.stores
			if x.kind == 'g' || x.kind == 't' {
				m = o.heap
			}
			if m[k] == nil {
				m[k] = origins{}
			}
			if m[k].one(x) {
				o.ch = true
			}
		}
	}
}

func (o *owners) mod(w *own, r origins, what string, site ssa.Instruction) {
	for x := range r {
		k := modKey{x, what, site}
		if !w.mods[k] {
			w.mods[k] = true
			o.ch = true
		}
	}
}

func (o *owners) keep(w *own, in, what origins, site ssa.Instruction) {
	for a := range in {
		for b := range what {
			k := retain{a.flat(), b.flat(), site}
			if a.flat() != b.flat() && !w.retains[k] {
				w.retains[k] = true
				o.ch = true
			}
		}
	}
}

// local tells whether an address is that of a variable of the function that
// only it and its closures use.
func local(a ssa.Value) bool { _, ok := a.(*ssa.Alloc); return ok }

func (o *owners) step(w *own) {
	for _, b := range w.f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				key, what, base := place(x.Addr)
				br := o.of(w, base)
				vr := o.of(w, x.Val)
				if local(x.Addr) {
					m := w.cells[x.Addr]
					if m == nil {
						m = origins{}
						w.cells[x.Addr] = m
					}
					if m.add(vr) {
						o.ch = true
					}
				}
				o.storeTo(w, key, x.Val.Type(), vr)
				o.mod(w, br, what, in)
				o.keep(w, br, vr, in)
			case *ssa.MapUpdate:
				mt := tkey(x.Map.Type())
				br := o.of(w, x.Map)
				o.storeTo(w, "val "+mt, x.Value.Type(), o.of(w, x.Value))
				o.storeTo(w, "key "+mt, x.Key.Type(), o.of(w, x.Key))
				o.mod(w, br, mt, in)
				o.keep(w, br, o.of(w, x.Value), in)
				o.keep(w, br, o.of(w, x.Key), in)
			case *ssa.Send:
				o.keep(w, o.of(w, x.Chan), o.of(w, x.X), in)
				o.storeTo(w, "chan "+tkey(x.Chan.Type()), x.X.Type(), o.of(w, x.X))
			case *ssa.Return:
				for i, v := range x.Results {
					if w.ret[i].add(o.of(w, v)) {
						o.ch = true
					}
				}
			case ssa.CallInstruction:
				o.call(w, x)
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					key, _, base := place(x.X)
					o.set(w, x, o.load(w, o.of(w, base), key, x.Type(), x.X))
				case token.ARROW:
					o.set(w, x, o.load(w, o.of(w, x.X), "chan "+tkey(x.X.Type()), x.Type(), nil))
				}
			case *ssa.FieldAddr:
				o.set(w, x, o.of(w, x.X))
			case *ssa.IndexAddr:
				o.set(w, x, o.of(w, x.X))
			case *ssa.Field:
				if hasRefs(x.Type()) {
					o.set(w, x, o.of(w, x.X))
				}
			case *ssa.Index:
				if hasRefs(x.Type()) {
					o.set(w, x, o.of(w, x.X))
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					t := x.Type()
					if tt, ok := t.(*types.Tuple); ok {
						t = tt.At(0).Type()
					}
					o.set(w, x, o.load(w, o.of(w, x.X), "val "+tkey(x.X.Type()), t, nil))
				}
			case *ssa.Range:
				o.set(w, x, o.of(w, x.X))
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
						o.set(w, x, o.load(w, o.of(w, x.Iter), "val "+tkey(r.X.Type()), mt.Elem(), nil))
						o.set(w, x, o.load(w, o.of(w, x.Iter), "key "+tkey(r.X.Type()), mt.Key(), nil))
					}
				}
			case *ssa.Extract:
				if hasRefs(x.Type()) {
					if ts := w.tup[x.Tuple]; ts != nil {
						o.set(w, x, ts[x.Index])
					} else {
						o.set(w, x, o.of(w, x.Tuple))
					}
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					o.set(w, x, o.of(w, e))
				}
			case *ssa.MakeInterface:
				o.set(w, x, o.of(w, x.X))
			case *ssa.ChangeInterface:
				o.set(w, x, o.of(w, x.X))
			case *ssa.ChangeType:
				o.set(w, x, o.of(w, x.X))
			case *ssa.TypeAssert:
				if hasRefs(x.AssertedType) {
					o.set(w, x, o.of(w, x.X))
				}
			case *ssa.Slice:
				o.set(w, x, o.of(w, x.X))
			case *ssa.SliceToArrayPointer:
				o.set(w, x, o.of(w, x.X))
			case *ssa.MakeClosure:
				for _, bd := range x.Bindings {
					o.set(w, x, o.of(w, bd))
				}
				if g := o.fn[x.Fn.(*ssa.Function)]; g != nil && !g.once {
					// what it does to what it captures is done here
					o.apply(w, g, nil, x.Bindings, in)
				}
			}
		}
	}
}

// roomless tells slices that have no room to append to in place.
func roomless(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if x.Max == nil {
			return false
		}
		if x.Max == x.High {
			return true
		}
		a, ok1 := x.Max.(*ssa.Const)
		b, ok2 := x.High.(*ssa.Const)
		return ok1 && ok2 && a.Value.ExactString() == b.Value.ExactString()
	}
	return false
}

// fixed are types of other modules that are safe to use from several calls.
func fixed(t types.Type) bool {
	switch strings.TrimLeft(tkey(t), "*") {
	case "golang.org/x/image/font/sfnt.Font", "golang.org/x/image/font/opentype.Font", "sync.Once", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "reflect.rtype", "log.Logger", "unicode.RangeTable", "regexp.Regexp":
		return true
	}
	return false
}

// changes are the arguments that a function of another module changes.
func changes(f *ssa.Function, m *types.Func, com *ssa.CallCommon) (out []ssa.Value) {
	name := ""
	if f != nil {
		name = f.String()
	} else if m != nil {
		name = m.FullName()
	}
	args := com.Args
	if com.IsInvoke() {
		if _, ok := com.Value.Type().Underlying().(*types.Interface); ok {
			out = append(out, com.Value)
		}
	}
	inPlace := false
	for _, p := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace", "math/rand.Shuffle", "io.Read", "encoding/"} {
		inPlace = inPlace || strings.HasPrefix(name, p)
	}
	if strings.HasPrefix(name, "sort.Search") || strings.HasSuffix(name, "IsSorted") || strings.HasSuffix(name, "AreSorted") {
		inPlace = false
	}
	if i := strings.LastIndex(name, "."); i >= 0 && strings.HasPrefix(name[i+1:], "Read") {
		inPlace = true
	}
	for i, a := range args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer:
			if !fixed(a.Type()) {
				out = append(out, a)
			}
		case *types.Map:
			out = append(out, a)
		case *types.Slice, *types.Interface:
			if inPlace {
				out = append(out, a)
			}
			_ = i
		}
	}
	return out
}

func (o *owners) call(w *own, site ssa.CallInstruction) {
	com := site.Common()
	in := site.(ssa.Instruction)
	res := site.Value()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a := com.Args[0]
			el := a.Type().Underlying().(*types.Slice).Elem()
			if !roomless(a) {
				o.mod(w, o.of(w, a), "[]"+tkey(el), in)
			}
			if res != nil {
				o.set(w, res, o.of(w, a))
			}
			if len(com.Args) > 1 && hasRefs(el) {
				els := o.load(w, o.of(w, com.Args[1]), "elem "+tkey(el), el, nil)
				o.storeTo(w, "elem "+tkey(el), el, els)
				o.keep(w, o.of(w, a), els, in)
			}
		case "copy":
			if st, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
				o.mod(w, o.of(w, com.Args[0]), "[]"+tkey(st.Elem()), in)
				if hasRefs(st.Elem()) {
					els := o.load(w, o.of(w, com.Args[1]), "elem "+tkey(st.Elem()), st.Elem(), nil)
					o.storeTo(w, "elem "+tkey(st.Elem()), st.Elem(), els)
					o.keep(w, o.of(w, com.Args[0]), els, in)
				}
			}
		case "delete", "clear":
			o.mod(w, o.of(w, com.Args[0]), tkey(com.Args[0].Type()), in)
		}
		return
	}
	var ext *ssa.Function
	extM := false
	if com.IsInvoke() {
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		for _, T := range o.p.impls(it) {
			if g := o.p.method(T, com.Method); g != nil && o.fn[g] != nil {
				o.apply(w, o.fn[g], append([]ssa.Value{com.Value}, com.Args...), nil, in)
				o.results(w, o.fn[g], append([]ssa.Value{com.Value}, com.Args...), nil, res)
			}
		}
		extM = true
		if com.Method.Pkg() != nil && o.p.isModule(com.Method.Pkg().Path()) {
			extM = false // what users implement is theirs
		}
	} else {
		switch v := com.Value.(type) {
		case *ssa.Function:
			if g := o.fn[v]; g != nil {
				o.apply(w, g, com.Args, nil, in)
				o.results(w, g, com.Args, nil, res)
				if tr := o.p.parserResult(v); tr && !o.p.samePkg(w.f, v) && res != nil {
					o.tree(w, res)
				}
			} else {
				ext = v
			}
		case *ssa.MakeClosure:
			if g := o.fn[v.Fn.(*ssa.Function)]; g != nil {
				o.apply(w, g, com.Args, v.Bindings, in)
				o.results(w, g, com.Args, v.Bindings, res)
			}
		default:
			s := sigKey(com.Value.Type())
			for _, g := range o.taken[s] {
				if o.fn[g] != nil {
					o.apply(w, o.fn[g], com.Args, nil, in)
					o.results(w, o.fn[g], com.Args, nil, res)
				}
			}
			for _, mc := range o.clos[s] {
				if g := o.fn[mc.Fn.(*ssa.Function)]; g != nil {
					o.apply(w, g, com.Args, nil, in)
					for m := range g.mods {
						// what a function of the package keeps for itself
						for r := range o.of(w, com.Value) {
							if m.r.kind == 'f' && r.kind == 'g' {
								o.mod(w, origins{r: true}, m.what, in)
							}
						}
					}
					o.results(w, g, com.Args, nil, res)
				}
			}
		}
	}
	if ext != nil || extM {
		for _, a := range changes(ext, com.Method, com) {
			t := a.Type()
			if mi, ok := a.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			o.mod(w, o.of(w, a), strings.TrimLeft(tkey(t), "*"), in)
		}
		if res != nil && hasRefs(res.Type()) {
			vs := com.Args
			if com.IsInvoke() {
				vs = append([]ssa.Value{com.Value}, vs...)
			}
			for _, a := range vs {
				if hasRefs(a.Type()) && !types.Identical(res.Type(), errorType) {
					o.set(w, res, o.of(w, a))
				}
			}
		}
	}
}

func (o *owners) tree(w *own, res *ssa.Call) {
	t := origins{origin{kind: 't'}: true}
	if tt, ok := res.Type().(*types.Tuple); ok {
		ts := w.tup[res]
		for i := 0; i < tt.Len(); i++ {
			if isAST(tt.At(i).Type()) && ts != nil {
				if ts[i].add(t) {
					o.ch = true
				}
			}
		}
		return
	}
	o.set(w, res, t)
}

// translate is what a origin of a callee is at a call.
func (o *owners) translate(w *own, r origin, args, binds []ssa.Value) origins {
	var a ssa.Value
	switch r.kind {
	case 'p':
		if r.i >= len(args) {
			return nil
		}
		a = args[r.i]
	case 'f':
		if r.i >= len(binds) {
			return nil
		}
		a = binds[r.i]
	default:
		return origins{r: true}
	}
	src := o.of(w, a)
	if r.via == "" {
		return src
	}
	out := origins{}
	for x := range src {
		x.via = r.via
		out[x] = true
	}
	out.add(o.heap[r.via])
	out.add(w.stores[r.via])
	if al, ok := a.(*ssa.Alloc); ok {
		out.add(w.cells[al])
	}
	return out
}

func (o *owners) apply(w, g *own, args, binds []ssa.Value, site ssa.Instruction) {
	for m := range g.mods {
		if m.r.kind == 'g' {
			continue // reported where it happens
		}
		if m.r.kind == 't' {
			continue
		}
		o.mod(w, o.translate(w, m.r, args, binds), m.what, site)
	}
	for k, rs := range g.stores {
		for r := range rs {
			tr := o.translate(w, r, args, binds)
			for x := range tr {
				m := w.stores
				if x.kind == 'g' || x.kind == 't' {
					m = o.heap
				}
				if m[k] == nil {
					m[k] = origins{}
				}
				if m[k].one(x) {
					o.ch = true
				}
			}
		}
	}
	for k := range g.retains {
		a, b := o.translate(w, k.in, args, binds), o.translate(w, k.what, args, binds)
		if k.in.kind == 'g' && k.what.kind != 'p' && k.what.kind != 'f' {
			continue
		}
		o.keep(w, a, b, site)
	}
}

func (o *owners) results(w, g *own, args, binds []ssa.Value, res *ssa.Call) {
	if res == nil {
		return
	}
	if len(g.ret) == 1 {
		for r := range g.ret[0] {
			o.set(w, res, o.translate(w, r, args, binds))
		}
		return
	}
	ts := w.tup[res]
	if ts == nil {
		for range g.ret {
			ts = append(ts, origins{})
		}
		w.tup[res] = ts
	}
	for i := range g.ret {
		for r := range g.ret[i] {
			if ts[i].add(o.translate(w, r, args, binds)) {
				o.ch = true
			}
		}
	}
}

// isAST tells types of the syntax tree.
func isAST(t types.Type) bool {
	s := tkey(t)
	return strings.Contains(s, modPath+"/ast.") && !strings.Contains(s, "func(") && !strings.HasSuffix(s, "/ast.Visitor")
}

func (p *Prog) samePkg(f, g *ssa.Function) bool { return funcPkg(f, nil) == funcPkg(g, nil) }

// parserResult tells the functions that hand out trees.
func (p *Prog) parserResult(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
		return false
	}
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isAST(r.At(i).Type()) {
			return true
		}
	}
	return false
}

// guardOf is the once-guard of a package under which a call runs a function.
func guardOf(site ssa.CallInstruction) (*ssa.Global, ssa.Value) {
	com := site.Common()
	f, ok := com.Value.(*ssa.Function)
	if !ok || f.String() != "(*sync.Once).Do" || len(com.Args) < 2 {
		return nil, nil
	}
	a := com.Args[0]
	for {
		switch x := a.(type) {
		case *ssa.Global:
			return x, com.Args[1]
		case *ssa.FieldAddr:
			a = x.X
			continue
		}
		return nil, nil
	}
}

// exported tells the functions that users may call.
func exported(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

// running are the functions that run when the library is used, beside
// initialisation, and the functions that run once under a guard.
func (p *Prog) running() (fs []*ssa.Function, guarded map[*ssa.Function]*ssa.Global) {
	guarded = map[*ssa.Function]*ssa.Global{}
	free := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	edges := func(f *ssa.Function) {
		once := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g, fn := guardOf(c); g != nil {
					switch v := fn.(type) {
					case *ssa.Function:
						once[v], guarded[v] = true, g
					case *ssa.MakeClosure:
						once[v.Fn.(*ssa.Function)], guarded[v.Fn.(*ssa.Function)] = true, g
					}
				}
			}
		}
		for _, g := range p.callees(f) {
			if !once[g] {
				visit(g)
			}
		}
	}
	visit = func(f *ssa.Function) {
		if f == nil || free[f] {
			return
		}
		free[f] = true
		fs = append(fs, f)
		edges(f)
	}
	for _, f := range p.allF {
		if p.library(f) && exported(f) && f.Name() != "init" {
			visit(f)
		}
	}
	return fs, guarded
}
