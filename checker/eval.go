package main

// Abstract interpretation of go/ssa functions over the value graph: one pass
// over the control-flow graph with joined (gated) states, loops summarised by
// their transfer function, module functions inlined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loc struct {
	base *V
	path string
}

type State struct {
	mem map[Loc]*V
}

func newState() *State { return &State{mem: map[Loc]*V{}} }
func (s *State) clone() *State {
	n := &State{mem: make(map[Loc]*V, len(s.mem)+8)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

// Eff is one effect, in program order.
type Eff struct {
	Guard  *V
	Kind   string // call, panic, loop, store, mapput, assert, index, go
	Name   string
	Fn     *ssa.Function
	Method *types.Func
	Recv   *V
	Args   []*V
	Raw    []*V // arguments as passed (slices and pointers unresolved)
	Res    *V
	Pos    token.Pos
	Loop   *Loop
	Site   ssa.Instruction
	St     *State
}

type LoopVar struct {
	Mu, Om, Init, Next *V
	Loc                *Loc
	Phi                *ssa.Phi
}

type Loop struct {
	ID      string
	Fn      *ssa.Function
	Pos     token.Pos
	K, KOut *V
	N       *V // trip count, when the only exit is K >= N
	Vars    []*LoopVar
	Back    *V // condition of continuing, per iteration
	Effs    []*Eff
	BackSt  *State
	Exits   []*V
	ExitSt  []*State
	Abort   *V // condition, per iteration, of not completing it
	Header  int
	Done    *V  // whether a counted loop completes all its iterations
	Depth   int // loops around it
	Escapes bool
}

type Cfg struct {
	Opaque   func(fn *ssa.Function) bool
	Hook     func(e *Eng, fr *Frame, c *CallCtx) (handled bool)
	Dispatch func(iface types.Type, m *types.Func) []types.Type
	Pure     func(name string) bool
	MaxDepth int
	NoUnroll bool
	PeelLast bool // evaluate the last iteration of counted loops apart, when it is treated apart
}

type Eng struct {
	Finite    func(v *V) bool // lengths that are never infinite
	U         *Univ
	P         *Prog
	Cfg       Cfg
	Sink      *[]*Eff
	Loops     map[*V]*Loop // ω / μ -> loop
	LVars     map[*V]*LoopVar
	stack     []*ssa.Function
	ctx       *V // accumulated guard of the enclosing frames
	fresh     int
	Steps     int
	Inlined   map[*ssa.Function]int
	tsyms     map[*V]types.Type
	modMemo   map[*ssa.Function]bool
	Globals   *State
	gdone     map[string]bool
	constMp   map[*V]map[string]*V
	loopDepth int
	locT      map[Loc]types.Type
	Absent    func(k *V) bool // keys assumed to be in no table
	ApartLast bool            // a counted loop treats its last iteration in a way of its own
	NoMemo    bool
	InitHook  func(e *Eng, fr *Frame, c *CallCtx) bool // describes libraries to initialisers
	Recovered *V                                       // what recover yields, if not nil
}

func NewEng(p *Prog, u *Univ, cfg Cfg) *Eng {
	return &Eng{U: u, P: p, Cfg: cfg, Loops: map[*V]*Loop{}, LVars: map[*V]*LoopVar{}, ctx: u.True,
		Inlined: map[*ssa.Function]int{}, tsyms: map[*V]types.Type{}, modMemo: map[*ssa.Function]bool{}, constMp: map[*V]map[string]*V{}}
}

type Frame struct {
	e      *Eng
	fn     *ssa.Function
	env    map[ssa.Value]*V
	path   string
	params []*V
	binds  []*V
	rets   []retEdge
	defers []deferred
	loops  map[*ssa.BasicBlock]*natLoop
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
}

type retEdge struct {
	g    *V
	st   *State
	vals []*V
}
type deferred struct {
	g    *V
	call *ssa.Defer
	fn   *V
	args []*V
}

type edge struct {
	pred, to *ssa.BasicBlock
	g        *V
	st       *State
	snap     map[ssa.Value]*V
}

// CallCtx is what a hook sees.
type CallCtx struct {
	Site   ssa.CallInstruction
	Fn     *ssa.Function
	Method *types.Func
	Recv   *V
	Args   []*V
	G      *V // in: guard; out: guard after
	St     *State
	Res    *V
	Name   string
}

func (e *Eng) emit(x *Eff) {
	if e.Sink != nil {
		*e.Sink = append(*e.Sink, x)
	}
}

// Result of evaluating a function.
type Result struct {
	Vals  []*V
	G     *V // condition of normal return
	St    *State
	Effs  []*Eff
	Panic *V
}

// Run evaluates fn on the given arguments.
func (e *Eng) Run(fn *ssa.Function, args []*V, st *State) *Result {
	var effs []*Eff
	old := e.Sink
	e.Sink = &effs
	defer func() { e.Sink = old }()
	if st == nil {
		st = newState()
	}
	vals, g, out := e.evalFn(fn, args, nil, st, e.U.True, "")
	return &Result{Vals: vals, G: g, St: out, Effs: effs}
}

// runAt evaluates a function without parameters under a name of its own.
func (e *Eng) runAt(fn *ssa.Function, st *State, path string) *Result {
	var effs []*Eff
	old := e.Sink
	e.Sink = &effs
	defer func() { e.Sink = old }()
	vals, g, out := e.evalFn(fn, nil, nil, st, e.U.True, path)
	return &Result{Vals: vals, G: g, St: out, Effs: effs}
}

// Run2 evaluates a closure.
func (e *Eng) Run2(fn *ssa.Function, binds []*V, st *State) *Result {
	var effs []*Eff
	old := e.Sink
	e.Sink = &effs
	defer func() { e.Sink = old }()
	vals, g, out := e.evalFn(fn, e.Params(fn), binds, st.clone(), e.U.True, "")
	return &Result{Vals: vals, G: g, St: out, Effs: effs}
}

// Params makes symbolic parameters.
func (e *Eng) Params(fn *ssa.Function) []*V {
	var o []*V
	for i, p := range fn.Params {
		o = append(o, e.U.Sym(fmt.Sprintf("p%d", i), p.Type()))
	}
	return o
}

func (e *Eng) evalFn(fn *ssa.Function, args, binds []*V, st *State, ctx *V, path string) ([]*V, *V, *State) {
	if fn.Blocks == nil {
		panic(undecided("no body: " + fn.String()))
	}
	if len(e.stack) > 40 {
		panic(undecided("inlining too deep at " + fn.String()))
	}
	e.stack = append(e.stack, fn)
	oldctx := e.ctx
	e.ctx = ctx
	defer func() { e.stack = e.stack[:len(e.stack)-1]; e.ctx = oldctx }()
	e.Inlined[fn]++
	fr := &Frame{e: e, fn: fn, env: map[ssa.Value]*V{}, path: path, params: args, binds: binds}
	fr.loops, fr.order, fr.rpo = e.P.loopsOf(fn)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.env[f] = binds[i]
		}
	}
	out := fr.region(nil, []edge{{to: fn.Blocks[0], g: e.U.True, st: st}})
	if len(out) != 0 {
		panic(undecided("dangling edges in " + fn.String()))
	}
	if len(fr.rets) == 0 {
		return nil, e.U.False, st
	}
	// merge returns
	g := e.U.False
	r := fr.rets[len(fr.rets)-1]
	g = r.g
	vals := append([]*V(nil), r.vals...)
	mst := r.st
	for i := len(fr.rets) - 2; i >= 0; i-- {
		x := fr.rets[i]
		for j := range vals {
			vals[j] = e.U.Ite(x.g, x.vals[j], vals[j])
		}
		mst = e.mergeSt(x.g, x.st, mst)
		g = e.U.Or(g, x.g)
	}
	return vals, g, mst
}

func (e *Eng) mergeSt(c *V, a, b *State) *State {
	if a == b || c == e.U.True {
		return a
	}
	if c == e.U.False {
		return b
	}
	n := &State{mem: make(map[Loc]*V, len(a.mem))}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok {
			if k.base.op == OAlloc {
				if _, live := b.mem[Loc{k.base, "#"}]; !live {
					n.mem[k] = v
					continue
				}
			}
			w = e.defLoc(b, k, v.typ)
		}
		n.mem[k] = e.U.Ite(c, v, w)
	}
	for k, w := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		if k.base.op == OAlloc {
			if _, live := a.mem[Loc{k.base, "#"}]; !live {
				n.mem[k] = w
				continue
			}
		}
		n.mem[k] = e.U.Ite(c, e.defLoc(a, k, w.typ), w)
	}
	return n
}

// defLoc is the value of a location that was not written.
func (e *Eng) defLoc(st *State, l Loc, t types.Type) *V {
	if v, ok := st.mem[l]; ok {
		return v
	}
	if l.path == "#" {
		return e.U.False
	}
	if l.path == "!ver" || strings.HasSuffix(l.path, "!ver") {
		return e.U.Nil(nil)
	}
	if l.path == "{}" {
		if l.base.op == OAlloc {
			return e.U.App("mapempty", nil)
		}
		return e.U.App("mapload", nil, l.base)
	}
	if dt := e.locT[l]; dt != nil {
		t = dt
	}
	if l.base.op == OAlloc {
		if t == nil {
			return e.U.Nil(nil)
		}
		return e.U.Zero(t)
	}
	if l.base.op == OSym && strings.HasPrefix(l.base.s, "global:") && e.lazyGlobals(l.base) {
		return e.defLoc(st, l, t)
	}
	if e.Globals != nil && l.base.op == OSym && strings.HasPrefix(l.base.s, "global:") {
		if v, ok := e.Globals.mem[l]; ok {
			return v
		}
		if _, ok := e.Globals.mem[Loc{l.base, "#"}]; ok {
			return e.U.Zero(t)
		}
	}
	if v, ok := st.mem[Loc{l.base, "!ver"}]; ok && !v.isNilConst() {
		return e.U.lift(func(x []*V) *V {
			if x[0].isNilConst() {
				return e.U.App("load:"+l.path, t, l.base)
			}
			return e.U.App("load:"+l.path, t, l.base, x[0])
		}, v)
	}
	return e.U.App("load:"+l.path, t, l.base)
}

// ---- memory

func splitAddr(a *V) (*V, string) {
	if a.op == OAddr {
		return a.args[0], a.s
	}
	return a, ""
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (e *Eng) Load(st *State, addr *V, t types.Type) *V {
	return e.U.lift(func(x []*V) *V {
		b, p := splitAddr(x[0])
		return e.loadAt(st, b, p, t)
	}, addr)
}

func (e *Eng) loadAt(st *State, b *V, p string, t types.Type) *V {
	if b.op == OApp && b.s == "eaddr" {
		el := e.U.Index(e.Content(st, b.args[0]), b.args[1], derefT(b.typ))
		return e.fieldPath(el, p)
	}
	if s := structOf(t); s != nil {
		if v, ok := st.mem[Loc{b, p}]; ok { // opaque whole struct
			return v
		}
		args := make([]*V, s.NumFields())
		for i := range args {
			args[i] = e.loadAt(st, b, fmt.Sprintf("%s.%d", p, i), s.Field(i).Type())
		}
		return e.structOrLoad(t, args, b, p)
	}
	e.typeLoc(Loc{b, p}, t)
	return e.defLoc(st, Loc{b, p}, t)
}

// typeLoc records the declared type of a place.
func (e *Eng) typeLoc(l Loc, t types.Type) {
	if e.locT == nil {
		e.locT = map[Loc]types.Type{}
	}
	if t != nil {
		e.locT[l] = t
	}
}

func (e *Eng) structOrLoad(t types.Type, args []*V, b *V, p string) *V {
	return e.U.Struct(t, args)
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Eng) fieldPath(v *V, p string) *V {
	for p != "" {
		var i int
		p = p[1:]
		j := strings.IndexByte(p, '.')
		s := p
		if j >= 0 {
			s = p[:j]
			p = p[j:]
		} else {
			p = ""
		}
		fmt.Sscanf(s, "%d", &i)
		var ft types.Type
		tv := v.typ
		if v.op == OIte {
			for tv == nil && v.op == OIte {
				tv = v.args[1].typ
			}
		}
		if st := structOf(tv); st != nil && i < st.NumFields() {
			ft = st.Field(i).Type()
		}
		v = e.U.Field(v, i, ft)
	}
	return v
}

func (e *Eng) setPath(v *V, p string, nv *V) *V {
	if p == "" {
		return nv
	}
	q := p[1:]
	j := strings.IndexByte(q, '.')
	rest := ""
	if j >= 0 {
		rest = q[j:]
		q = q[:j]
	}
	var i int
	fmt.Sscanf(q, "%d", &i)
	return e.U.lift(func(x []*V) *V {
		s := structOf(x[0].typ)
		if s == nil {
			panic(undecided("store into a field of an unknown struct"))
		}
		args := make([]*V, s.NumFields())
		for k := range args {
			args[k] = e.U.Field(x[0], k, s.Field(k).Type())
		}
		args[i] = e.setPath(args[i], rest, nv)
		return e.U.Struct(x[0].typ, args)
	}, v)
}

// Store writes val (of type t) through addr.
func (e *Eng) Store(st *State, addr, val *V, t types.Type, g *V, pos token.Pos) {
	if addr.op == OIte {
		for _, l := range e.U.Leaves(addr) {
			if e.U.And(e.U.And(e.ctx, g), l.cond) == e.U.False {
				continue
			}
			old := e.Load(st, l.val, t)
			e.Store(st, l.val, e.U.Ite(l.cond, val, old), t, g, pos)
		}
		return
	}
	b, p := splitAddr(addr)
	if b.op == OApp && b.s == "eaddr" {
		c := b.args[0]
		at := b.args[1]
		for c.op == OApp && c.s == "sview" {
			at = e.U.Add(c.args[1], at, types.Typ[types.Int])
			c = c.args[0]
		}
		if c.op == OApp && c.s == "sref" || c.op == OAlloc || c.op == OAddr {
			arr := c
			if c.op == OApp {
				arr = c.args[0]
			}
			old := e.Content(st, c)
			elT := derefT(b.typ)
			nv := val
			if p != "" {
				nv = e.setPath(e.U.Index(old, at, elT), p, val)
			}
			nc := e.U.storeElem(old, at, nv)
			ab, ap := splitAddr(arr)
			st.mem[Loc{ab, ap}] = nc
			return
		}
		e.emit(&Eff{Guard: g, Kind: "store", Name: "element", Recv: c, Args: []*V{at, val}, Pos: pos})
		return
	}
	if b.op != OAlloc {
		e.emit(&Eff{Guard: g, Kind: "store", Name: p, Recv: b, Args: []*V{val}, Pos: pos})
	}
	e.storeAt(st, b, p, val, t)
}

func (e *Eng) storeAt(st *State, b *V, p string, val *V, t types.Type) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			e.storeAt(st, b, fmt.Sprintf("%s.%d", p, i), e.U.Field(val, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	e.typeLoc(Loc{b, p}, t)
	st.mem[Loc{b, p}] = val
}

// storeElem updates element i of an array value.
func (u *Univ) storeElem(a, i, v *V) *V {
	if n, ok := i.intConst(); ok {
		if a.op == OApp && a.s == "zeros" {
			if l, ok := a.args[0].intConst(); ok && l <= 4096 {
				var et types.Type
				if a.typ != nil {
					switch t := a.typ.Underlying().(type) {
					case *types.Array:
						et = t.Elem()
					case *types.Slice:
						et = t.Elem()
					}
				}
				parts := make([]*V, l)
				for k := range parts {
					parts[k] = u.Zero(et)
				}
				a = u.Seq(parts, nil, a.typ)
			}
		}
		if a.op == OSeq && n >= 0 && int(n) < len(a.args) {
			ok := true
			for k := 0; k <= int(n); k++ {
				if a.splic[k] {
					ok = false
				}
			}
			if ok {
				parts := append([]*V(nil), a.args...)
				parts[n] = v
				return u.intern(&V{op: OSeq, args: parts, splic: a.splic, typ: a.typ})
			}
		}
	}
	if r := u.overwrite(a, i, u.Int(1), u.Seq([]*V{v}, nil, a.typ)); r != nil {
		return r
	}
	if a.op == OApp && a.s == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return u.App("store", a.typ, a, i, v)
}

// Content is the sequence a slice (or array pointer) holds.
func (e *Eng) Content(st *State, s *V) *V {
	return e.U.lift(func(x []*V) *V {
		s := x[0]
		if s.op == OApp && s.s == "sref" {
			ab, ap := splitAddr(s.args[0])
			return e.defLoc(st, Loc{ab, ap}, s.typ)
		}
		if s.op == OApp && s.s == "sview" {
			return e.U.Sub3(e.Content(st, s.args[0]), s.args[1], s.args[2], s.typ)
		}
		if s.op == OAlloc || s.op == OAddr {
			ab, ap := splitAddr(s)
			return e.defLoc(st, Loc{ab, ap}, derefT(s.typ))
		}
		return s
	}, s)
}

func (e *Eng) mapContent(st *State, m *V) *V {
	return e.U.lift(func(x []*V) *V {
		m := x[0]
		if m.isNilConst() {
			return e.U.App("mapempty", nil)
		}
		if m.op == OAlloc {
			if v, ok := st.mem[Loc{m, "{}"}]; ok {
				return v
			}
			if e.Globals != nil {
				if v, ok := e.Globals.mem[Loc{m, "{}"}]; ok {
					return v
				}
			}
		}
		return e.defLoc(st, Loc{m, "{}"}, nil)
	}, m)
}

func keyStr(v *V) (string, bool) {
	if v.op == OConst {
		return v.key, true
	}
	if v.op == OStruct {
		for _, a := range v.args {
			if _, ok := keyStr(a); !ok {
				return "", false
			}
		}
		return v.key, true
	}
	return "", false
}

// constMap gives the entries of a map content all of whose keys are constant.
func (e *Eng) constMap(m *V) map[string]*V {
	if r, ok := e.constMp[m]; ok {
		return r
	}
	var chain []*V
	x := m
	for x.op == OApp && x.s == "mapput" {
		if r, ok := e.constMp[x]; ok && r != nil {
			break
		}
		if _, ok := keyStr(x.args[1]); !ok {
			e.constMp[m] = nil
			return nil
		}
		chain = append(chain, x)
		x = x.args[0]
	}
	var r map[string]*V
	if base, ok := e.constMp[x]; ok && base != nil {
		r = make(map[string]*V, len(base)+len(chain))
		for k, v := range base {
			r[k] = v
		}
	} else if x.op == OApp && x.s == "mapempty" {
		r = make(map[string]*V, len(chain))
	} else {
		e.constMp[m] = nil
		return nil
	}
	for i := len(chain) - 1; i >= 0; i-- {
		r[chain[i].args[1].key] = chain[i]
	}
	e.constMp[m] = r
	return r
}

func (e *Eng) mapLookup(m, k *V, et types.Type) (val, ok *V) {
	u := e.U
	val = u.lift(func(x []*V) *V { v, _ := e.lookup1(x[0], x[1], et); return v }, m, k)
	ok = u.lift(func(x []*V) *V { _, o := e.lookup1(x[0], x[1], et); return o }, m, k)
	return
}

func (e *Eng) lookup1(m, k *V, et types.Type) (*V, *V) {
	u := e.U
	if cm := e.constMap(m); cm != nil {
		if ks, ok := keyStr(k); ok {
			if n, ok := cm[ks]; ok {
				return n.args[2], u.True
			}
			return u.Zero(et), u.False
		}
		if e.Absent != nil && e.Absent(k) {
			return u.Zero(et), u.False
		}
		var ks []string
		for s, n := range cm {
			if k.op != OApp || k.s != "str" || u.Eq(k, n.args[1]) != u.False {
				ks = append(ks, s)
			}
		}
		if len(ks) <= 12 || k.op == OApp && k.s == "str" {
			val, has := u.Zero(et), u.False
			sort.Strings(ks)
			for _, s := range ks {
				c := u.Eq(k, cm[s].args[1])
				val = u.Ite(c, cm[s].args[2], val)
				has = u.Or(has, c)
			}
			return val, has
		}
	} else {
		for m.op == OApp && m.s == "mapput" {
			c := u.Eq(m.args[1], k)
			if c == u.True {
				return m.args[2], u.True
			}
			if c == u.False {
				m = m.args[0]
				continue
			}
			if e.NoMemo {
				// what a memo answers is what would be computed (C21)
				m = m.args[0]
				continue
			}
			v, h := e.lookup1(m.args[0], k, et)
			return u.Ite(c, m.args[2], v), u.Or(c, h)
		}
		if m.op == OApp && m.s == "mapempty" {
			return u.Zero(et), u.False
		}
	}
	return u.App("lookup", et, m, k), u.Atom(u.App("haskey", types.Typ[types.Bool], m, k))
}

// ---- regions and loops

// region evaluates the blocks of a loop body (or, with l nil, of a whole
// function) once; edges that leave the region, and back edges, are returned.
func (fr *Frame) region(l *natLoop, in []edge) []edge {
	e := fr.e
	pend := map[*ssa.BasicBlock][]edge{}
	for _, x := range in {
		pend[x.to] = append(pend[x.to], x)
	}
	var out []edge
	first := in[0].to
	blocks := fr.order
	for _, b := range blocks {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		if l != nil && !l.body[b] {
			continue
		}
		delete(pend, b)
		var outs []edge
		if inner := fr.loops[b]; inner != nil && (l == nil || b != l.header) && !(l == nil && b == first && inner == nil) {
			outs = fr.loop(inner, es)
		} else {
			outs = fr.block(b, es)
		}
		for _, o := range outs {
			if o.g == e.U.False || e.U.And(e.ctx, o.g) == e.U.False {
				continue
			}
			if l != nil && (!l.body[o.to] || o.to == l.header) {
				out = append(out, o)
				continue
			}
			pend[o.to] = append(pend[o.to], o)
		}
	}
	return out
}

// join merges incoming edges; phis are resolved into env.
func (fr *Frame) join(b *ssa.BasicBlock, es []edge) (*V, *State) {
	e := fr.e
	u := e.U
	// registers snapshotted on loop exits
	snapKeys := map[ssa.Value]bool{}
	for _, x := range es {
		for k := range x.snap {
			snapKeys[k] = true
		}
	}
	for k := range snapKeys {
		var v *V
		for i := len(es) - 1; i >= 0; i-- {
			w, ok := es[i].snap[k]
			if !ok {
				continue
			}
			if v == nil {
				v = w
			} else {
				v = u.Ite(es[i].g, w, v)
			}
		}
		if v != nil {
			fr.env[k] = v
		}
	}
	g := u.False
	for _, x := range es {
		g = u.Or(g, x.g)
	}
	st := es[len(es)-1].st
	for i := len(es) - 2; i >= 0; i-- {
		st = e.mergeSt(es[i].g, es[i].st, st)
	}
	st = st.clone()
	if len(es) == 1 && es[0].pred == nil {
		return g, st // entry of the function or of a loop iteration
	}
	vals := map[*ssa.Phi]*V{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *V
		for i := len(es) - 1; i >= 0; i-- {
			pi := predIndex(b, es[i].pred)
			if pi < 0 {
				panic(undecided("phi edge"))
			}
			w := fr.valSnap(phi.Edges[pi], es[i].snap)
			if v == nil {
				v = w
			} else {
				v = u.Ite(es[i].g, w, v)
			}
		}
		vals[phi] = v
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	return g, st
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (fr *Frame) valSnap(v ssa.Value, snap map[ssa.Value]*V) *V {
	if snap != nil {
		if x, ok := snap[v]; ok {
			return x
		}
	}
	return fr.val(v)
}

func (fr *Frame) block(b *ssa.BasicBlock, es []edge) []edge {
	g, st := fr.join(b, es)
	return fr.instrs(b, g, st)
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var o []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		o = append(o, p)
	}
	return o
}

func (fr *Frame) snapLoop(l *natLoop, sub map[*V]*V) map[ssa.Value]*V {
	s := map[ssa.Value]*V{}
	for b := range l.body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if x, ok := fr.env[v]; ok {
					if sub != nil {
						x = fr.e.U.Subst(x, sub)
					}
					s[v] = x
				}
			}
		}
	}
	return s
}

type iterOut struct {
	back  []edge
	exits []edge
}

// iter evaluates one iteration with header values already in env.
func (fr *Frame) iter(l *natLoop, g *V, st *State) iterOut {
	fr.clearLoop(l)
	outs := fr.region(l, []edge{{to: l.header, g: g, st: st, pred: nil}})
	var r iterOut
	for _, o := range outs {
		if o.to == l.header {
			r.back = append(r.back, o)
		} else {
			r.exits = append(r.exits, o)
		}
	}
	return r
}

// thread takes the edges back to a header that only tests flags apart: where
// an iteration sets a flag so that the loop ends, it leaves the loop itself.
func (fr *Frame) thread(l *natLoop, r iterOut, inits map[*ssa.Phi]*V) iterOut {
	u := fr.e.U
	flags := fr.flagsOf(l, inits)
	if flags == nil {
		return r
	}
	for _, b := range r.back {
		for p := range flags {
			if !constLeaves(u, fr.valSnap(p.Edges[predIndex(l.header, b.pred)], b.snap), fr.env[p]) {
				return r
			}
		}
	}
	saved := map[ssa.Value]*V{}
	for _, in := range l.header.Instrs {
		if v, ok := in.(ssa.Value); ok {
			saved[v] = fr.env[v]
		}
	}
	restore := func() {
		for v, x := range saved {
			fr.env[v] = x
		}
	}
	var back []edge
	for _, b := range r.back {
		outs := fr.block(l.header, []edge{b})
		snap := map[ssa.Value]*V{}
		for k, v := range b.snap {
			snap[k] = v
		}
		for v := range saved {
			snap[v] = fr.env[v]
		}
		restore()
		for _, o := range outs {
			if l.body[o.to] || o.g == u.False || u.And(fr.e.ctx, o.g) == u.False {
				continue
			}
			r.exits = append(r.exits, edge{pred: l.header, to: o.to, g: o.g, st: o.st, snap: snap})
			b.g = u.And(b.g, u.Not(o.g))
		}
		if b.g != u.False {
			back = append(back, b)
		}
	}
	r.back = back
	return r
}

// flagsOf: the flags that a header consisting of nothing else tests.
func (fr *Frame) flagsOf(l *natLoop, inits map[*ssa.Phi]*V) map[*ssa.Phi]bool {
	h := l.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || l.body[h.Succs[0]] == l.body[h.Succs[1]] {
		return nil
	}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				return nil
			}
		default:
			return nil
		}
	}
	out := map[*ssa.Phi]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			if x.Block() != h || inits[x] == nil || inits[x].op == OIte || !constLeaves(fr.e.U, inits[x], nil) {
				return false
			}
			out[x] = true
			return true
		case *ssa.BinOp:
			return x.Block() == h && rec(x.X) && rec(x.Y)
		case *ssa.UnOp:
			return x.Block() == h && rec(x.X)
		}
		return false
	}
	if !rec(last.Cond) || len(out) == 0 {
		return nil
	}
	return out
}

// constLeaves: v is a constant, the old value, or a choice between such.
func constLeaves(u *Univ, v, old *V) bool {
	if v == u.True || v == u.False || v == old {
		return true
	}
	if v.op == OIte {
		return constLeaves(u, v.args[1], old) && constLeaves(u, v.args[2], old)
	}
	return v.op == OConst
}

func (fr *Frame) clearLoop(l *natLoop) {}

func (fr *Frame) headerConst(l *natLoop) bool {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	i, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	v, ok := fr.env[i.Cond]
	return ok && (v == fr.e.U.True || v == fr.e.U.False)
}

// loop evaluates a natural loop; it returns its exit edges.
func (fr *Frame) loop(l *natLoop, es []edge) []edge {
	e := fr.e
	u := e.U
	g0, st0 := fr.join(l.header, es)
	ps := phis(l.header)
	inits := map[*ssa.Phi]*V{}
	for _, p := range ps {
		inits[p] = fr.env[p]
	}
	// what is known where the loop starts
	if here := u.And(e.ctx, g0); here.op == OIte {
		for p, v := range inits {
			if v != nil && v.op == OIte {
				inits[p] = u.Under(v, here)
				fr.env[p] = inits[p]
			}
		}
		cloned := false
		for loc, v := range st0.mem {
			if v == nil || v.op != OIte {
				continue
			}
			if w := u.Under(v, here); w != v {
				if !cloned {
					st0, cloned = st0.clone(), true
				}
				st0.mem[loc] = w
			}
		}
	}
	nd := len(fr.defers)
	nested := 0
	if e.P.nestedLog != nil {
		nested = len(*e.P.nestedLog)
	}

	// 1. unrolling, as long as the loop condition is constant
	if !e.Cfg.NoUnroll {
		if out, ok := fr.unroll(l, g0, st0, ps); ok {
			if len(fr.defers) != nd {
				panic(undecided("defer in a loop of " + fr.fn.String()))
			}
			return out
		}
	}

	// 2. summarisation
	id := fmt.Sprintf("%s/%s.%d", fr.path, fr.fn.Name(), l.header.Index)
	K := u.Sym("K:"+id, types.Typ[types.Int])
	known := map[*ssa.Phi]*V{}
	knownL := map[Loc]*V{}
	mods := map[Loc]types.Type{}
	savedSink := e.Sink
	savedDefers := fr.defers
	var lp *Loop
	var r iterOut
	var hst0 *State
	var nexts map[*V]*V
	hypo := map[*V]*derived{}
	refuted := map[[2]*V]bool{}
	peels := map[*V]*peel{}
	noPeel := map[*V]bool{}
	noLen := map[*V]bool{}
	lenFact := func(mu, init *V) {
		if noLen[mu] || init == nil || init.typ == nil && init.op != OSeq {
			return
		}
		zeros := init.op == OApp && init.s == "zeros"
		if l := u.Len(init); zeros || init.op == OSeq && l.op == OConst {
			u.lenFact[mu] = l
		}
	}
	for pass := 0; ; pass++ {
		if pass > 40 {
			panic(undecided("loop of " + fr.fn.String() + " does not stabilise"))
		}
		if log := e.P.nestedLog; log != nil {
			*log = (*log)[:nested] // only the last evaluation counts
		}
		var effs []*Eff
		e.Sink = &effs
		lp = &Loop{ID: id, Fn: fr.fn, Header: l.header.Index, K: K, Effs: nil, Depth: e.loopDepth}
		e.loopDepth++
		st := st0.clone()
		for _, p := range ps {
			if v, ok := known[p]; ok {
				fr.env[p] = v
			} else {
				mu := u.Sym(fmt.Sprintf("μ:%s:%d", id, phiIndex(p)), p.Type())
				fr.env[p] = mu
				if h := hypo[mu]; h != nil {
					fr.env[p] = h.val
					continue
				}
				if h := peels[mu]; h != nil {
					fr.env[p] = h.val
					continue
				}
				lenFact(mu, inits[p])
			}
		}
		for loc, t := range mods {
			if v, ok := knownL[loc]; ok {
				st.mem[loc] = v
			} else {
				mu := u.Sym(fmt.Sprintf("μ:%s:m%d%s", id, loc.base.id, loc.path), t)
				st.mem[loc] = mu
				if h := hypo[mu]; h != nil {
					st.mem[loc] = h.val
					continue
				}
				if h := peels[mu]; h != nil {
					st.mem[loc] = h.val
					continue
				}
				lenFact(mu, e.defLoc(st0, loc, t))
			}
		}
		hst := st.clone()
		hst0 = hst
		opath := fr.path
		fr.path = opath + fmt.Sprintf("/L%d", l.header.Index)
		oldctx := e.ctx
		e.ctx = u.And(e.ctx, g0)
		r = fr.thread(l, fr.iter(l, u.True, st), inits)
		e.loopDepth--
		e.ctx = oldctx
		fr.path = opath
		lp.Effs = effs
		if len(fr.defers) != nd {
			panic(undecided("defer in a loop of " + fr.fn.String()))
		}
		// next values
		back := u.False
		var bst *State
		for _, b := range r.back {
			back = u.Or(back, b.g)
		}
		if len(r.back) > 0 {
			bst = r.back[len(r.back)-1].st
			for i := len(r.back) - 2; i >= 0; i-- {
				bst = e.mergeSt(r.back[i].g, r.back[i].st, bst)
			}
		}
		lp.Back = back
		lp.BackSt = bst
		changed := false
		nextOf := func(p *ssa.Phi) *V {
			var v *V
			for i := len(r.back) - 1; i >= 0; i-- {
				w := fr.valSnap(p.Edges[predIndex(l.header, r.back[i].pred)], r.back[i].snap)
				if v == nil {
					v = w
				} else {
					v = u.Ite(r.back[i].g, w, v)
				}
			}
			return v
		}
		if bst != nil {
			// new modified locations
			for loc, v := range bst.mem {
				if _, ok := mods[loc]; ok {
					continue
				}
				if loc.base.op == OAlloc {
					if _, live := hst.mem[Loc{loc.base, "#"}]; !live {
						continue // allocated by this iteration
					}
				}
				if loc.path == "#" {
					continue
				}
				ht := v.typ
				if t := e.locT[loc]; t != nil {
					ht = t
				}
				h := e.defLoc(hst, loc, ht)
				if h != u.Under(v, back) {
					mods[loc] = typOf(v, h)
					if t := e.locT[loc]; t != nil {
						mods[loc] = t
					}
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// induction
		var vars []*LoopVar
		test := func(mu, init, next *V, t types.Type) (*V, bool) {
			next = u.Under(next, back)
			if next == mu {
				return init, true
			}
			if isInteger(t) && mu.op == OSym {
				d := u.Sub(next, mu, t)
				if d.op == OConst {
					return u.Add(init, u.Mul(d, K, t), t), true
				}
			}
			// one value the first time, another from then on
			if next.op == OConst && next.c != nil && init != nil && init.op == OConst {
				return u.Ite(u.Eq(K, u.Int(0)), init, next), true
			}
			// a sequence taken apart from one of its ends
			if next.op == OApp && next.s == "sub" && next.args[0] == mu && mu.op == OSym && init != nil {
				ti := types.Typ[types.Int]
				if c, ok := next.args[1].intConst(); ok && next.args[2] == u.Len(mu) {
					return u.Sub3(init, u.Mul(u.Int(c), K, ti), u.Len(init), t), true
				}
				if c, ok := u.Sub(u.Len(mu), next.args[2], ti).intConst(); ok && c > 0 {
					if z, ok := next.args[1].intConst(); ok && z == 0 {
						return u.Sub3(init, u.Int(0), u.Sub(u.Len(init), u.Mul(u.Int(c), K, ti), ti), t), true
					}
				}
			}
			return nil, false
		}
		for _, p := range ps {
			if _, ok := known[p]; ok || len(r.back) == 0 {
				continue
			}
			mu := u.Sym(fmt.Sprintf("μ:%s:%d", id, phiIndex(p)), p.Type())
			nx := nextOf(p)
			if v, ok := test(mu, inits[p], nx, p.Type()); ok && hypo[mu] == nil {
				known[p] = v
				changed = true
				continue
			}
			vars = append(vars, &LoopVar{Mu: mu, Om: u.Sym("ω"+strings.TrimPrefix(mu.s, "μ"), p.Type()), Init: inits[p], Next: u.Under(nx, back), Phi: p})
		}
		for loc, t := range mods {
			if _, ok := knownL[loc]; ok {
				continue
			}
			mu := u.Sym(fmt.Sprintf("μ:%s:m%d%s", id, loc.base.id, loc.path), t)
			nx := bst.mem[loc]
			if nx == nil {
				nx = e.defLoc(bst, loc, t)
			}
			init := e.defLoc(st0, loc, t)
			if v, ok := test(mu, init, nx, t); ok && hypo[mu] == nil {
				knownL[loc] = v
				changed = true
				continue
			}
			lc := loc
			vars = append(vars, &LoopVar{Mu: mu, Om: u.Sym("ω"+strings.TrimPrefix(mu.s, "μ"), t), Init: init, Next: u.Under(nx, back), Loc: &lc})
		}
		if changed {
			continue
		}
		for _, v := range vars {
			if l, ok := u.lenFact[v.Mu]; ok && u.Len(v.Next) != l {
				delete(u.lenFact, v.Mu)
				noLen[v.Mu] = true
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, v := range vars {
			if l, ok := u.lenFact[v.Mu]; ok {
				u.lenFact[v.Om] = l
			}
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].Mu.s < vars[j].Mu.s })
		// functions common to the first and all later values of a variable
		for i, v := range vars {
			h := peels[v.Mu]
			if h == nil {
				continue
			}
			x := h.inner(u, v.Next)
			if x == nil {
				delete(peels, v.Mu)
				noPeel[v.Mu] = true
				changed = true
				continue
			}
			vars[i] = &LoopVar{Mu: h.mu, Om: u.Sym("ω"+strings.TrimPrefix(h.mu.s, "μ"), h.mu.typ), Init: h.init, Next: x, Phi: v.Phi, Loc: v.Loc}
		}
		if !changed {
			for _, v := range vars {
				if noPeel[v.Mu] || hypo[v.Mu] != nil || strings.HasSuffix(v.Mu.s, "'") {
					continue
				}
				if h := newPeel(u, v, vars); h != nil {
					peels[v.Mu] = h
					hypo = map[*V]*derived{}
					changed = true
				} else {
					noPeel[v.Mu] = true
				}
			}
		}
		if changed {
			continue
		}
		nexts = map[*V]*V{}
		for _, v := range vars {
			nexts[v.Mu] = v.Next
		}
		// variables that are a function of others
		for _, v := range vars {
			h := hypo[v.Mu]
			if h == nil {
				continue
			}
			if u.Under(u.Subst(h.val, nexts), back) != v.Next {
				refuted[[2]*V{v.Mu, h.of}] = true
				delete(hypo, v.Mu)
				changed = true
			}
		}
		if !changed {
			for _, v := range vars {
				if hypo[v.Mu] != nil {
					continue
				}
				for _, w := range basesFirst(u, v, vars) {
					if w == v || hypo[w.Mu] != nil || refuted[[2]*V{v.Mu, w.Mu}] || w.Init == nil || v.Init == nil || w.Init.op == OConst || w.Init.typ == nil {
						continue
					}
					if w.Init == v.Init && (w.Mu.s > v.Mu.s || !types.Identical(w.Mu.typ, v.Mu.typ)) {
						continue
					}
					f := u.functionOf(v.Init, w)
					if f == nil {
						continue
					}
					if u.Under(u.Subst(f, map[*V]*V{w.Mu: w.Next}), back) != v.Next && !u.hasMu(v.Next, vars, w) {
						refuted[[2]*V{v.Mu, w.Mu}] = true
						continue
					}
					hypo[v.Mu] = &derived{w.Mu, f}
					changed = true
					break
				}
			}
		}
		if changed {
			continue
		}
		var free []*LoopVar
		for _, v := range vars {
			if hypo[v.Mu] == nil {
				free = append(free, v)
			}
		}
		lp.Vars = free
		break
	}
	e.Sink = savedSink
	fr.defers = savedDefers
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			lp.Pos = in.Pos()
			break
		}
	}
	if !lp.Pos.IsValid() {
		for b := range l.body {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() && (!lp.Pos.IsValid() || in.Pos() < lp.Pos) {
					lp.Pos = in.Pos()
				}
			}
		}
	}

	fr.rotate(l, lp, &r, g0, hst0, inits, nexts, K, st0)

	// 3. exits
	sub := map[*V]*V{}
	for _, v := range lp.Vars {
		sub[v.Mu] = v.Om
		e.Loops[v.Mu], e.Loops[v.Om] = lp, lp
		e.LVars[v.Mu], e.LVars[v.Om] = v, v
	}
	e.Loops[K] = lp
	// exits that can only panic do not count as ways to leave the loop
	var doomed []edge
	if len(r.back) > 0 {
		dm := doomedBlocks(fr.fn)
		var keep []edge
		for _, x := range r.exits {
			if dm[x.to] {
				doomed = append(doomed, x)
			} else {
				keep = append(keep, x)
			}
		}
		r.exits = keep
	}
	kout := u.Sym("Kω:"+id, types.Typ[types.Int])
	if len(r.exits) == 1 && len(r.back) > 0 {
		// the only exit is !(N-K > 0)
		if n := tripCount(u, r.exits[0].g, K); n != nil && !Contains(n, func(x *V) bool { return x == K || sub[x] != nil }) {
			kout = n
			lp.N = n
		}
	}
	var last, lastAt map[*V]*V
	whole := lp.BackSt
	if lp.N != nil && len(r.exits) == 1 && lp.Back != u.False {
		last, lastAt = e.peelLast(lp, &r.exits[0])
	}
	if lp.N != nil {
		e.filled(lp, r.exits)
	}
	var found []*V // conditions of the exits of a search
	if lp.N == nil && len(effsOf(lp)) == 0 && len(r.back) > 0 {
		if idx, gs := e.search(lp, r.exits, r.back, sub); idx != nil {
			kout, found = idx, gs
		}
	}
	lp.KOut = kout
	sub[K] = kout
	for mu, v := range last {
		sub[mu] = v
	}
	e.Loops[kout] = lp
	snap := fr.snapLoop(l, sub)
	var out []edge
	goes := u.False
	for _, x := range r.exits {
		goes = u.Or(goes, x.g)
	}
	for _, x := range r.back {
		goes = u.Or(goes, x.g)
	}
	lp.Abort = u.Not(goes)
	r.exits = append(r.exits, doomed...)
	for xi, x := range r.exits {
		lp.Exits = append(lp.Exits, x.g)
		lp.ExitSt = append(lp.ExitSt, x.st)
		n := &State{mem: make(map[Loc]*V, len(x.st.mem))}
		for k, v := range x.st.mem {
			n.mem[k] = u.Subst(v, sub)
		}
		if last != nil {
			// what the last iteration allocates
			for k, v := range whole.mem {
				if b := lastAt[k.base]; b != nil {
					n.mem[Loc{b, k.path}] = u.Subst(v, lastAt)
				}
			}
		}
		var ge *V
		if lp.N != nil && xi < len(r.exits)-len(doomed) {
			ge = g0
			if lp.Abort != u.False {
				lp.Done = u.Sym("done:"+id, types.Typ[types.Bool])
				e.Loops[lp.Done] = lp
				ge = u.And(ge, u.Atom(lp.Done))
			}
		} else if found != nil && xi < len(found) {
			ge = u.And(g0, u.Subst(found[xi], sub))
		} else {
			ge = u.And(g0, u.Subst(x.g, sub))
		}
		sn := snap
		if x.snap != nil {
			sn = map[ssa.Value]*V{}
			for k, v := range snap {
				sn[k] = v
			}
			for k, v := range x.snap {
				sn[k] = u.Subst(v, sub)
			}
		}
		out = append(out, edge{pred: x.pred, to: x.to, g: ge, st: n, snap: sn})
	}
	e.emit(&Eff{Guard: g0, Kind: "loop", Name: id, Loop: lp, Pos: lp.Pos})
	return out
}

// peelLast evaluates the last iteration of a counted loop that treats it in a
// way of its own apart: the loop is left with the iterations before it, and
// the values of the variables after the last one are given.
func (e *Eng) peelLast(lp *Loop, exit *edge) (out, at map[*V]*V) {
	u := e.U
	ti := types.Typ[types.Int]
	n := u.Sub(lp.N, u.Int(1), ti)
	before := u.Pos(u.Sub(n, lp.K, ti), ti)
	if before == u.True || before == u.False || lp.BackSt == nil || lp.N.op == OIte {
		return nil, nil
	}
	apart := false
	for _, v := range lp.Vars {
		apart = apart || u.Under(v.Next, before) != v.Next
	}
	if !apart {
		return nil, nil
	}
	e.ApartLast = true
	if !e.Cfg.PeelLast {
		return nil, nil
	}
	at = map[*V]*V{lp.K: n}
	for _, v := range lp.Vars {
		at[v.Mu] = v.Om
	}
	for k := range lp.BackSt.mem {
		if k.base.op == OAlloc && k.path == "#" {
			if _, live := exit.st.mem[k]; !live {
				at[k.base] = u.Alloc(k.base.s+"#last", k.base.typ)
			}
		}
	}
	out = map[*V]*V{}
	some := u.Pos(lp.N, ti)
	for _, v := range lp.Vars {
		out[v.Mu] = u.Ite(some, u.Subst(v.Next, at), v.Init)
	}
	for _, v := range lp.Vars {
		v.Next = u.Under(v.Next, before)
	}
	lp.Back = u.Under(lp.Back, before)
	lp.N = n
	exit.g = u.Not(before)
	return out, at
}

// effsOf are the operations of an iteration other than readings.
func effsOf(lp *Loop) []*Eff {
	var o []*Eff
	for _, x := range lp.Effs {
		if x.Kind != "index" && x.Kind != "slice" {
			o = append(o, x)
		}
	}
	return o
}

// search recognises a counted loop that is also left early, on a condition
// that depends on nothing but the count: it ends at the least k that is not
// below the bound or meets the condition.  It yields that k and the
// conditions of the exits.
func (e *Eng) search(lp *Loop, exits, back []edge, sub map[*V]*V) (*V, []*V) {
	u := e.U
	K := lp.K
	varies := func(x *V) bool { return sub[x] != nil }
	at := -1
	var n *V
	goes := u.False
	for i, x := range exits {
		goes = u.Or(goes, x.g)
		if m := tripCount(u, x.g, K); m != nil && !Contains(m, func(y *V) bool { return y == K || varies(y) }) {
			if at >= 0 {
				return nil, nil
			}
			at, n = i, m
		}
	}
	for _, x := range back {
		goes = u.Or(goes, x.g)
	}
	if at < 0 || len(exits) < 2 || goes != u.True {
		return nil, nil
	}
	in := u.Not(exits[at].g)
	pred := u.False
	var ps []*V
	for i, x := range exits {
		if i == at {
			ps = append(ps, nil)
			continue
		}
		q := u.Under(x.g, in)
		if Contains(q, varies) {
			return nil, nil
		}
		ps = append(ps, q)
		pred = u.Or(pred, q)
	}
	idx := u.Search(n, K, pred)
	found := u.Pos(u.Sub(n, idx, types.Typ[types.Int]), types.Typ[types.Int])
	gs := make([]*V, len(exits))
	for i := range exits {
		switch {
		case i == at:
			gs[i] = u.Not(found)
		case len(exits) == 2:
			gs[i] = found
		default:
			gs[i] = u.And(found, u.Subst(ps[i], map[*V]*V{K: idx}))
		}
	}
	return idx, gs
}

// Search is the least k >= 0 that is not below n or meets pred(k).
func (u *Univ) Search(n, k, pred *V) *V {
	depth := 0
	Contains(pred, func(x *V) bool {
		if x.op == OSym && strings.HasPrefix(x.s, "search:k") {
			d, _ := strconv.Atoi(strings.TrimPrefix(x.s, "search:k"))
			depth = max(depth, d+1)
		}
		return false
	})
	pred = u.Subst(pred, map[*V]*V{k: u.Sym(fmt.Sprintf("search:k%d", depth), types.Typ[types.Int])})
	return u.lift(func(x []*V) *V { return u.App("search", types.Typ[types.Int], x[0], u.App("pred", nil, pred)) }, n)
}

// byteSearch turns the last position of a string at which a predicate holds
// into a search over its bytes from the end, if the predicate tells ASCII
// characters only: yields the length n and the search k of n-1-k.
func (u *Univ) byteSearch(li *V) (s, n, idx *V, ok bool) {
	if li.op != OApp || li.s != "call:strings.LastIndexFunc" || len(li.args) != 2 || li.args[1].op != OApp || li.args[1].s != "pred" {
		return nil, nil, nil, false
	}
	r := u.Sym("rune:LastIndexFunc", types.Typ[types.Rune])
	return u.backward(li.args[0], li.args[1].args[0], r)
}

func (u *Univ) backward(s, pred, r *V) (_, n, idx *V, ok bool) {
	atoms := map[*V]bool{}
	collectAtoms(pred, atoms, map[*V]bool{})
	for a := range atoms {
		if a.op != OApp || a.s != "eqc" || a.args[0] != r {
			return nil, nil, nil, false
		}
		if c, isc := a.args[1].intConst(); !isc || c < 0 || c >= 128 {
			return nil, nil, nil, false
		}
	}
	n = u.Len(s)
	k := u.Sym("search:tmp", types.Typ[types.Int])
	ti := types.Typ[types.Int]
	b := u.Index(s, u.Sub(u.Sub(n, u.Int(1), ti), k, ti), types.Typ[types.Byte])
	p := u.Subst(pred, map[*V]*V{r: b})
	return s, n, u.Search(n, k, p), true
}

// filled turns an array of zeros all elements of which a counted loop sets in
// turn into the sequence of what they are set to.
func (e *Eng) filled(lp *Loop, exits []edge) {
	u := e.U
	ti := types.Typ[types.Int]
	for _, v := range lp.Vars {
		if v.Next != nil {
			v.Next = u.within(v.Next, lp.K, lp.N)
		}
	}
	if lp.BackSt != nil {
		// what was made during an iteration
		st := lp.BackSt.clone()
		for l, v := range st.mem {
			if v != nil && Contains(v, func(x *V) bool { return x == lp.K }) {
				st.mem[l] = u.within(u.Under(v, lp.Back), lp.K, lp.N)
			}
		}
		lp.BackSt = st
	}
	if len(lp.Vars) == 1 && lp.Vars[0].Next != nil {
		// elements are scaled independently of each other: from the last to
		// the first is the same as from the first to the last
		v := lp.Vars[0]
		last := u.Sub(u.Sub(lp.N, u.Int(1), ti), lp.K, ti)
		down, ok := false, true
		Contains(v.Next, func(x *V) bool {
			if x.op == OApp && strings.HasPrefix(x.s, "do:") {
				ok = ok && (x.s == "do:(tex.Node).Shrink" || x.s == "do:(tex.Node).Grow")
			}
			down = down || x.op == OApp && x.s == "elem" && x.args[1] == last
			return false
		})
		if down && ok && v.Next.op == OSeq && len(v.Next.args) == 2 && v.Next.args[0] == v.Mu {
			v.Next = u.Subst(v.Next, map[*V]*V{lp.K: last})
		}
	}
	for _, v := range lp.Vars {
		if n := appended(u, v); n != nil {
			u.lenFact[v.Om] = u.Add(u.Len(v.Init), u.Mul(n, lp.N, ti), ti)
			continue
		}
		if v.Loc == nil || v.Init == nil || v.Init.op != OApp || v.Init.s != "zeros" {
			continue
		}
		if d, ok := u.Sub(v.Init.args[0], lp.N, ti).intConst(); !ok || d != 0 {
			continue
		}
		var val func(x *V) *V
		val = func(x *V) *V {
			if x.op == OIte {
				a, b := val(x.args[1]), val(x.args[2])
				if a == nil || b == nil {
					return nil
				}
				return u.Ite(u.Atom(x.args[0]), a, b)
			}
			if x.op != OApp || x.s != "store" || x.args[0] != v.Mu || x.args[1] != lp.K {
				return nil
			}
			return x.args[2]
		}
		f := val(v.Next)
		mu := func(x *V) bool { return x == v.Mu }
		if f == nil || Contains(f, mu) || Contains(lp.Back, mu) {
			continue
		}
		used := false
		for _, w := range lp.Vars {
			used = used || w != v && w.Next != nil && Contains(w.Next, mu)
		}
		for _, x := range lp.Effs {
			if x.Kind == "index" && x.Recv == v.Mu {
				continue // within its length
			}
			used = used || Contains(x.Guard, mu)
			for _, a := range append(append([]*V{x.Recv, x.Res}, x.Args...), x.Raw...) {
				used = used || a != nil && Contains(a, mu)
			}
		}
		if used {
			continue
		}
		v.Init = u.Seq(nil, nil, v.Init.typ)
		v.Next = u.Seq([]*V{v.Mu, f}, []bool{true, false}, v.Mu.typ)
		u.lenFact[v.Om] = lp.N
	}
}

// within simplifies the conditions on K in a value, 0 <= K < N.
func (u *Univ) within(v, K, N *V) *V {
	ti := types.Typ[types.Int]
	zero := u.Int(0)
	m := map[*V]*V{}
	isK := func(x *V) bool { return x == K }
	Contains(v, func(x *V) bool {
		if x.op != OApp || len(x.args) != 2 || x.s != "pos" && x.s != "eqc" || !isInteger(x.args[0].typ) || !Contains(x, isK) {
			return false
		}
		p := x.args[0]
		if x.s == "eqc" {
			p = u.Sub(p, x.args[1], ti)
		} else if n, ok := x.args[1].intConst(); !ok || n != 0 {
			return false
		}
		// d, one of K-N+1 <= 0, N-K-1 >= 0, K >= 0 and -K <= 0, with p = d+c
		for i, d := range []*V{u.Add(u.Sub(K, N, ti), u.Int(1), ti), u.Sub(u.Sub(N, K, ti), u.Int(1), ti), K, u.Neg(K, ti)} {
			c, ok := u.Sub(p, d, ti).intConst()
			if !ok {
				continue
			}
			up := i == 1 || i == 2
			switch {
			case x.s == "eqc":
				if up && c > 0 || !up && c < 0 {
					m[x] = u.False
				}
			case up && c > 0:
				m[x] = u.True
			case up && c == 0:
				m[x] = u.Not(u.Eq(d, zero))
			case !up && c <= 0:
				m[x] = u.False
			case !up && c == 1:
				m[x] = u.Eq(d, zero)
			}
		}
		return false
	})
	return u.Subst(v, m)
}

// appended is the number of elements a variable of a loop grows by.
func appended(u *Univ, v *LoopVar) *V {
	if v.Init == nil || v.Next == nil || v.Next.op != OSeq || len(v.Next.args) < 2 || v.Next.args[0] != v.Mu || !v.Next.splic[0] {
		return nil
	}
	for _, s := range v.Next.splic[1:] {
		if s {
			return nil
		}
	}
	if v.Init.op != OSeq && !v.Init.isNilConst() {
		return nil
	}
	return u.Int(int64(len(v.Next.args) - 1))
}

// peel is a variable of a loop whose values all come from one function.
type peel struct {
	f        *V // an application; argument i varies
	i        int
	mu, init *V
	val      *V
}

func newPeel(u *Univ, v *LoopVar, vars []*LoopVar) *peel {
	f := v.Init
	for f != nil && f.op == OIte {
		f = f.args[1]
	}
	if f == nil || f.op != OApp || len(f.args) == 0 || v.Next == nil || v.Mu.typ == nil {
		return nil
	}
	if !peelable(f.s) {
		return nil
	}
	leaf := v.Next
	for leaf.op == OIte {
		leaf = leaf.args[1]
	}
	if leaf.op != OApp || leaf.s != f.s || len(leaf.args) != len(f.args) {
		return nil
	}
	k := -1
	for i := range f.args {
		if f.args[i] != leaf.args[i] {
			if k >= 0 {
				return nil
			}
			k = i
		}
	}
	if k < 0 || f.args[k].typ == nil {
		return nil
	}
	for i, a := range f.args {
		if i != k && u.hasMu(a, vars, nil) {
			return nil
		}
	}
	h := &peel{f: f, i: k, init: f.args[k]}
	h.mu = u.Sym(v.Mu.s+"'", f.args[k].typ)
	args := append([]*V(nil), f.args...)
	args[k] = h.mu
	h.val = u.reApp(f, args)
	if h.val.op != OApp || h.val.s != f.s || h.inner(u, v.Next) == nil {
		return nil
	}
	if h.init = h.inner(u, v.Init); h.init == nil {
		return nil
	}
	return h
}

// peelable: an application that no simplification looks into.
func peelable(s string) bool { return s == "adv" || s == "rest" || s == "scan" }

// inner is x in f(x).
func (h *peel) inner(u *Univ, v *V) *V {
	if v.op == OIte {
		a, b := h.inner(u, v.args[1]), h.inner(u, v.args[2])
		if a == nil || b == nil {
			return nil
		}
		return u.Ite(u.Atom(v.args[0]), a, b)
	}
	if v.op != OApp || v.s != h.f.s || len(v.args) != len(h.f.args) {
		return nil
	}
	for i, a := range v.args {
		if i != h.i && a != h.f.args[i] {
			return nil
		}
	}
	return v.args[h.i]
}

// functionOf is the value as a function of the variable, if the initial value
// of the variable determines it.
func (u *Univ) functionOf(v *V, w *LoopVar) *V {
	if !Contains(v, func(x *V) bool { return x == w.Init }) && w.Init.op == OIte && !isBool(w.Init.typ) {
		// a choice, taken apart in front of the function
		var f *V
		for _, l := range u.Leaves(w.Init) {
			is := u.Under(v, l.cond)
			if f == nil {
				if l.val.op == OConst || !Contains(is, func(x *V) bool { return x == l.val }) {
					return nil
				}
				f = u.Subst(is, map[*V]*V{l.val: w.Mu})
				if Contains(f, func(x *V) bool { return x == l.val }) {
					return nil
				}
			}
			if u.Under(u.Subst(f, map[*V]*V{w.Mu: l.val}), l.cond) != is {
				return nil
			}
		}
		return f
	}
	if !Contains(v, func(x *V) bool { return x == w.Init }) {
		return nil
	}
	f := u.Subst(v, map[*V]*V{w.Init: w.Mu})
	if Contains(f, func(x *V) bool { return x == w.Init }) {
		return nil
	}
	return f
}

// basesFirst are the variables of a loop, those in front of which a variable
// can be a function alone.
func basesFirst(u *Univ, v *LoopVar, vars []*LoopVar) []*LoopVar {
	if v.Init == nil {
		return vars
	}
	var a, b []*LoopVar
	for _, w := range vars {
		alone := w.Init != nil
		if alone {
			f := u.Subst(v.Init, map[*V]*V{w.Init: w.Mu})
			for _, y := range vars {
				if y.Init != nil && y.Init.op != OConst && Contains(f, func(x *V) bool { return x == y.Init }) {
					alone = false
				}
			}
		}
		if alone {
			a = append(a, w)
		} else {
			b = append(b, w)
		}
	}
	return append(a, b...)
}

// derived is a variable of a loop that is a function of another.
type derived struct{ of, val *V }

// hasMu: the value depends on a variable of the loop other than w, whose own
// form may still change.
func (u *Univ) hasMu(v *V, vars []*LoopVar, w *LoopVar) bool {
	return Contains(v, func(x *V) bool {
		for _, y := range vars {
			if y != w && y.Mu == x {
				return true
			}
		}
		return false
	})
}

// rotate moves an exit of the loop header that the first iteration never
// takes to the end of the iteration before.
func (fr *Frame) rotate(l *natLoop, lp *Loop, r *iterOut, g0 *V, hst *State, inits map[*ssa.Phi]*V, nexts map[*V]*V, K *V, st0 *State) {
	e := fr.e
	u := e.U
	if len(r.back) == 0 || lp.BackSt == nil {
		return
	}
	k := -1
	for i, x := range r.exits {
		if x.pred == l.header {
			if k >= 0 {
				return
			}
			k = i
		}
	}
	if k < 0 {
		return
	}
	x := r.exits[k]
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return
			}
		default:
			return
		}
	}
	first := map[*V]*V{K: u.Int(0)}
	for _, v := range lp.Vars {
		first[v.Mu] = v.Init
	}
	if u.And(g0, u.Subst(x.g, first)) != u.False {
		return
	}
	if x.g == u.False || tripCount(u, x.g, K) != nil {
		return
	}
	step := map[*V]*V{K: u.Add(K, u.Int(1), types.Typ[types.Int])}
	for mu, n := range nexts {
		step[mu] = n
	}
	inv := u.Not(x.g)
	under := func(v *V) *V { return u.Under(v, inv) }
	back := under(lp.Back)
	gx := u.And(back, u.Subst(x.g, step))
	raw := x.snap
	if raw == nil {
		raw = fr.snapLoop(l, nil)
	}
	sn := map[ssa.Value]*V{}
	for v, y := range raw {
		if in, ok := v.(ssa.Instruction); ok && in.Block() == l.header {
			sn[v] = u.Subst(y, step)
		}
	}
	var exits []edge
	for i, y := range r.exits {
		if i != k {
			y.g = under(y.g)
			exits = append(exits, y)
		}
	}
	exits = append(exits, edge{pred: x.pred, to: x.to, g: gx, st: lp.BackSt, snap: sn})
	r.exits = exits
	for i := range r.back {
		r.back[i].g = u.And(under(r.back[i].g), u.Not(u.Subst(x.g, step)))
	}
	lp.Back = u.And(back, u.Not(u.Subst(x.g, step)))
	for _, v := range lp.Vars {
		v.Next = u.Under(under(v.Next), lp.Back)
	}
	for _, y := range lp.Effs {
		y.Guard = under(y.Guard)
	}
}

// doomedBlocks are the blocks from which no return can be reached.
func doomedBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		for _, p := range b.Preds {
			mark(p)
		}
	}
	pan := false
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			mark(b)
		case *ssa.Panic:
			pan = true
		}
	}
	d := map[*ssa.BasicBlock]bool{}
	if !pan {
		return d
	}
	for _, b := range fn.Blocks {
		if live[b] {
			continue
		}
		// every path from b ends in a panic: no cycle may be reachable
		seen := map[*ssa.BasicBlock]int{}
		var ok func(b *ssa.BasicBlock) bool
		ok = func(b *ssa.BasicBlock) bool {
			switch seen[b] {
			case 1:
				return false
			case 2:
				return true
			}
			seen[b] = 1
			for _, s := range b.Succs {
				if !ok(s) {
					return false
				}
			}
			seen[b] = 2
			return true
		}
		if ok(b) {
			d[b] = true
		}
	}
	return d
}

// tripCount gives n for the exit condition K >= n of a counted loop.
func tripCount(u *Univ, exit, K *V) *V {
	ti := types.Typ[types.Int]
	if exit.op != OIte {
		return nil
	}
	a := exit.args[0]
	if !Contains(a, func(x *V) bool { return x == K }) {
		// a choice made before the loop
		hi, lo := tripCount(u, exit.args[1], K), tripCount(u, exit.args[2], K)
		if hi == nil || lo == nil {
			return nil
		}
		return u.Ite(u.Atom(a), hi, lo)
	}
	pos := exit.args[1] == u.True && exit.args[2] == u.False
	neg := exit.args[1] == u.False && exit.args[2] == u.True
	if a.op != OApp || !pos && !neg {
		return nil
	}
	switch {
	case a.s == "pos" && neg: // continues while a > 0
		return u.Add(a.args[0], K, ti)
	case a.s == "pos" && pos: // leaves when a > 0, a = 1+K-n
		return u.Sub(u.Add(K, u.Int(1), ti), a.args[0], ti)
	case a.s == "more" && neg && a.args[1] == K:
		return u.App("count", ti, a.args[0])
	case a.s == "eqc" && pos: // leaves when K-n == 0
		d := u.Sub(a.args[0], a.args[1], ti)
		for _, n := range []*V{u.Sub(K, d, ti), u.Add(K, d, ti)} {
			if !Contains(n, func(x *V) bool { return x == K }) {
				return n
			}
		}
	}
	return nil
}

func typOf(a, b *V) types.Type {
	if a.typ != nil {
		return a.typ
	}
	return b.typ
}

func phiIndex(p *ssa.Phi) int {
	for i, in := range p.Block().Instrs {
		if in == p {
			return i
		}
	}
	return -1
}

// headerBounded: the loop condition is a choice between conditions that were
// known before the loop, none about a symbolic length or count.
func (fr *Frame) headerBounded(l *natLoop) bool {
	i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	v, ok := fr.env[i.Cond]
	if !ok || v.op != OIte {
		return false
	}
	atoms := map[*V]bool{}
	collectAtoms(v, atoms, map[*V]bool{})
	for a := range atoms {
		if Contains(a, func(x *V) bool { return x.op == OApp && (x.s == "len" || x.s == "more" || x.s == "count") }) {
			return false
		}
	}
	return true
}

// condDepth is how deep the atoms of the loop condition are nested.
func (fr *Frame) condDepth(l *natLoop) int {
	v := fr.env[l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If).Cond]
	atoms := map[*V]bool{}
	collectAtoms(v, atoms, map[*V]bool{})
	d := 0
	for a := range atoms {
		if n := fr.e.U.nesting(a); n > d {
			d = n
		}
	}
	return d
}

func (fr *Frame) unroll(l *natLoop, g0 *V, st0 *State, ps []*ssa.Phi) ([]edge, bool) {
	e := fr.e
	u := e.U
	savedSink := e.Sink
	var effs []*Eff
	e.Sink = &effs
	defer func() { e.Sink = savedSink }()
	g, st := g0, st0
	var out []edge
	opath := fr.path
	defer func() { fr.path = opath }()
	deepest, grown, work0 := 0, 0, len(u.iteMem)
	for n := 0; ; n++ {
		if n > 5000 {
			return nil, false
		}
		fr.path = fmt.Sprintf("%s#%d", opath, n)
		r := fr.iter(l, g, st.clone())
		if !fr.headerConst(l) {
			// a bottom-tested loop may still be decided by its back edge
			if len(r.back) == 0 && n > 0 || len(r.back) == 0 && len(r.exits) > 0 {
				// falls through
			} else if n > 0 && n < 64 && fr.headerBounded(l) {
				// a bound that depends on conditions decided before the loop:
				// not on ones that each iteration derives from the one before
				if len(u.iteMem)-work0 > 50000 {
					return nil, false
				}
				d := fr.condDepth(l)
				if deepest > 0 && d > deepest {
					if grown++; grown >= 2 {
						return nil, false
					}
				}
				deepest = max(deepest, d)
			} else {
				return nil, false
			}
		}
		snap := fr.snapLoop(l, nil)
		for _, x := range r.exits {
			if x.snap == nil {
				x.snap = snap
			} else {
				m := map[ssa.Value]*V{}
				for k, v := range snap {
					m[k] = v
				}
				for k, v := range x.snap {
					m[k] = v
				}
				x.snap = m
			}
			out = append(out, x)
		}
		if len(r.back) == 0 {
			break
		}
		// phis for the next iteration
		bg := u.False
		for _, b := range r.back {
			bg = u.Or(bg, b.g)
		}
		bst := r.back[len(r.back)-1].st
		for i := len(r.back) - 2; i >= 0; i-- {
			bst = e.mergeSt(r.back[i].g, r.back[i].st, bst)
		}
		nv := map[*ssa.Phi]*V{}
		for _, p := range ps {
			var v *V
			for i := len(r.back) - 1; i >= 0; i-- {
				w := fr.valSnap(p.Edges[predIndex(l.header, r.back[i].pred)], r.back[i].snap)
				if v == nil {
					v = w
				} else {
					v = u.Ite(r.back[i].g, w, v)
				}
			}
			nv[p] = v
		}
		for p, v := range nv {
			fr.env[p] = v
		}
		g, st = bg, bst
	}
	*savedSink = append(*savedSink, effs...)
	// merge edges with the same target and pred: keep apart, join handles them
	return out, true
}

// ---- instructions

func (fr *Frame) val(v ssa.Value) *V {
	e := fr.e
	u := e.U
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return u.Zero(x.Type())
		}
		c := x.Value
		if isInteger(x.Type()) {
			c = constant.ToInt(c)
		}
		if c.Kind() == constant.Bool {
			return u.Bool(constant.BoolVal(c))
		}
		return u.Const(c, x.Type())
	case *ssa.Function:
		return u.Func(x, nil, x.Type())
	case *ssa.Global:
		return u.Sym("global:"+x.String(), x.Type())
	case *ssa.Builtin:
		return u.Sym("builtin:"+x.Name(), x.Type())
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(undecided(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
}

func (fr *Frame) instrs(b *ssa.BasicBlock, g *V, st *State) []edge {
	e := fr.e
	u := e.U
	for _, in := range b.Instrs {
		e.Steps++
		if e.Steps > 40000000 {
			panic(undecided("too many steps"))
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := u.asBool(fr.val(x.Cond))
			return []edge{
				{pred: b, to: b.Succs[0], g: u.And(g, c), st: st},
				{pred: b, to: b.Succs[1], g: u.And(g, u.Not(c)), st: st.clone()},
			}
		case *ssa.Jump:
			return []edge{{pred: b, to: b.Succs[0], g: g, st: st}}
		case *ssa.Return:
			var vals []*V
			for _, r := range x.Results {
				vals = append(vals, fr.val(r))
			}
			fr.rets = append(fr.rets, retEdge{g, st, vals})
			return nil
		case *ssa.Panic:
			e.emit(&Eff{Guard: g, Kind: "panic", Name: "panic", Args: []*V{fr.val(x.X)}, Pos: x.Pos(), Site: x})
			return nil
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				c := u.And(g, d.g)
				if c == u.False {
					continue
				}
				if u.Implies(g, d.g) {
					_, ng, nst := fr.callVal(d.call, d.fn, d.args, g, st)
					g, st = ng, nst
					continue
				}
				s1 := st.clone()
				_, ng, nst := fr.callVal(d.call, d.fn, d.args, c, s1)
				st = e.mergeSt(c, nst, st)
				g = u.And(g, u.Or(ng, u.Not(c)))
			}
		case *ssa.Defer:
			fn, args := fr.callee(x.Common())
			fr.defers = append(fr.defers, deferred{g, x, fn, args})
		case *ssa.Go:
			fn, args := fr.callee(x.Common())
			e.emit(&Eff{Guard: g, Kind: "go", Name: "go", Recv: fn, Args: args, Pos: x.Pos(), Site: x})
		case *ssa.Call:
			fn, args := fr.callee(x.Common())
			r, ng, nst := fr.callVal(x, fn, args, g, st)
			g, st = ng, nst
			if g == u.False || u.And(e.ctx, g) == u.False {
				return nil
			}
			fr.env[x] = r
		case *ssa.Store:
			e.Store(st, fr.val(x.Addr), fr.val(x.Val), x.Val.Type(), g, x.Pos())
		case *ssa.MapUpdate:
			fr.mapUpdate(x, g, st)
		case *ssa.Send, *ssa.Select:
			e.emit(&Eff{Guard: g, Kind: "chan", Name: "channel", Pos: in.Pos(), Site: in})
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = u.Sym("chan:"+fr.site(in), v.Type())
			}
		case ssa.Value:
			fr.env[x] = fr.valueInstr(x, g, st)
		default:
			panic(undecided(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
		}
	}
	return nil
}

func (fr *Frame) site(in ssa.Instruction) string {
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%s/%s.%d.%d", fr.path, fr.fn.Name(), in.Block().Index, i)
		}
	}
	return fr.path
}

func (fr *Frame) mapUpdate(x *ssa.MapUpdate, g *V, st *State) {
	e := fr.e
	u := e.U
	m, k, v := fr.val(x.Map), fr.val(x.Key), fr.val(x.Value)
	leaves := []leaf{{u.True, m}}
	if m.op == OIte {
		leaves = u.Leaves(m)
	}
	for _, l := range leaves {
		old := e.mapContent(st, l.val)
		nw := u.App("mapput", nil, old, k, v)
		if l.cond != u.True {
			nw = u.Ite(l.cond, nw, old)
		}
		if l.val.op != OAlloc {
			e.emit(&Eff{Guard: u.And(g, l.cond), Kind: "mapput", Name: "mapput", Recv: l.val, Args: []*V{k, v}, Pos: x.Pos(), Site: x})
		}
		st.mem[Loc{l.val, "{}"}] = nw
	}
}

func (fr *Frame) alloc(in ssa.Instruction, t types.Type, st *State) *V {
	a := fr.e.U.Alloc(fr.site(in), t)
	for k := range st.mem {
		if k.base == a {
			delete(st.mem, k)
		}
	}
	st.mem[Loc{a, "#"}] = fr.e.U.True
	return a
}

func (fr *Frame) valueInstr(v ssa.Value, g *V, st *State) *V {
	e := fr.e
	u := e.U
	t := v.Type()
	switch x := v.(type) {
	case *ssa.Alloc:
		return fr.alloc(x, x.Type(), st)
	case *ssa.BinOp:
		return e.binop(x.Op, fr.val(x.X), fr.val(x.Y), x.X.Type(), t)
	case *ssa.UnOp:
		a := fr.val(x.X)
		switch x.Op {
		case token.MUL:
			return e.Load(st, a, t)
		case token.SUB:
			return u.Neg(a, t)
		case token.NOT:
			return u.Not(a)
		}
		return u.App("unop"+x.Op.String(), t, a)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var a *V
		if c, ok := x.(*ssa.ChangeType); ok {
			a = fr.val(c.X)
			if structOf(t) != nil {
				s := structOf(t)
				return u.lift(func(xs []*V) *V {
					args := make([]*V, s.NumFields())
					for i := range args {
						args[i] = u.Field(xs[0], i, s.Field(i).Type())
					}
					return u.Struct(t, args)
				}, a)
			}
			return a
		}
		return fr.val(x.(*ssa.ChangeInterface).X)
	case *ssa.Convert:
		return e.convert(fr.val(x.X), x.X.Type(), t, st)
	case *ssa.MultiConvert:
		return u.App("conv:"+u.tn(t), t, fr.val(x.X))
	case *ssa.Extract:
		a := fr.val(x.Tuple)
		return u.lift(func(xs []*V) *V {
			if xs[0].op == OTuple {
				return xs[0].args[x.Index]
			}
			return u.App(fmt.Sprintf("ext:%d", x.Index), t, xs[0])
		}, a)
	case *ssa.Field:
		return u.Field(fr.val(x.X), x.Field, t)
	case *ssa.FieldAddr:
		return u.Addr(fr.val(x.X), fmt.Sprintf(".%d", x.Field), t)
	case *ssa.Index:
		a, i := fr.val(x.X), fr.val(x.Index)
		e.emit(&Eff{Guard: g, Kind: "index", Name: "index", Recv: e.Content(st, a), Args: []*V{i}, Pos: x.Pos(), Site: x})
		return u.Index(e.Content(st, a), i, t)
	case *ssa.IndexAddr:
		a, i := fr.val(x.X), fr.val(x.Index)
		if _, ok := i.intConst(); !ok || a.op != OAlloc {
			e.emit(&Eff{Guard: g, Kind: "index", Name: "index", Recv: e.Content(st, a), Args: []*V{i}, Pos: x.Pos(), Site: x})
		}
		return u.lift(func(xs []*V) *V { return u.App("eaddr", t, xs[0], xs[1]) }, a, i)
	case *ssa.Lookup:
		m, k := fr.val(x.X), fr.val(x.Index)
		if isString(x.X.Type()) {
			e.emit(&Eff{Guard: g, Kind: "index", Name: "index", Recv: m, Args: []*V{k}, Pos: x.Pos(), Site: x})
			return u.Index(m, k, t)
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		val, ok := e.mapLookup(e.mapContent(st, m), k, et)
		if x.CommaOk {
			return u.Tuple(val, ok)
		}
		return val
	case *ssa.MakeClosure:
		var bs []*V
		for _, b := range x.Bindings {
			bs = append(bs, fr.val(b))
		}
		return u.Func(x.Fn.(*ssa.Function), bs, t)
	case *ssa.MakeInterface:
		return u.Iface(fr.val(x.X), x.X.Type())
	case *ssa.MakeMap:
		a := fr.alloc(x, t, st)
		st.mem[Loc{a, "{}"}] = u.App("mapempty", nil)
		return a
	case *ssa.MakeSlice:
		if n, ok := fr.val(x.Len).intConst(); ok && n == 0 {
			return u.App("zeros", t, u.Int(0)) // there is nothing to share
		}
		a := fr.alloc(x, t, st)
		st.mem[Loc{a, ""}] = u.App("zeros", t, fr.val(x.Len))
		return u.App("sref", t, a)
	case *ssa.MakeChan:
		return fr.alloc(x, t, st)
	case *ssa.Slice:
		return fr.slice(x, g, st)
	case *ssa.SliceToArrayPointer:
		return u.App("sliceptr", t, fr.val(x.X))
	case *ssa.Range:
		a := fr.val(x.X)
		it := fr.alloc(x, t, st)
		st.mem[Loc{it, ".pos"}] = u.Int(0)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			st.mem[Loc{it, ".coll"}] = e.mapContent(st, a)
		} else {
			st.mem[Loc{it, ".coll"}] = a
		}
		return it
	case *ssa.Next:
		return fr.next(x, st)
	case *ssa.TypeAssert:
		return fr.typeAssert(x, g, st)
	}
	panic(undecided(fmt.Sprintf("instruction %T in %s", v, fr.fn)))
}

func (fr *Frame) next(x *ssa.Next, st *State) *V {
	e := fr.e
	u := e.U
	it := fr.val(x.Iter)
	pos := st.mem[Loc{it, ".pos"}]
	coll := st.mem[Loc{it, ".coll"}]
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	setPos := func(p *V) { st.mem[Loc{it, ".pos"}] = p }
	if x.IsString {
		kt, vt = types.Typ[types.Int], types.Typ[types.Rune]
		if s, ok := coll.strConst(); ok {
			if n, ok := pos.intConst(); ok {
				type kr struct {
					k int
					r rune
				}
				var rs []kr
				for k, r := range s {
					rs = append(rs, kr{k, r})
				}
				setPos(u.Int(n + 1))
				if int(n) >= len(rs) {
					return u.Tuple(u.False, u.Int(0), u.Int(0))
				}
				return u.Tuple(u.True, u.Int(int64(rs[n].k)), u.Const(constant.MakeInt64(int64(rs[n].r)), vt))
			}
		}
	} else if cm := e.constMap(coll); cm != nil {
		if n, ok := pos.intConst(); ok {
			var ks []string
			for k := range cm {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			setPos(u.Int(n + 1))
			if int(n) >= len(ks) {
				return u.Tuple(u.False, u.Nil(kt), u.Nil(vt))
			}
			ent := cm[ks[n]]
			return u.Tuple(u.True, ent.args[1], ent.args[2])
		}
	}
	setPos(u.Add(pos, u.Int(1), types.Typ[types.Int]))
	return u.Tuple(u.Atom(u.App("more", types.Typ[types.Bool], coll, pos)), u.App("rkey", kt, coll, pos), u.App("rval", vt, coll, pos))
}

func (fr *Frame) slice(x *ssa.Slice, g *V, st *State) *V {
	e := fr.e
	u := e.U
	a := fr.val(x.X)
	t := x.Type()
	var lo, hi *V
	lo = u.Int(0)
	if x.Low != nil {
		lo = fr.val(x.Low)
	}
	if x.High != nil {
		hi = fr.val(x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
			return u.App("zeros", t, u.Int(0))
		}
		if n, ok := lo.intConst(); ok && n == 0 && hi == nil {
			return u.App("sref", t, a)
		}
		if hi != nil {
			if n, ok := hi.intConst(); ok && n == 0 {
				// empty slice with capacity
				return u.App("zeros", t, u.Int(0))
			}
		}
	}
	c := e.Content(st, a)
	if lo != nil || hi != nil {
		args := []*V{lo}
		if hi != nil {
			args = append(args, hi)
		}
		e.emit(&Eff{Guard: g, Kind: "slice", Name: "slice", Recv: c, Args: args, Pos: x.Pos(), Site: x})
	}
	if n, ok := lo.intConst(); ok && n == 0 && (hi == nil || hi == u.Len(c)) {
		return a
	}
	if hi == nil {
		hi = u.Len(c)
	}
	if a.op == OApp && (a.s == "sref" || a.s == "sview") && writtenOnly(x) {
		return u.App("sview", t, a, lo, hi)
	}
	return u.lift(func(xs []*V) *V { return u.Sub3(xs[0], xs[1], xs[2], t) }, c, lo, hi)
}

// writtenOnly: a part of a slice that is only made to write into it.
func writtenOnly(x *ssa.Slice) bool {
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "copy" || y.Call.Args[1] == ssa.Value(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cut divides a sequence at an index, if it is known to fall between two
// parts, or into a run of zeros.
func (u *Univ) cut(a, i *V) (pre, post *V, ok bool) {
	ti := types.Typ[types.Int]
	if a.op == OApp && a.s == "zeros" {
		a = u.intern(&V{op: OSeq, args: []*V{a}, splic: []bool{true}, typ: a.typ})
	}
	if a.op != OSeq {
		return nil, nil, false
	}
	off := u.Int(0)
	for k, p := range a.args {
		d := u.Sub(i, off, ti)
		if n, isC := d.intConst(); isC && n == 0 {
			return u.runs(a.args[:k], a.splic[:k], a.typ), u.runs(a.args[k:], a.splic[k:], a.typ), true
		}
		ln := u.Int(1)
		if a.splic[k] {
			ln = u.Len(p)
		}
		if a.splic[k] && p.op == OApp && p.s == "zeros" {
			rest := u.Sub(ln, d, ti)
			n, c1 := d.intConst()
			m, c2 := rest.intConst()
			if (c1 && n > 0 && (!c2 || m > 0)) || (c2 && m > 0 && (!c1 || n > 0)) {
				l := append(append([]*V(nil), a.args[:k]...), u.App("zeros", p.typ, d))
				r := append([]*V{u.App("zeros", p.typ, rest)}, a.args[k+1:]...)
				ls := append([]bool(nil), a.splic[:k+1]...)
				return u.runs(l, ls, a.typ), u.runs(r, a.splic[k:], a.typ), true
			}
		}
		off = u.Add(off, ln, ti)
	}
	if n, isC := u.Sub(i, off, ti).intConst(); isC && n == 0 {
		return a, u.Seq(nil, nil, a.typ), true
	}
	return nil, nil, false
}

// runs makes a sequence of parts, in which short runs of zeros are elements.
func (u *Univ) runs(parts []*V, splice []bool, t types.Type) *V {
	var ps []*V
	var sp []bool
	for i, p := range parts {
		if splice[i] && p.op == OApp && p.s == "zeros" {
			if n, ok := p.args[0].intConst(); ok && n <= 16 {
				for ; n > 0; n-- {
					ps, sp = append(ps, u.Zero(elemT(t))), append(sp, false)
				}
				continue
			}
		}
		ps, sp = append(ps, p), append(sp, splice[i])
	}
	return u.intern(&V{op: OSeq, args: ps, splic: sp, typ: t})
}

func elemT(t types.Type) types.Type {
	if t != nil {
		switch x := t.Underlying().(type) {
		case *types.Array:
			return x.Elem()
		case *types.Slice:
			return x.Elem()
		}
	}
	return nil
}

// overwrite is a sequence with n elements from i on replaced, nil if that is
// not known to be within it.
func (u *Univ) overwrite(a, i, n, by *V) *V {
	pre, rest, ok := u.cut(a, i)
	if !ok {
		return nil
	}
	_, post, ok := u.cut(rest, n)
	if !ok {
		return nil
	}
	return u.Seq([]*V{pre, by, post}, []bool{true, true, true}, a.typ)
}

// Sub3 is a[lo:hi].
func (u *Univ) Sub3(a, lo, hi *V, t types.Type) *V {
	if s, ok := a.strConst(); ok {
		l, ok1 := lo.intConst()
		h, ok2 := hi.intConst()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s) {
			return u.Const(constant.MakeString(s[l:h]), t)
		}
	}
	if a.op == OSeq {
		l, ok1 := lo.intConst()
		h, ok2 := hi.intConst()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(a.args) {
			ok := true
			for i := 0; i < int(h); i++ {
				if a.splic[i] {
					ok = false
				}
			}
			if ok {
				return u.Seq(a.args[l:h], nil, t)
			}
		}
	}
	if a.op == OApp && a.s == "sub" {
		ti := types.Typ[types.Int]
		return u.Sub3(a.args[0], u.Add(a.args[1], lo, ti), u.Add(a.args[1], hi, ti), t)
	}
	return u.App("sub", t, a, lo, hi)
}

// world is the list of dynamic types assumed for an interface type by the
// configuration, nil if it is open.
func (e *Eng) world(t types.Type) []types.Type {
	if t == nil || e.Cfg.Dispatch == nil || !isIfaceT(t) {
		return nil
	}
	return e.Cfg.Dispatch(t, nil)
}

func (e *Eng) typeSym(t types.Type) *V {
	s := e.U.Sym("type:"+e.U.tn(t), nil)
	e.tsyms[s] = t
	return s
}

// Is is the condition that interface value x holds a T.
func (e *Eng) Is(x *V, T types.Type) *V {
	u := e.U
	return u.lift(func(xs []*V) *V {
		x := xs[0]
		if x.isNilConst() {
			return u.False
		}
		if it, ok := T.Underlying().(*types.Interface); ok {
			if x.op == OIface {
				return u.Bool(types.Implements(x.typ, it))
			}
			if x.typ != nil && isIfaceT(x.typ) && types.Implements(x.typ, it) {
				return u.Not(u.eqc(x, u.Nil(nil)))
			}
			if cands := e.closedImpls(x.typ, nil); cands != nil {
				c := u.False
				for _, t := range cands {
					if types.Implements(t, it) {
						c = u.Or(c, e.isAtom(x, t))
					}
				}
				return c
			}
			return u.Atom(u.App("implements", types.Typ[types.Bool], x, e.typeSym(T)))
		}
		if x.op == OIface {
			return u.Bool(types.Identical(x.typ, T))
		}
		return e.isAtom(x, T)
	}, x)
}

func (e *Eng) isAtom(x *V, T types.Type) *V {
	if x.op == OIface {
		return e.U.Bool(types.Identical(x.typ, T))
	}
	if x.isNilConst() {
		return e.U.False
	}
	if l := e.world(x.typ); l != nil {
		// closed world: exactly one of the listed types
		n := len(l) - 1
		if types.Identical(l[n], T) {
			c := e.U.True
			for _, t := range l[:n] {
				c = e.U.And(c, e.U.Not(e.isAtom(x, t)))
			}
			return c
		}
		found := false
		for _, t := range l[:n] {
			if types.Identical(t, T) {
				found = true
			}
		}
		if !found {
			return e.U.False
		}
	}
	return e.U.Atom(e.U.App("is", types.Typ[types.Bool], x, e.typeSym(T)))
}

// As is the T that x holds.
func (e *Eng) As(x *V, T types.Type) *V {
	u := e.U
	return u.lift(func(xs []*V) *V {
		x := xs[0]
		if isIfaceT(T) {
			return x
		}
		if x.op == OIface && types.Identical(x.typ, T) {
			return x.args[0]
		}
		return u.App("as:"+u.tn(T), T, x)
	}, x)
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert, g *V, st *State) *V {
	e := fr.e
	u := e.U
	v := fr.val(x.X)
	ok := e.Is(v, x.AssertedType)
	val := e.As(v, x.AssertedType)
	if x.CommaOk {
		return u.Tuple(u.Ite(ok, val, u.Zero(x.AssertedType)), ok)
	}
	if u.And(u.And(e.ctx, g), u.Not(ok)) != u.False {
		e.emit(&Eff{Guard: u.And(g, u.Not(ok)), Kind: "assert", Name: "assert", Recv: v, Args: []*V{ok}, Pos: x.Pos(), Site: x})
	}
	return u.Under(val, ok)
}

func (e *Eng) binop(op token.Token, a, b *V, xt, t types.Type) *V {
	u := e.U
	switch op {
	case token.ADD:
		if isString(xt) {
			return u.Concat(a, b, t)
		}
		return u.Add(a, b, t)
	case token.SUB:
		return u.Sub(a, b, t)
	case token.MUL:
		return u.Mul(a, b, t)
	case token.QUO:
		return u.Quo(a, b, t)
	case token.EQL:
		return u.Eq(a, b)
	case token.NEQ:
		return u.Not(u.Eq(a, b))
	}
	if isString(xt) {
		return u.lift(func(x []*V) *V {
			if s, ok := x[0].strConst(); ok {
				if r, ok := x[1].strConst(); ok {
					return u.Bool(constant.Compare(constant.MakeString(s), op, constant.MakeString(r)))
				}
			}
			return u.Atom(u.App("str"+op.String(), types.Typ[types.Bool], x...))
		}, a, b)
	}
	switch op {
	case token.LSS:
		return u.Pos(u.Sub(b, a, xt), xt)
	case token.GTR:
		return u.Pos(u.Sub(a, b, xt), xt)
	case token.LEQ:
		return u.Not(u.Pos(u.Sub(a, b, xt), xt))
	case token.GEQ:
		return u.Not(u.Pos(u.Sub(b, a, xt), xt))
	}
	return u.lift(func(x []*V) *V {
		ra, ok1 := ratOf(x[0])
		rb, ok2 := ratOf(x[1])
		if ok1 && ok2 && ra.IsInt() && rb.IsInt() {
			switch op {
			case token.SHL, token.SHR:
				n, _ := constant.Uint64Val(constant.ToInt(x[1].c))
				return u.Const(constant.Shift(constant.ToInt(x[0].c), op, uint(n)), t)
			case token.AND, token.OR, token.XOR, token.AND_NOT, token.REM:
				if op == token.REM && rb.Sign() == 0 {
					break
				}
				return u.Const(constant.BinaryOp(constant.ToInt(x[0].c), op, constant.ToInt(x[1].c)), t)
			}
		}
		return u.App("bin"+op.String(), t, x...)
	}, a, b)
}

// Concat joins strings.
func (u *Univ) Concat(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		var parts []*V
		add := func(v *V) {
			if s, ok := v.strConst(); ok {
				if s == "" {
					return
				}
				if n := len(parts); n > 0 {
					if p, ok := parts[n-1].strConst(); ok {
						parts[n-1] = u.Str(p + s)
						return
					}
				}
			}
			parts = append(parts, v)
		}
		for _, v := range x {
			if v.op == OApp && v.s == "concat" {
				for _, p := range v.args {
					add(p)
				}
			} else {
				add(v)
			}
		}
		switch len(parts) {
		case 0:
			return u.Str("")
		case 1:
			return parts[0]
		}
		return u.App("concat", types.Typ[types.String], parts...)
	}, a, b)
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

// tofloat is an integer as a real number.
func (u *Univ) tofloat(v *V, to types.Type) *V {
	if v.op == OApp && v.s == "fromreal" {
		return v.args[0]
	}
	return u.App("tofloat", to, v)
}

func (e *Eng) convert(a *V, from, to types.Type, st *State) *V {
	u := e.U
	switch {
	case isFloat(from) && isFloat(to):
		if basicKind(to) == types.Float32 && basicKind(from) != types.Float32 {
			return u.lift(func(x []*V) *V {
				if _, ok := ratOf(x[0]); ok {
					return u.Const(x[0].c, to)
				}
				return u.App("f32", to, x[0])
			}, a)
		}
		return a
	case isInteger(from) && isFloat(to):
		return u.lift(func(x []*V) *V {
			if r, ok := ratOf(x[0]); ok {
				return u.ratConst(r, to)
			}
			if x[0].op == OPoly { // distribute over sums
				acc := u.ratConst(new(big.Rat), to)
				for _, t := range x[0].terms {
					m := u.ratConst(t.coef, to)
					for _, f := range t.mono {
						m = u.Mul(m, u.tofloat(f, to), to)
					}
					acc = u.Add(acc, m, to)
				}
				return acc
			}
			return u.tofloat(x[0], to)
		}, a)
	case isFloat(from) && isInteger(to):
		return u.lift(func(x []*V) *V {
			if r, ok := ratOf(x[0]); ok {
				return u.ratConst(new(big.Rat).SetInt(new(big.Int).Quo(r.Num(), r.Denom())), to)
			}
			return u.App("toint", to, x[0])
		}, a)
	case isInteger(from) && isInteger(to):
		k := basicKind(to)
		if (k == types.Uint8 || k == types.Int8) && basicKind(from) != k {
			return u.lift(func(x []*V) *V {
				if n, ok := x[0].intConst(); ok && n >= 0 && n < 128 {
					return u.Const(constant.MakeInt64(n), to)
				}
				return u.App("byte", to, x[0])
			}, a)
		}
		return a
	case isInteger(from) && isString(to):
		return u.lift(func(x []*V) *V {
			if n, ok := x[0].intConst(); ok {
				return u.Str(string(rune(n)))
			}
			return u.App("str", to, x[0])
		}, a)
	case isString(from) && isString(to):
		return a
	}
	c := e.Content(st, a)
	if isString(to) || isString(from) {
		return u.lift(func(x []*V) *V {
			// string([]byte(s)) and []byte(string(b))
			if x[0].op == OApp && (x[0].s == "bytes" || x[0].s == "frombytes") && x[0].typ != nil {
				if isString(to) == (x[0].s == "bytes") {
					return x[0].args[0]
				}
			}
			if isString(to) {
				return u.App("frombytes", to, x[0])
			}
			k := "bytes"
			if s, ok := to.Underlying().(*types.Slice); ok && basicKind(s.Elem()) == types.Int32 {
				k = "runes"
			}
			return u.App(k, to, x[0])
		}, c)
	}
	return a
}
