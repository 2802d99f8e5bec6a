package main

// Comparison of values across functions: loop-carried variables, iteration
// counters and allocated objects are replaced by canonical names, found by
// partition refinement (two variables get the same name iff their initial
// values, their transfer functions and the loops that carry them agree, and
// two objects iff their contents do), so that equal canonical values denote
// equal values whatever the loops and objects are called or how the code
// around them is written.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type root struct {
	v  *V
	st *State
}

type canon struct {
	e      *Eng
	vars   []*LoopVar
	loops  []*Loop
	allocs []*V
	cont   map[*V]*V // alloc -> content
	vcol   map[*LoopVar]int
	lcol   map[*Loop]int
	acol   map[*V]int
	sub    map[*V]*V
	nm     *normer
	rg     *ranges
}

// contentOf reads everything stored in an object.
func (e *Eng) contentOf(st *State, a *V) *V {
	t := derefT(a.typ)
	if st == nil {
		return nil
	}
	if _, ok := st.mem[Loc{a, "{}"}]; ok {
		return e.mapContent(st, a)
	}
	if s := structOf(t); s != nil {
		return e.loadAt(st, a, "", t)
	}
	if v, ok := st.mem[Loc{a, ""}]; ok {
		return v
	}
	return e.defLoc(st, Loc{a, ""}, t)
}

func newCanon(e *Eng, roots []root, rg *ranges) *canon {
	c := gather(e, roots, rg)
	e.U.iteMem = map[[3]int]*V{}
	c.refine()
	return c
}

// gather finds the loops, loop variables and objects that values depend on.
func gather(e *Eng, roots []root, rg *ranges) *canon {
	c := &canon{e: e, rg: rg, cont: map[*V]*V{}, vcol: map[*LoopVar]int{}, lcol: map[*Loop]int{}, acol: map[*V]int{}}
	seenV := map[*LoopVar]bool{}
	seenL := map[*Loop]bool{}
	seenA := map[*V]bool{}
	type item struct {
		v  *V
		st *State
	}
	var work []item
	push := func(v *V, st *State) {
		if v != nil {
			work = append(work, item{v, st})
		}
	}
	for _, r := range roots {
		push(r.v, r.st)
	}
	addLoop := func(l *Loop) {
		if l == nil || seenL[l] {
			return
		}
		seenL[l] = true
		c.loops = append(c.loops, l)
		push(l.N, l.BackSt)
		push(l.Abort, l.BackSt)
		push(l.Back, l.BackSt)
		for _, x := range l.Exits {
			push(x, l.BackSt)
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		seen := map[*V]bool{}
		var walk func(x *V)
		walk = func(x *V) {
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			switch x.op {
			case OSym:
				addLoop(e.Loops[x])
				if lv := e.LVars[x]; lv != nil && !seenV[lv] {
					seenV[lv] = true
					c.vars = append(c.vars, lv)
					push(lv.Init, it.st)
					push(lv.Next, e.Loops[x].BackSt)
				}
			case OAlloc:
				if !seenA[x] {
					seenA[x] = true
					c.allocs = append(c.allocs, x)
					st := it.st
					if st != nil {
						if _, live := st.mem[Loc{x, "#"}]; !live {
							for _, l := range e.Loops {
								if l.BackSt != nil {
									if _, ok := l.BackSt.mem[Loc{x, "#"}]; ok {
										st = l.BackSt
										break
									}
								}
							}
						}
					}
					c.cont[x] = e.contentOf(st, x)
					push(c.cont[x], st)
				}
			}
			for _, a := range x.args {
				walk(a)
			}
			for _, t := range x.terms {
				for _, m := range t.mono {
					walk(m)
				}
			}
		}
		walk(it.v)
	}
	return c
}

func (c *canon) mkSub() {
	u := c.e.U
	c.sub = map[*V]*V{}
	for _, l := range c.loops {
		n := fmt.Sprintf("%d.%d", l.Depth, c.lcol[l])
		c.sub[l.K] = u.Sym("K#"+n, types.Typ[types.Int])
		if l.Done != nil {
			c.sub[l.Done] = u.Sym("done#"+n, types.Typ[types.Bool])
		}
		if l.N == nil && l.KOut != nil {
			c.sub[l.KOut] = u.Sym("Kω#"+n, types.Typ[types.Int])
		}
	}
	for _, v := range c.vars {
		c.sub[v.Mu] = u.Sym(fmt.Sprintf("μ#%d", c.vcol[v]), v.Mu.typ)
		c.sub[v.Om] = u.Sym(fmt.Sprintf("ω#%d", c.vcol[v]), v.Om.typ)
	}
	for _, a := range c.allocs {
		c.sub[a] = u.Alloc(fmt.Sprintf("obj#%d", c.acol[a]), a.typ)
	}
	// a loop without iterations leaves its variables as they were
	busy := map[*LoopVar]bool{}
	done := map[*LoopVar]bool{}
	var om func(v *LoopVar)
	om = func(v *LoopVar) {
		if done[v] || busy[v] {
			return
		}
		busy[v] = true
		l := c.e.Loops[v.Mu]
		if l != nil && l.N != nil && v.Om.typ != nil {
			for _, x := range []*V{l.N, v.Init} {
				Contains(x, func(y *V) bool {
					if lv := c.e.LVars[y]; lv != nil && y == lv.Om {
						om(lv)
					}
					return false
				})
			}
			z := u.Eq(u.Subst(l.N, c.sub), u.Int(0))
			if z != u.False {
				i := u.Subst(v.Init, c.sub)
				c.sub[v.Om] = u.Ite(z, i, c.sub[v.Om])
			}
		}
		busy[v] = false
		done[v] = true
	}
	for _, v := range c.vars {
		om(v)
	}
	// objects that do not refer to themselves are represented by their contents
	state := map[*V]int{}
	cyc := map[*V]bool{}
	var visit func(a *V)
	visit = func(a *V) {
		state[a] = 1
		Contains(c.cont[a], func(x *V) bool {
			if x.op == OAlloc && c.cont[x] != nil {
				if state[x] == 1 {
					cyc[x] = true
				} else if state[x] == 0 {
					visit(x)
				}
			}
			return false
		})
		state[a] = 2
		if !cyc[a] && c.cont[a] != nil {
			c.sub[a] = u.App("new", a.typ, u.Subst(c.cont[a], c.sub))
		}
	}
	names := map[*V]*V{}
	for _, a := range c.allocs {
		names[a] = c.sub[a]
	}
	for _, a := range c.allocs {
		if state[a] == 0 && c.cont[a] != nil {
			visit(a)
		}
	}
	// also in what loops without iterations leave
	byName := map[*V]*V{}
	for _, a := range c.allocs {
		if c.sub[a] != names[a] {
			byName[names[a]] = c.sub[a]
		}
	}
	if len(byName) > 0 {
		for _, v := range c.vars {
			if x := c.sub[v.Om]; x.op != OSym {
				c.sub[v.Om] = u.Subst(x, byName)
			}
		}
	}
}

func (c *canon) refine() {
	u := c.e.U
	for round := 0; ; round++ {
		if round > 200 {
			panic(undecided("canonical names do not stabilise"))
		}
		c.mkSub()
		memo := map[*V]*V{}
		sub := func(v *V) int {
			if v == nil {
				return -1
			}
			if r, ok := memo[v]; ok {
				return r.id
			}
			r := c.of(v)
			memo[v] = r
			return r.id
		}
		lsig := map[*Loop]string{}
		for _, l := range c.loops {
			s := fmt.Sprintf("%d|%d|", c.lcol[l], l.Depth)
			if l.N != nil {
				s += fmt.Sprintf("N%d", sub(l.N))
			} else {
				// it stops where it does not go on; how, the edges out of it tell
				s += fmt.Sprint("B", sub(l.Back))
			}
			if l.N != nil {
				s += fmt.Sprint("p", sub(l.Abort))
			}
			lsig[l] = s
		}
		vsig := map[*LoopVar]string{}
		for _, v := range c.vars {
			l := c.e.Loops[v.Mu]
			tn := ""
			if v.Mu.typ != nil {
				switch v.Mu.typ.Underlying().(type) {
				case *types.Slice, *types.Array: // contents
				default:
					tn = u.tn(v.Mu.typ)
				}
			}
			vsig[v] = fmt.Sprintf("%d|%s|%d|%d|%d", c.vcol[v], tn, c.lcol[l], sub(v.Init), sub(v.Next))
		}
		asig := map[*V]string{}
		for _, a := range c.allocs {
			asig[a] = fmt.Sprintf("%d|%s|%d", c.acol[a], u.tn(a.typ), sub(c.cont[a]))
		}
		changed := false
		num := func(sig string, m map[string]int) int {
			n, ok := m[sig]
			if !ok {
				n = len(m)
				m[sig] = n
			}
			return n
		}
		nl, nv, na := map[string]int{}, map[string]int{}, map[string]int{}
		ol, ov, oa := map[int]bool{}, map[int]bool{}, map[int]bool{}
		for _, l := range c.loops {
			ol[c.lcol[l]] = true
		}
		for _, v := range c.vars {
			ov[c.vcol[v]] = true
		}
		for _, a := range c.allocs {
			oa[c.acol[a]] = true
		}
		lc, vc, ac := map[*Loop]int{}, map[*LoopVar]int{}, map[*V]int{}
		for _, l := range c.loops {
			lc[l] = num(lsig[l], nl)
		}
		for _, v := range c.vars {
			vc[v] = num(vsig[v], nv)
		}
		for _, a := range c.allocs {
			ac[a] = num(asig[a], na)
		}
		if len(nl) != len(ol) && len(c.loops) > 0 || len(nv) != len(ov) && len(c.vars) > 0 || len(na) != len(oa) && len(c.allocs) > 0 {
			changed = true
		}
		c.lcol, c.vcol, c.acol = lc, vc, ac
		if !changed {
			c.mkSub()
			return
		}
	}
}

func (c *canon) of(v *V) *V {
	if v == nil {
		return nil
	}
	if c.nm == nil {
		c.nm = &normer{u: c.e.U, memo: map[*V]*V{}, rm: map[[3]int]*V{}, rg: c.rg}
	}
	return c.nm.norm(c.e.U.Subst(v, c.sub))
}

// explain gives a readable form of a canonical value: the loop variables and
// objects in it with their definitions.
func (c *canon) explain(v *V, depth int) string {
	cv := c.of(v)
	var sb strings.Builder
	sb.WriteString(cv.str(depth))
	done := map[*V]bool{}
	n := 0
	var defs func(x *V)
	defs = func(x *V) {
		Contains(x, func(y *V) bool {
			if done[y] || n > 12 {
				return false
			}
			done[y] = true
			for _, lv := range c.vars {
				if c.sub[lv.Om] == y || c.sub[lv.Mu] == y {
					n++
					i, nx := c.of(lv.Init), c.of(lv.Next)
					fmt.Fprintf(&sb, "\n      where %s: starts as %s, then %s", y, i.str(6), nx.str(depth))
					defs(i)
					defs(nx)
					break
				}
			}
			if y.op == OAlloc {
				for _, a := range c.allocs {
					if c.sub[a] == y && c.cont[a] != nil {
						n++
						w := c.of(c.cont[a])
						fmt.Fprintf(&sb, "\n      where %s = %s", y, w.str(depth))
						defs(w)
						break
					}
				}
			}
			return false
		})
	}
	defs(cv)
	return sb.String()
}

// norm simplifies conditional values nested inside other terms by the
// conditions around them.
type normer struct {
	u    *Univ
	memo map[*V]*V
	rm   map[[3]int]*V
	rg   *ranges
}

func (n *normer) norm(v *V) *V {
	if v == nil {
		return v
	}
	if v.typ != nil && (v.isNilConst() || v.op == OSeq && len(v.args) == 0) {
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			return n.u.App("empty", nil)
		}
	}
	if v.op == OSeq && len(v.args) == 0 {
		return n.u.App("empty", nil)
	}
	if r, ok := n.memo[v]; ok {
		return r
	}
	u := n.u
	var r *V
	if v.op == OIte {
		a := v.args[0]
		hi := n.norm(n.fix(v.args[1], a, true))
		lo := n.norm(n.fix(v.args[2], a, false))
		r = u.Ite(u.Atom(n.normAtom(a)), hi, lo)
	} else {
		r = u.rebuild(v, n.norm)
		if (r.op == OApp || r.op == OStruct || r.op == OIface || r.op == OTuple) && hasIte(r) {
			atoms := map[*V]bool{}
			for _, a := range r.args {
				if a.op == OIte {
					collectAtoms(a, atoms, map[*V]bool{})
				}
			}
			if len(atoms) > 0 && len(atoms) <= 10 {
				w := r
				r = u.lift(func(x []*V) *V {
					switch w.op {
					case OStruct:
						return u.Struct(w.typ, x)
					case OIface:
						return u.Iface(x[0], w.typ)
					case OTuple:
						return u.Tuple(x...)
					}
					return u.reApp(w, x)
				}, w.args...)
			}
		}
	}
	// a reference to a slice is represented by the elements it refers to
	if r.op == OApp && r.s == "sref" && r.args[0].op == OApp && r.args[0].s == "new" && len(r.args[0].args) == 1 {
		r = r.args[0].args[0]
	}
	if r.op == OApp && r.s == "zeros" && len(r.args) == 1 {
		if k, ok := r.args[0].intConst(); ok && k == 0 {
			r = u.App("empty", nil)
		}
	}
	n.memo[v] = r
	return r
}

// ranges are the constants integers are compared with: in the second attempt
// at a comparison they divide the integers into classes, so that the same set
// of integers has the same form however it is described.
type ranges struct {
	at    map[*V]map[int64]bool
	rel   map[*V]bool // compared by order, not only for equality
	dirty bool
}

func (r *ranges) add(m *V, order bool, cs ...int64) {
	if r.at[m] == nil {
		r.at[m] = map[int64]bool{}
	}
	if order && !r.rel[m] {
		r.rel[m] = true
		r.dirty = true
	}
	for _, c := range cs {
		if !r.at[m][c] {
			r.at[m][c] = true
			r.dirty = true
		}
	}
}

func (n *normer) normAtom(a *V) *V {
	u := n.u
	if n.rg == nil || a.op != OApp || len(a.args) != 2 {
		return a
	}
	var m *V
	var lo, hi int64 // m in [lo, hi)
	order := false
	switch a.s {
	case "eqc":
		if !isInteger(a.args[0].typ) {
			return a
		}
		c, ok := a.args[1].intConst()
		if !ok {
			return a
		}
		m, lo, hi = n.norm(a.args[0]), c, c+1
	case "pos":
		p := a.args[0]
		if z, ok := a.args[1].intConst(); !ok || z != 0 || !isInteger(p.typ) {
			return a
		}
		// m + k > 0: m >= 1 - k
		ts := u.termsOf(p)
		if len(ts) == 0 || len(ts) > 2 {
			return a
		}
		t := ts[len(ts)-1]
		k := int64(0)
		if len(ts) == 2 {
			if len(ts[0].mono) != 0 || !ts[0].coef.IsInt() {
				return a
			}
			k = ts[0].coef.Num().Int64()
		}
		if len(t.mono) != 1 || !t.coef.IsInt() || t.coef.Num().Int64() != 1 {
			return a
		}
		m, lo, order = n.norm(t.mono[0]), 1-k, true
	default:
		return a
	}
	if order {
		n.rg.add(m, true, lo)
	} else {
		n.rg.add(m, false, lo, hi)
	}
	if !n.rg.rel[m] {
		return a
	}
	var bs []int64
	for c := range n.rg.at[m] {
		bs = append(bs, c)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	cl := u.App("class", types.Typ[types.Int], m)
	r := u.False
	for i, b := range bs {
		if b == lo || order && b > lo {
			r = u.Or(r, u.eqc(cl, u.Int(int64(i+1))))
		}
	}
	return r
}

// fix gives an atom, and those it excludes, their truth value everywhere in v.
func (n *normer) fix(v, a *V, val bool) *V {
	u := n.u
	if v == nil || v == a {
		return v
	}
	if val && a.op == OApp && a.s == "eqc" && a.args[0].op == OApp && a.args[0].s == "len" && v == a.args[0].args[0] {
		if n, ok := a.args[1].intConst(); ok && n == 0 && !isString(v.typ) {
			return u.Seq(nil, nil, v.typ)
		}
	}
	if val && a.op == OApp && a.s == "eqc" && v == a.args[0] && v.op == OApp && !strings.HasPrefix(v.s, "field:") && a.args[1].c != nil && a.args[1].c.Kind() == constant.Int {
		return a.args[1] // a known value
	}
	if !hasIte(v) && !val {
		return v
	}
	k := [3]int{v.id, a.id, 0}
	if val {
		k[2] = 1
	}
	if r, ok := n.rm[k]; ok {
		return r
	}
	var r *V
	if v.op == OIte {
		known, kv := false, false
		if v.args[0] == a {
			known, kv = true, val
		} else if val {
			for _, x := range u.exclusive(a) {
				if x == v.args[0] {
					known = true
				}
			}
		}
		switch {
		case known && kv:
			r = n.fix(v.args[1], a, val)
		case known:
			r = n.fix(v.args[2], a, val)
		default:
			r = u.Ite(u.Atom(v.args[0]), n.fix(v.args[1], a, val), n.fix(v.args[2], a, val))
		}
	} else {
		r = u.rebuild(v, func(x *V) *V { return n.fix(x, a, val) })
	}
	n.rm[k] = r
	return r
}

var iteMemo = map[*V]bool{}

func hasIte(v *V) bool {
	if v == nil {
		return false
	}
	if v.op == OIte {
		return true
	}
	if r, ok := iteMemo[v]; ok {
		return r
	}
	r := false
	for _, a := range v.args {
		if hasIte(a) {
			r = true
			break
		}
	}
	if !r {
	outer:
		for _, t := range v.terms {
			for _, m := range t.mono {
				if hasIte(m) {
					r = true
					break outer
				}
			}
		}
	}
	iteMemo[v] = r
	return r
}

// objects counts the distinct objects of each canonical kind that can be
// reached from every second root.
func (c *canon) objects(roots []root, from int) string {
	seen := map[*V]bool{}
	cnt := map[string]int{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OAlloc {
			cnt[c.sub[x].String()]++
			walk(c.cont[x])
		}
		if lv := c.e.LVars[x]; lv != nil {
			walk(lv.Init)
			walk(lv.Next)
		}
		for _, a := range x.args {
			walk(a)
		}
		for _, t := range x.terms {
			for _, m := range t.mono {
				walk(m)
			}
		}
	}
	for i := from; i < len(roots); i += 2 {
		walk(roots[i].v)
	}
	var ks []string
	for k, n := range cnt {
		ks = append(ks, fmt.Sprintf("%d %s", n, k))
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
