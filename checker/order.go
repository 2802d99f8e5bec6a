package main

// Order: what depends on the order in which a map is walked.  Each loop over
// a map, or over a list made by such a loop, is shown to do the same whatever
// the order: it inserts under keys of its own, counts, collects into lists
// that are sorted before use, or looks for something that is there or not.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type orderFault struct {
	f   *ssa.Function
	pos token.Pos
	msg string
}

type orders struct {
	p       *Prog
	faults  []orderFault
	loops   int
	what    map[string]bool // what was walked
	seenF   map[string]bool
	tainted map[*ssa.Function]map[int]bool // results in no particular order
	work    []func()
}

func (o *orders) bad(f *ssa.Function, pos token.Pos, format string, a ...any) {
	k := fmt.Sprint(f, pos, format)
	if o.seenF[k] {
		return
	}
	o.seenF[k] = true
	o.faults = append(o.faults, orderFault{f, pos, fmt.Sprintf(format, a...)})
}

// walk is one loop whose turns come in no particular order.
type walk struct {
	o      *orders
	f      *ssa.Function
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	exit   *ssa.BasicBlock // where it ends when all turns were taken
	unique map[ssa.Value]bool
	roots  map[ssa.Value]bool
	skip   map[*ssa.Phi]bool // the counter of the loop itself
	vary   map[ssa.Value]bool
	carry  map[ssa.Value]bool
	cells  map[*ssa.Alloc]bool // variables around the loop that it changes
	writes int
	seqs   []ssa.Value // lists it fills
}

// enclosing is the innermost loop around a block.
func (p *Prog) enclosing(f *ssa.Function, b *ssa.BasicBlock) *natLoop {
	loops, _, _ := p.loopsOf(f)
	var best *natLoop
	for _, l := range loops {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

func (w *walk) inv(v ssa.Value) bool { return !w.vary[v] && !w.carry[v] }

// inside tells the values computed within the loop.
func (w *walk) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && w.body[in.Block()]
}

// flow finds which values differ from turn to turn, and which depend on
// earlier turns.
func (w *walk) flow() {
	w.vary, w.carry = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for r := range w.roots {
		w.vary[r] = true
	}
	for _, in := range w.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && !w.skip[ph] {
			w.carry[ph] = true
		}
	}
	for ch := true; ch; {
		ch = false
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				ch = true
			}
		}
		for b := range w.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || w.roots[v] {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && (w.carry[ph] && b == w.head || w.skip[ph]) {
					continue
				}
				if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if a, ok := ld.X.(*ssa.Alloc); ok && w.cells[a] {
						set(w.carry, v)
						continue
					}
				}
				var rands [16]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if *r == nil {
						continue
					}
					if w.vary[*r] {
						set(w.vary, v)
					}
					if w.carry[*r] {
						set(w.carry, v)
					}
				}
				if ph, ok := v.(*ssa.Phi); ok && b != w.head {
					// which edge is taken may differ
					for _, e := range ph.Edges {
						if e != ph.Edges[0] {
							set(w.vary, v)
						}
					}
				}
			}
		}
	}
}

// same tells values that are the same expression.
func same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && types.Identical(x.Type(), y.Type()) && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value))
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && same(x.X, y.X) && same(x.Y, y.Y)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && same(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && same(x.X, y.X)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && same(x.X, y.X)
	case *ssa.ChangeType:
		return same(x.X, b)
	}
	if y, ok := b.(*ssa.ChangeType); ok {
		return same(a, y.X)
	}
	return false
}

// own tells keys that no two turns share.
func (w *walk) ownKey(v ssa.Value) bool {
	if w.unique[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		return x.Op == token.ADD && (c1 && w.ownKey(x.Y) || c2 && w.ownKey(x.X))
	case *ssa.ChangeType:
		return w.ownKey(x.X)
	case *ssa.MakeInterface:
		return w.ownKey(x.X)
	}
	return false
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global:
		return true
	case *ssa.MakeInterface:
		return constLike(x.X)
	case *ssa.ChangeType:
		return constLike(x.X)
	case *ssa.Convert:
		return constLike(x.X)
	}
	return false
}

// dead tells blocks from which the function only panics.
func dead(b *ssa.BasicBlock, n int) bool {
	if n > 8 {
		return false
	}
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
		return true
	}
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && exits(c.Call.StaticCallee().String()) {
			return true
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !dead(s, n+1) {
			return false
		}
	}
	return true
}

// leaves are the values a loop-carried variable may get in a turn.
func (w *walk) leaves(v ssa.Value, out map[ssa.Value]bool) {
	if out[v] {
		return
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() != w.head && w.body[ph.Block()] {
		out[v] = true
		for _, e := range ph.Edges {
			w.leaves(e, out)
		}
		delete(out, v)
		out[nilLeaf{v}] = true
		return
	}
	out[v] = true
}

// nilLeaf marks a merge that was followed.
type nilLeaf struct{ ssa.Value }

// accum checks what a variable becomes from turn to turn; is tells its value
// at the start of a turn.
func (w *walk) accum(pos token.Pos, is func(ssa.Value) bool, next []ssa.Value, name string) {
	ls := map[ssa.Value]bool{}
	for _, n := range next {
		w.leaves(n, ls)
	}
	var set ssa.Value
	var picks []ssa.Value
	for l := range ls {
		if _, ok := l.(nilLeaf); ok || is(l) {
			continue
		}
		switch x := l.(type) {
		case *ssa.BinOp:
			if w.commutes(x, is) {
				continue
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && is(x.Call.Args[0]) {
				for _, a := range x.Call.Args[1:] {
					if w.carry[a] {
						w.o.bad(w.f, x.Pos(), "what is appended depends on earlier turns")
					}
				}
				w.seqs = append(w.seqs, x)
				continue
			}
			nm := ""
			if c := x.Call.StaticCallee(); c != nil {
				nm = c.String()
			} else if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				nm = b.Name()
			}
			if nm == "math.Max" || nm == "math.Min" || nm == "max" || nm == "min" {
				n := 0
				for _, a := range x.Call.Args {
					if is(a) {
						n++
					} else if w.carry[a] {
						n = 9
					}
				}
				if n == 1 {
					continue
				}
			}
		}
		if constLike(l) || !w.inside(l) || w.inv(l) && !w.writesMem(l) {
			if set != nil && !same(set, l) {
				w.o.bad(w.f, pos, "%s ends as what the last of the turns makes it", name)
				return
			}
			set = l
			continue
		}
		picks = append(picks, l)
	}
	if len(picks) == 0 {
		return
	}
	if len(picks) == 1 && set == nil && w.largest(picks[0], is) {
		return
	}
	w.o.bad(w.f, pos, "%s ends as what the last of the turns makes it", name)
}

func (w *walk) writesMem(v ssa.Value) bool {
	_, ok := v.(*ssa.Call)
	return ok
}

// commutes tells sums and the like of whole numbers and truth values.
func (w *walk) commutes(x *ssa.BinOp, is func(ssa.Value) bool) bool {
	b, ok := x.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	side := func(a ssa.Value) bool {
		if is(a) {
			return true
		}
		y, ok := a.(*ssa.BinOp)
		return ok && y.Op == x.Op && w.commutes(y, is)
	}
	switch x.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return side(x.X) && !w.carry[x.Y] || side(x.Y) && !w.carry[x.X]
	case token.SUB, token.AND_NOT:
		return side(x.X) && !w.carry[x.Y]
	}
	return false
}

// largest tells variables that end as the largest or smallest of all.
func (w *walk) largest(v ssa.Value, is func(ssa.Value) bool) bool {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok || w.carry[v] {
		return false
	}
	n := 0
	for b := range w.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !w.carry[iff.Cond] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		switch c.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			return false
		}
		if !(is(c.X) && same(c.Y, v) || is(c.Y) && same(c.X, v)) {
			return false
		}
		n++
	}
	return n == 1
}

// check shows that the turns of the loop may come in any order.
func (w *walk) check() {
	o := w.o
	o.loops++
	if w.cells == nil {
		w.cells = map[*ssa.Alloc]bool{}
	}
	for b := range w.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok && !w.body[a.Block()] {
					w.cells[a] = true
				}
			}
		}
	}
	w.flow()
	// conditions
	largestCond := map[ssa.Value]bool{}
	// variables carried
	for _, in := range w.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if w.skip[ph] {
			continue
		}
		var next []ssa.Value
		for i, p := range w.head.Preds {
			if w.body[p] {
				next = append(next, ph.Edges[i])
			}
		}
		is := func(v ssa.Value) bool { return v == ssa.Value(ph) }
		w.noteLargest(next, is, largestCond)
		w.accum(w.at(ph.Pos()), is, next, varName(ph))
	}
	for a := range w.cells {
		is := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && u.X == ssa.Value(a)
		}
		var next []ssa.Value
		for b := range w.body {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					next = append(next, s.Val)
				}
			}
		}
		w.noteLargest(next, is, largestCond)
		n := len(w.seqs)
		w.accum(w.at(a.Pos()), is, next, varName(a))
		if len(w.seqs) > n {
			w.seqs = append(w.seqs, a)
		}
	}
	updated := map[ssa.Value]ssa.Value{} // maps and the keys put
	effects := len(w.seqs)
	for b := range w.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if dead(b, 0) {
					continue
				}
				effects++
				updated[x.Map] = x.Key
				if w.carry[x.Key] || w.carry[x.Value] {
					o.bad(w.f, x.Pos(), "what is put in the map depends on earlier turns")
				} else if !w.ownKey(x.Key) && w.vary[x.Value] {
					o.bad(w.f, x.Pos(), "turns may put different values under the same key")
				}
			case *ssa.Store:
				if a, ok := baseAddr(x.Addr).(*ssa.Alloc); ok && (w.body[a.Block()] || w.cells[a] && x.Addr == ssa.Value(a)) {
					continue
				}
				effects++
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && !w.inside(ia.X) {
					// filled in the order of the turns
					if w.carry[x.Val] {
						o.bad(w.f, x.Pos(), "what is stored depends on earlier turns")
					}
					w.seqs = append(w.seqs, ia.X)
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if ld, ok := ia.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if a, ok := ld.X.(*ssa.Alloc); ok && !w.carry[x.Val] {
							w.seqs = append(w.seqs, a)
							continue
						}
					}
				}
				if w.vary[x.Val] || w.carry[x.Val] || w.vary[x.Addr] || w.carry[x.Addr] {
					o.bad(w.f, x.Pos(), "what is stored depends on the order of the turns")
				}
			case *ssa.If:
				if b == w.head && w.exitIf(x) {
					continue
				}
				if w.carry[x.Cond] && !largestCond[x.Cond] {
					o.bad(w.f, w.at(x.Cond.Pos()), "what is done in a turn depends on earlier turns")
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				o.bad(w.f, in.Pos(), "the order of the turns shows in %s", strings.SplitN(in.String(), " ", 2)[0])
			case *ssa.Call:
				if dead(b, 0) {
					continue
				}
				w.call(x, updated, &effects)
			}
		}
	}
	for b := range w.body {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok {
				for m, k := range updated {
					if same(m, l.X) && !same(l.Index, k) {
						o.bad(w.f, l.Pos(), "a turn looks at what earlier turns put in the map")
					}
				}
			}
		}
	}
	// ways out
	var early []string
	for b := range w.body {
		for i, s := range b.Succs {
			if w.body[s] || dead(s, 0) {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b == w.head && w.exitIf(iff) && s == w.exit {
				continue
			}
			_ = i
			sig := w.outcome(b, s)
			early = append(early, sig)
		}
	}
	if len(early) > 0 {
		for _, e := range early[1:] {
			if e != early[0] {
				o.bad(w.f, w.at(token.NoPos), "the loop ends early in different ways")
			}
		}
		carried := false
		for _, in := range w.head.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && !w.skip[ph] {
				carried = true
			}
		}
		if effects > 0 || carried || len(w.cells) > 0 {
			o.bad(w.f, w.at(token.NoPos), "the loop ends early, after turns that left something behind")
		}
	}
	// what is computed in a turn is not used after the loop
	for b := range w.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !w.vary[v] && !w.carry[v] || v.Referrers() == nil {
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok && b == w.head && !w.skip[ph] {
				continue // judged by what becomes of it
			}
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); dbg || w.body[r.Block()] || dead(r.Block(), 0) {
					continue
				}
				if _, ok := v.(*ssa.Call); ok && w.isSeq(v) {
					continue
				}
				o.bad(w.f, w.at(r.Pos()), "what one of the turns found is used after the loop")
			}
		}
	}
	// lists it fills
	for _, s := range w.seqs {
		w.list(s)
	}
	for _, in := range w.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && !w.skip[ph] && w.phiSeq(ph) {
			w.o.unordered(w.f, ph, w.body)
		}
	}
}

func (w *walk) isSeq(v ssa.Value) bool {
	for _, s := range w.seqs {
		if s == v {
			return true
		}
	}
	return false
}

func (w *walk) phiSeq(ph *ssa.Phi) bool {
	ls := map[ssa.Value]bool{}
	for i, p := range w.head.Preds {
		if w.body[p] {
			w.leaves(ph.Edges[i], ls)
		}
	}
	for l := range ls {
		if w.isSeq(l) {
			return true
		}
	}
	return false
}

func (w *walk) list(s ssa.Value) {
	w.o.unordered(w.f, s, w.body)
	if ph, ok := s.(*ssa.Phi); ok {
		w.o.unordered(w.f, ph, w.body)
	}
}

func (w *walk) at(pos token.Pos) token.Pos {
	if pos.IsValid() {
		return pos
	}
	for _, in := range w.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return w.f.Pos()
}

func varName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return v.Name()
}

func baseAddr(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return a
		}
	}
}

// noteLargest marks the comparisons by which a variable ends as the largest.
func (w *walk) noteLargest(next []ssa.Value, is func(ssa.Value) bool, out map[ssa.Value]bool) {
	ls := map[ssa.Value]bool{}
	for _, n := range next {
		w.leaves(n, ls)
	}
	for l := range ls {
		if _, ok := l.(nilLeaf); ok || is(l) || constLike(l) {
			continue
		}
		if w.largest(l, is) {
			for b := range w.body {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && w.carry[iff.Cond] {
					out[iff.Cond] = true
				}
			}
		}
	}
}

// exitIf tells the test that ends the loop when all turns were taken.
func (w *walk) exitIf(x *ssa.If) bool {
	if ex, ok := x.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if n, ok := ex.Tuple.(*ssa.Next); ok && n.Block() == w.head {
			return true
		}
	}
	if b, ok := x.Cond.(*ssa.BinOp); ok {
		for ph := range w.skip {
			if mentions(b, ph, 0) {
				return true
			}
		}
	}
	return false
}

func mentions(v ssa.Value, what ssa.Value, n int) bool {
	if v == what {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || n > 4 {
		return false
	}
	var rands [16]*ssa.Value
	for _, r := range in.Operands(rands[:0]) {
		if *r != nil && mentions(*r, what, n+1) {
			return true
		}
	}
	return false
}

// outcome is what leaving the loop by an edge leads to.
func (w *walk) outcome(b, s *ssa.BasicBlock) string {
	out := fmt.Sprint("to ", s.Index)
	if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(s.Preds) == 1 && len(s.Instrs) <= 2 {
		out = "return"
		for _, r := range ret.Results {
			out += " " + outVal(r)
			if w.vary[r] || w.carry[r] {
				w.o.bad(w.f, w.at(ret.Pos()), "what is returned depends on which turn comes first")
			}
		}
		return out
	}
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range s.Preds {
			if p == b {
				out += " " + outVal(ph.Edges[i])
				if w.vary[ph.Edges[i]] {
					w.o.bad(w.f, w.at(ph.Pos()), "%s depends on which turn comes first", varName(ph))
				}
			}
		}
	}
	return out
}

func outVal(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return v.Name()
}

// call checks a call made in every turn.
func (w *walk) call(x *ssa.Call, updated map[ssa.Value]ssa.Value, effects *int) {
	o := w.o
	com := x.Common()
	arg := func() bool {
		for _, a := range com.Args {
			if w.vary[a] || w.carry[a] {
				return true
			}
		}
		return false
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			*effects++
			if w.carry[com.Args[1]] {
				o.bad(w.f, x.Pos(), "what is deleted depends on earlier turns")
			}
			updated[com.Args[0]] = com.Args[1]
		case "copy", "clear", "print", "println":
			*effects++
			if arg() {
				o.bad(w.f, x.Pos(), "the order of the turns shows in %s", b.Name())
			}
		case "append":
			// what becomes of the list is judged with the variable
		}
		return
	}
	if com.IsInvoke() {
		w.opaqueCall(x, com.Method.FullName())
		return
	}
	g := com.StaticCallee()
	if g == nil {
		w.opaqueCall(x, "a function value")
		return
	}
	if o.p.inModule(g) && g.Blocks != nil {
		if k, v, m, ok := inserts(g); ok {
			*effects++
			val := ssa.Value(nil)
			if v >= 0 {
				val = com.Args[v]
			}
			updated[com.Args[m]] = com.Args[k]
			if w.carry[com.Args[k]] || val != nil && w.carry[val] {
				o.bad(w.f, x.Pos(), "what is put in the map depends on earlier turns")
			} else if val != nil && w.vary[val] && !w.ownKey(com.Args[k]) {
				o.bad(w.f, x.Pos(), "turns may put different values under the same key")
			}
			return
		}
		if o.pure(g, map[*ssa.Function]bool{}) {
			return
		}
		w.opaqueCall(x, g.String())
		return
	}
	if pureExt(g) {
		return
	}
	w.opaqueCall(x, g.String())
}

func (w *walk) opaqueCall(x *ssa.Call, name string) {
	w.o.bad(w.f, x.Pos(), "the calls of %s come in the order of the turns", name)
}

// pureExt tells functions of other modules that change nothing.
func pureExt(g *ssa.Function) bool {
	pkg := funcPkg(g, nil)
	if purePkgs[pkg] {
		return true
	}
	switch g.String() {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "errors.New", "errors.Is":
		return true
	}
	return false
}

// inserts tells functions that put a parameter in a map that is a parameter.
func inserts(g *ssa.Function) (key, val, m int, ok bool) {
	val = -1
	param := func(v ssa.Value) int {
		for {
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
				continue
			}
			break
		}
		for i, p := range g.Params {
			if ssa.Value(p) == v {
				return i
			}
		}
		return -1
	}
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				n++
				key, m = param(x.Key), param(x.Map)
				if key < 0 || m < 0 {
					return 0, 0, 0, false
				}
				if !constLike(x.Value) {
					if val = param(x.Value); val < 0 {
						return 0, 0, 0, false
					}
				}
			case *ssa.Store, ssa.CallInstruction, *ssa.Send, *ssa.Lookup:
				return 0, 0, 0, false
			}
		}
	}
	return key, val, m, n == 1
}

// pure tells functions that change nothing that was there before.
func (o *orders) pure(g *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[g] {
		return true
	}
	busy[g] = true
	w := o.p.owners().fn[g]
	if w == nil || len(w.mods) > 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return false
			case ssa.CallInstruction:
				com := x.Common()
				if _, ok := com.Value.(*ssa.Builtin); ok {
					continue
				}
				if c := com.StaticCallee(); c != nil && !o.p.inModule(c) && !pureExt(c) {
					return false
				}
			}
		}
	}
	for _, c := range o.p.callees(g) {
		if !o.pure(c, busy) {
			return false
		}
	}
	return true
}

// sorts tells calls that put a list in an order of its elements.
func (o *orders) sorts(in ssa.Instruction, is func(ssa.Value) bool) bool {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
		return false
	}
	g := c.Call.StaticCallee()
	name := g.String()
	if og := g.Origin(); og != nil {
		name = og.String()
	}
	a := c.Call.Args[0]
	for {
		if m, ok := a.(*ssa.MakeInterface); ok {
			a = m.X
			continue
		}
		if m, ok := a.(*ssa.ChangeType); ok {
			a = m.X
			continue
		}
		break
	}
	if !is(a) {
		return false
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "(sort.StringSlice).Sort", "(sort.IntSlice).Sort", "(sort.Float64Slice).Sort":
		return true
	case "sort.Sort", "sort.Stable":
		m, ok := c.Call.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		t := tkey(m.X.Type())
		return t == "sort.StringSlice" || t == "sort.IntSlice" || t == "sort.Float64Slice"
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		var fn *ssa.Function
		switch x := c.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
			if n := fn.String(); strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare") {
				return true
			}
		}
		return fn != nil && wholeOrder(fn)
	}
	return false
}

// wholeOrder tells comparisons that look at the elements as a whole.
func wholeOrder(fn *ssa.Function) bool {
	elem := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Parameter:
			_, ok := x.Type().Underlying().(*types.Basic)
			return ok
		case *ssa.UnOp:
			ia, ok := x.X.(*ssa.IndexAddr)
			if !ok || x.Op != token.MUL {
				return false
			}
			_, ok = ia.Index.(*ssa.Parameter)
			return ok
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if (x.Op == token.LSS || x.Op == token.GTR) && elem(x.X) && elem(x.Y) && x.X != x.Y {
					if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
						return true
					}
				}
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && len(x.Call.Args) == 2 {
					n := c.String()
					if c.Origin() != nil {
						n = c.Origin().String()
					}
					if (n == "strings.Compare" || n == "cmp.Compare" || n == "cmp.Less") && elem(x.Call.Args[0]) && elem(x.Call.Args[1]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// unordered checks the uses of a list whose elements come in no order.
func (o *orders) unordered(f *ssa.Function, s ssa.Value, from map[*ssa.BasicBlock]bool) {
	k := fmt.Sprintf("list %p", s)
	if o.seenF[k] {
		return
	}
	o.seenF[k] = true
	// all that stands for the list
	set := map[ssa.Value]bool{s: true}
	cells := map[ssa.Value]bool{}
	if _, ok := s.(*ssa.Alloc); ok {
		cells[s] = true
		delete(set, s)
	}
	if ld, ok := s.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if a, ok := ld.X.(*ssa.Alloc); ok {
			cells[a] = true
		}
	}
	for ch := true; ch; {
		ch = false
		add := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				ch = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if set[e] {
							add(set, x)
						}
					}
				case *ssa.ChangeType:
					if set[x.X] {
						add(set, x)
					}
					if set[x] {
						add(set, x.X)
					}
				case *ssa.Slice:
					if set[x.X] && x.Low == nil && x.High == nil {
						add(set, x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[x.X] {
						add(set, x)
					}
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok && set[x.Val] {
						add(cells, a)
					}
				}
			}
		}
	}
	is := func(v ssa.Value) bool { return set[v] }
	var sorted []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if o.sorts(in, is) && !from[b] {
				sorted = append(sorted, in)
			}
		}
	}
	after := func(in ssa.Instruction) bool {
		for _, q := range sorted {
			if q == in {
				return true
			}
			if q.Block() == in.Block() {
				for _, x := range in.Block().Instrs {
					if x == q {
						return true
					}
					if x == in {
						break
					}
				}
			} else if q.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if from[b] {
			continue
		}
		for i, in := range b.Instrs {
			var rands [16]*ssa.Value
			uses := -1
			for j, r := range in.Operands(rands[:0]) {
				if *r != nil && (set[*r] || cells[*r]) {
					uses = j
				}
			}
			if uses < 0 || after(in) {
				continue
			}
			_ = i
			switch x := in.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Store:
				if set[x.Val] {
					if _, ok := x.Addr.(*ssa.Alloc); !ok {
						o.bad(f, x.Pos(), "a list in no particular order is kept")
					}
				} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok && set[ia.X] {
					o.bad(f, x.Pos(), "a list in no particular order is changed by position")
				}
			case *ssa.MakeInterface:
				ok := true
				for _, r := range *x.Referrers() {
					if _, d := r.(*ssa.DebugRef); !d && !o.sorts(r, is) {
						ok = false
					}
				}
				if !ok {
					o.bad(f, x.Pos(), "a list in no particular order is used as a value")
				}
			case *ssa.MakeClosure:
				for _, r := range *x.Referrers() {
					if c, ok := r.(*ssa.Call); !ok || !o.sorts(c, is) {
						o.bad(f, w0(x.Pos(), f), "a list in no particular order is captured")
					}
				}
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					o.bad(f, x.Pos(), "a part is taken of a list in no particular order")
				}
			case *ssa.IndexAddr:
				o.rangeOver(f, x, set)
			case *ssa.Return:
				for i, r := range x.Results {
					if set[r] {
						o.returned(f, i, x.Pos())
					}
				}
			case *ssa.BinOp:
				// compared with nil
			case ssa.CallInstruction:
				com := x.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap":
						continue
					case "append":
						if v := x.Value(); v != nil {
							o.unordered(f, v, from)
						}
						continue
					}
				}
				if o.sorts(in, is) {
					continue
				}
				if g := com.StaticCallee(); g != nil && o.p.inModule(g) && g.Blocks != nil {
					for j, a := range com.Args {
						if set[a] {
							o.unordered(g, g.Params[j], nil)
						}
					}
					continue
				}
				o.bad(f, in.Pos(), "a list in no particular order is passed on")
			default:
				o.bad(f, w0(in.Pos(), f), "a list in no particular order is used (%T)", in)
			}
		}
	}
}

func w0(pos token.Pos, f *ssa.Function) token.Pos {
	if pos.IsValid() {
		return pos
	}
	return f.Pos()
}

// returned follows a list in no particular order to the callers.
func (o *orders) returned(f *ssa.Function, i int, pos token.Pos) {
	if o.tainted[f] == nil {
		o.tainted[f] = map[int]bool{}
	}
	if o.tainted[f][i] {
		return
	}
	o.tainted[f][i] = true
	if exported(f) && !strings.Contains(funcPkg(f, nil), "/internal/") {
		o.bad(f, pos, "the list returned is in no particular order")
		return
	}
	for _, g := range o.p.everyF() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					if ci, ok := in.(ssa.CallInstruction); !ok || ci.Common().StaticCallee() != f {
						continue
					}
					continue
				}
				if c.Call.StaticCallee() != f {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					o.unordered(g, c, nil)
					continue
				}
				for _, r := range *c.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
						o.unordered(g, ex, nil)
					}
				}
			}
		}
	}
}

// rangeOver checks a loop over a list in no particular order.
func (o *orders) rangeOver(f *ssa.Function, ia *ssa.IndexAddr, set map[ssa.Value]bool) {
	l := o.p.enclosing(f, ia.Block())
	if l == nil {
		o.bad(f, ia.Pos(), "an element is taken of a list in no particular order")
		return
	}
	k := fmt.Sprintf("range %p", l)
	if o.seenF[k] {
		return
	}
	o.seenF[k] = true
	w := &walk{o: o, f: f, head: l.header, body: l.body, roots: map[ssa.Value]bool{}, unique: map[ssa.Value]bool{}, skip: map[*ssa.Phi]bool{}}
	// the counter
	idx := ia.Index
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx == ssa.Value(ph) || mentions(idx, ph, 2) {
			steps := true
			for i, p := range l.header.Preds {
				if l.body[p] {
					b, ok := ph.Edges[i].(*ssa.BinOp)
					if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
						steps = false
					}
				}
			}
			if steps {
				w.skip[ph] = true
			}
		}
	}
	if len(w.skip) == 0 {
		o.bad(f, ia.Pos(), "an element is taken of a list in no particular order")
		return
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.UnOp); ok && x.Op == token.MUL {
				if y, ok := x.X.(*ssa.IndexAddr); ok && set[y.X] && y.Index == idx {
					w.roots[x], w.unique[x] = true, true
				}
			}
		}
	}
	for _, s := range l.header.Succs {
		if !l.body[s] {
			w.exit = s
		}
	}
	// the position itself must not be used for anything else
	for ph := range w.skip {
		for _, v := range []ssa.Value{ph, idx} {
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.IndexAddr:
					if set[x.X] {
						continue
					}
				case *ssa.BinOp:
					if x == idx || x.Op == token.ADD && l.body[x.Block()] && backEdge(x, ph) {
						continue
					}
					switch x.Op {
					case token.LSS, token.GEQ, token.NEQ, token.EQL, token.GTR, token.LEQ:
						if x.Block() == l.header {
							continue
						}
					}
				case *ssa.Phi:
					if x == ph {
						continue
					}
				case *ssa.DebugRef:
					continue
				}
				o.bad(f, w.at(r.Pos()), "the position in a list in no particular order is used")
			}
		}
	}
	w.check()
}

func backEdge(x *ssa.BinOp, ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if e == ssa.Value(x) {
			return true
		}
	}
	return false
}

// mapRanges checks all loops over maps of a function.
func (o *orders) mapRanges(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			n++
			w := &walk{o: o, f: f, head: b, roots: map[ssa.Value]bool{}, unique: map[ssa.Value]bool{}, skip: map[*ssa.Phi]bool{}}
			l := o.p.headed(f, b)
			if l == nil {
				// one turn at most
				used := false
				for _, r := range *nx.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index > 0 && ex.Referrers() != nil && len(*ex.Referrers()) > 0 {
						used = true
					}
				}
				if used {
					o.bad(f, w.at(rg.Pos()), "one entry of a map is used, whichever comes first")
				}
				continue
			}
			w.body = l.body
			for _, r := range *nx.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index > 0 {
					w.roots[ex] = true
					if ex.Index == 1 {
						w.unique[ex] = true
					}
				}
			}
			for _, s := range b.Succs {
				if !l.body[s] {
					w.exit = s
				}
			}
			w.check()
		}
	}
	return n
}

// headed is the loop with a header.
func (p *Prog) headed(f *ssa.Function, b *ssa.BasicBlock) *natLoop {
	loops, _, _ := p.loopsOf(f)
	return loops[b]
}
