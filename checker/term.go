package main

// Termination, and panics.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// recovers tells whether a function's panics end in it: it defers, before any
// call, a closure that calls recover.
func (p *Prog) recovers(f *ssa.Function) *ssa.Function {
	if f.Blocks == nil || len(f.Blocks) == 0 {
		return nil
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Defer:
			var g *ssa.Function
			switch v := x.Call.Value.(type) {
			case *ssa.MakeClosure:
				g = v.Fn.(*ssa.Function)
			case *ssa.Function:
				g = v
			}
			if g == nil {
				return nil
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return g
						}
					}
				}
			}
		case ssa.CallInstruction:
			return nil
		}
	}
	return nil
}

// guard is the first statement of a function that defers a call of recover.
func (p *Prog) guard(f *ssa.Function) *ssa.Defer {
	for _, b := range f.DomPreorder() {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var g *ssa.Function
			switch v := x.Call.Value.(type) {
			case *ssa.MakeClosure:
				g = v.Fn.(*ssa.Function)
			case *ssa.Function:
				g = v
			}
			if g == nil {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return x
						}
					}
				}
			}
		}
	}
	return nil
}

// loose are the instructions that run before a function defers a recover:
// all of them if it does not.
func (p *Prog) loose(f *ssa.Function) (out []ssa.Instruction) {
	d := p.guard(f)
	for _, b := range f.Blocks {
		if d != nil && d.Block() != b && d.Block().Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			if in == ssa.Instruction(d) {
				break
			}
			out = append(out, in)
		}
	}
	return out
}

// loosePanics are the instructions that may panic that a function may reach
// outside of what is recovered, with the calls that lead there.
func (p *Prog) loosePanics(root *ssa.Function) map[ssa.Instruction][]*ssa.Function {
	out := map[ssa.Instruction][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, path []*ssa.Function)
	visit = func(f *ssa.Function, path []*ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		path = append(append([]*ssa.Function{}, path...), f)
		ins := p.loose(f)
		runs := map[ssa.CallInstruction]bool{}
		for _, in := range ins {
			if p.mayPanic(in) {
				out[in] = path
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				runs[c] = true
			}
		}
		d := p.guard(f)
		whole := d == nil
		if d != nil {
			// what recovers is recovered by nobody
			switch v := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				visit(v.Fn.(*ssa.Function), path)
			case *ssa.Function:
				visit(v, path)
			}
		}
		for _, g := range p.callsTo(f) {
			if whole || runs[g.site] {
				visit(g.to, path)
			}
		}
	}
	visit(root, nil)
	return out
}

// mayPanic: a panic statement, or an operation on what only some values have.
func (p *Prog) mayPanic(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Panic:
		return true
	case *ssa.IndexAddr:
		return !inRange(x.X, x.Index, x.Block())
	case *ssa.Index:
		return !inRange(x.X, x.Index, x.Block())
	case *ssa.Lookup:
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return !isMap && !inRange(x.X, x.Index, x.Block())
	case *ssa.Slice:
		for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil && !inRange(x.X, v, x.Block()) && !isLen(v, x.X) && !isZero(v) {
				if k, ok := v.(*ssa.Const); ok && within(x.X, x.Block(), k.Int64()-1) {
					continue
				}
				return true
			}
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			return false
		}
		ts, ok := p.dynTypes(x.X, map[ssa.Value]bool{})
		for _, t := range ts {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = ok && types.Implements(t, it)
			} else {
				ok = ok && types.Identical(t, x.AssertedType)
			}
		}
		return !ok || len(ts) == 0
	case *ssa.BinOp:
		if x.Op != token.QUO && x.Op != token.REM || !isInteger(x.X.Type()) {
			return false
		}
		k, ok := x.Y.(*ssa.Const)
		return !ok || k.Value == nil || constant.Sign(constant.ToInt(k.Value)) == 0
	case *ssa.MakeSlice:
		for _, v := range []ssa.Value{x.Len, x.Cap} {
			if !nonNegative(v, map[ssa.Value]bool{}) {
				return true
			}
		}
	case ssa.CallInstruction:
		if g := x.Common().StaticCallee(); g != nil && funcPkg(g, nil) == "log" && strings.HasPrefix(g.Name(), "Panic") {
			return true
		}
	}
	return false
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && constant.Sign(constant.ToInt(k.Value)) == 0
}

// sameValue: equal as values computed alike from what does not change.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X) && sameValue(x.Y, y.Y)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || len(x.Call.Args) != 1 || len(y.Call.Args) != 1 {
			return false
		}
		f, ok1 := x.Call.Value.(*ssa.Builtin)
		g, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == g.Name() && sameValue(x.Call.Args[0], y.Call.Args[0])
	}
	return false
}

// isLen: the length of x, as such or as the number it was made with.
func isLen(v, x ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && sameValue(c.Call.Args[0], x) {
			return true
		}
	}
	if m, ok := x.(*ssa.MakeSlice); ok {
		return sameValue(m.Len, v)
	}
	return false
}

func nonNegative(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && constant.Sign(constant.ToInt(x.Value)) >= 0
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.SHR, token.QUO:
			return nonNegative(x.X, seen) && nonNegative(x.Y, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !nonNegative(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// facts are the comparisons known to hold where a block starts.
func facts(b *ssa.BasicBlock, do func(op token.Token, x, y ssa.Value)) {
	neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
	swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		q := d.Preds[0]
		i, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok || q.Succs[0] == q.Succs[1] {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || neg[c.Op] == 0 {
			continue
		}
		op := c.Op
		if d == q.Succs[1] {
			op = neg[op]
		}
		do(op, c.X, c.Y)
		do(swap[op], c.Y, c.X)
	}
}

// within: x is known to have an element k (k >= 0) in block b; none is
// needed for k = -1.
func within(x ssa.Value, b *ssa.BasicBlock, k int64) bool {
	if k < 0 {
		return k == -1
	}
	t := x.Type().Underlying()
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return k < a.Len()
	}
	if m, ok := x.(*ssa.MakeSlice); ok {
		if n, ok := m.Len.(*ssa.Const); ok && n.Int64() > k {
			return true
		}
	}
	yes := false
	facts(b, func(op token.Token, v, y ssa.Value) {
		if str, ok := y.(*ssa.Const); ok && op == token.NEQ && str.Value != nil && str.Value.Kind() == constant.String && constant.StringVal(str.Value) == "" && k == 0 && sameValue(v, x) {
			yes = true
		}
		if !isLen(v, x) {
			return
		}
		n, ok := y.(*ssa.Const)
		if !ok {
			return
		}
		switch op {
		case token.GTR:
			yes = yes || n.Int64() >= k
		case token.GEQ, token.EQL:
			yes = yes || n.Int64() > k
		case token.NEQ:
			yes = yes || n.Int64() == 0 && k == 0
		}
	})
	return yes
}

// inRange: the index i of x is known to be one in block b.
func inRange(x, i ssa.Value, b *ssa.BasicBlock) bool {
	if k, ok := i.(*ssa.Const); ok {
		return k.Int64() >= 0 && within(x, b, k.Int64())
	}
	// len(x)-k
	if o, ok := i.(*ssa.BinOp); ok && o.Op == token.SUB && isLen(o.X, x) {
		if k, ok := o.Y.(*ssa.Const); ok && k.Int64() >= 1 {
			return within(x, b, k.Int64()-1)
		}
	}
	below, above := false, nonNegative(i, map[ssa.Value]bool{})
	if o, ok := i.(*ssa.BinOp); ok && o.Op == token.ADD {
		// the index of a range loop: one more than what started at -1
		if ph, ok := o.X.(*ssa.Phi); ok && constIs(o.Y, 1) {
			okay := true
			for _, e := range ph.Edges {
				okay = okay && (e == ssa.Value(o) || constIs(e, -1) || nonNegative(e, map[ssa.Value]bool{}))
			}
			above = above || okay
		}
	}
	if ph, ok := i.(*ssa.Phi); ok {
		// counting down: from one below the length
		up, down := true, true
		for _, e := range ph.Edges {
			o, ok := e.(*ssa.BinOp)
			step := ok && o.X == ssa.Value(ph)
			last := ok && o.Op == token.SUB && isLen(o.X, x) && constIs(o.Y, 1)
			down = down && (last || step && o.Op == token.SUB && nonNegative(o.Y, map[ssa.Value]bool{}))
			up = up && (nonNegative(e, map[ssa.Value]bool{}) || step && o.Op == token.ADD && nonNegative(o.Y, map[ssa.Value]bool{}))
		}
		below, above = below || down, above || up
		// counting the keys of a map whose number it was made for
		m, ok := x.(*ssa.MakeSlice)
		if ok && up {
			for _, in := range ph.Block().Instrs {
				n, ok := in.(*ssa.Next)
				if !ok || n.IsString {
					continue
				}
				r := n.Iter.(*ssa.Range)
				c, ok := m.Len.(*ssa.Call)
				if !ok {
					continue
				}
				one := true
				for j, e := range ph.Edges {
					o, ok := e.(*ssa.BinOp)
					one = one && (isZero(e) || ok && o.X == ssa.Value(ph) && constIs(o.Y, 1) || ph.Block().Preds[j] == nil)
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && sameValue(c.Call.Args[0], r.X) && one {
					below = true
				}
			}
		}
	}
	facts(b, func(op token.Token, v, y ssa.Value) {
		if !sameValue(v, i) {
			return
		}
		if isLen(y, x) && op == token.LSS {
			below = true
		}
		t := x.Type().Underlying()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem().Underlying()
		}
		k, isK := y.(*ssa.Const)
		if isK && k.Value != nil {
			if a, ok := t.(*types.Array); ok && (op == token.LSS && k.Int64() <= a.Len() || op == token.LEQ && k.Int64() < a.Len()) {
				below = true
			}
			switch op {
			case token.GEQ:
				above = above || k.Int64() >= 0
			case token.GTR:
				above = above || k.Int64() >= -1
			}
		}
	})
	return below && above
}

func constIs(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == n
}

// dynTypes are the types of what an interface value may hold besides nil.
func (p *Prog) dynTypes(v ssa.Value, seen map[ssa.Value]bool) (out []types.Type, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	all := func(vs ...ssa.Value) ([]types.Type, bool) {
		var ts []types.Type
		for _, w := range vs {
			t, ok := p.dynTypes(w, seen)
			if !ok {
				return nil, false
			}
			ts = append(ts, t...)
		}
		return ts, true
	}
	result := func(c *ssa.Call, i int) ([]types.Type, bool) {
		g := c.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !p.inModule(g) {
			return nil, false
		}
		var vs []ssa.Value
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
					vs = append(vs, r.Results[i])
				}
			}
		}
		return all(vs...)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}, true
	case *ssa.ChangeInterface:
		return all(x.X)
	case *ssa.TypeAssert:
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.Call:
		return result(x, 0)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return result(t, x.Index)
		case *ssa.TypeAssert:
			return all(t.X)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		var vs []ssa.Value
		var stores func(a ssa.Value) bool
		stores = func(a ssa.Value) bool {
			for _, ref := range *a.Referrers() {
				switch r := ref.(type) {
				case *ssa.Store:
					if r.Addr != a {
						return false
					}
					vs = append(vs, r.Val)
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					for i, b := range r.Bindings {
						if b == a && !stores(r.Fn.(*ssa.Function).FreeVars[i]) {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		if a, ok := x.X.(*ssa.Alloc); ok && stores(a) {
			return all(vs...)
		}
	}
	return nil, false
}

// ---- loops

// loopEnds tells why a loop stops by counting, or "".
func (p *Prog) loopEnds(f *ssa.Function, l *natLoop) string {
	var latches []*ssa.BasicBlock
	for _, q := range l.header.Preds {
		if l.body[q] {
			latches = append(latches, q)
		}
	}
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
			continue
		}
		dom := true
		for _, q := range latches {
			dom = dom && b.Dominates(q)
		}
		if !dom {
			continue
		}
		c := i.Cond
		stay := l.body[b.Succs[0]] // the value of c on which the loop goes on
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, stay = u.X, !stay
		}
		switch c := c.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && stay {
				return "ranges over a map or string"
			}
		case *ssa.BinOp:
			for _, sw := range []bool{false, true} {
				x, y, op := c.X, c.Y, c.Op
				if sw {
					x, y = y, x
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
				}
				if !stay {
					op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
				}
				if !p.invariant(l, y) {
					continue
				}
				if op == token.GTR || op == token.NEQ || op == token.GEQ {
					if shrinks(l, x, y, op) {
						return "takes a sequence apart until it is empty"
					}
				}
				lo, hi, ok := step(l, x)
				if !ok {
					continue
				}
				switch {
				case lo > 0 && (op == token.LSS || op == token.LEQ):
					return "counts up to a bound"
				case hi < 0 && (op == token.GTR || op == token.GEQ):
					return "counts down to a bound"
				case op == token.NEQ && lo == hi && (lo == 1 || lo == -1):
					return "counts to a value"
				}
			}
		}
	}
	return ""
}

// shrinks: x op y says that a sequence which every iteration takes a part
// off is not empty.
func shrinks(l *natLoop, x, y ssa.Value, op token.Token) bool {
	c, ok := y.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	seq := x
	if call, ok := x.(*ssa.Call); ok {
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || c.Value.Kind() != constant.Int {
			return false
		}
		if n, _ := constant.Int64Val(c.Value); n < 0 || n == 0 && op == token.GEQ {
			return false
		}
		seq = call.Call.Args[0]
	} else if op != token.NEQ || c.Value.Kind() != constant.String || constant.StringVal(c.Value) != "" {
		return false
	}
	phi, ok := seq.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return false
	}
	positive := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return false
		}
		n, _ := constant.Int64Val(c.Value)
		return n > 0
	}
	var less func(v ssa.Value, d int) bool
	less = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if !l.body[v.Block()] || v == phi {
				return false
			}
			for _, e := range v.Edges {
				if !less(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			if v.X != phi {
				return less(v.X, d+1)
			}
			if v.Low != nil && positive(v.Low) {
				return true
			}
			if b, ok := v.High.(*ssa.BinOp); ok && b.Op == token.SUB && positive(b.Y) {
				if call, ok := b.X.(*ssa.Call); ok && call.Call.Args[0] == ssa.Value(phi) {
					f, ok := call.Call.Value.(*ssa.Builtin)
					return ok && f.Name() == "len"
				}
			}
		case *ssa.ChangeType:
			return less(v.X, d+1)
		}
		return false
	}
	for i, q := range l.header.Preds {
		if l.body[q] && !less(phi.Edges[i], 0) {
			return false
		}
	}
	return true
}

func (p *Prog) invariant(l *natLoop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.body[x.Block()] {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return p.invariant(l, x.Call.Args[0])
		}
	case *ssa.BinOp:
		return p.invariant(l, x.X) && p.invariant(l, x.Y)
	case *ssa.Convert:
		return p.invariant(l, x.X)
	case *ssa.ChangeType:
		return p.invariant(l, x.X)
	case *ssa.Field:
		return p.invariant(l, x.X)
	case *ssa.FieldAddr:
		return p.invariant(l, x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return p.invariant(l, x.X)
		}
		if !p.invariant(l, x.X) {
			return false
		}
		fa, _ := x.X.(*ssa.FieldAddr)
		for b := range l.body {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if s.Addr == x.X {
						return false
					}
					if g, ok := s.Addr.(*ssa.FieldAddr); ok && fa != nil && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type()) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// step is by how much, at least and at most, a value changes per iteration.
func step(l *natLoop, v ssa.Value) (lo, hi int64, ok bool) {
	if !isInteger(v.Type()) {
		return 0, 0, false
	}
	var phi *ssa.Phi
	var find func(v ssa.Value, d int) bool
	find = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.header {
				phi = x
				return true
			}
			for _, e := range x.Edges {
				if !find(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			_, c := x.Y.(*ssa.Const)
			return (x.Op == token.ADD || x.Op == token.SUB) && c && find(x.X, d+1)
		case *ssa.Convert:
			return isInteger(x.X.Type()) && find(x.X, d+1)
		}
		return false
	}
	if !find(v, 0) || phi == nil {
		return 0, 0, false
	}
	var delta func(v ssa.Value, d int) (lo, hi int64, ok bool)
	delta = func(v ssa.Value, d int) (int64, int64, bool) {
		if v == phi {
			return 0, 0, true
		}
		if d > 12 {
			return 0, 0, false
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			c, isC := x.Y.(*ssa.Const)
			if !isC || x.Op != token.ADD && x.Op != token.SUB || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			n, _ := constant.Int64Val(c.Value)
			if x.Op == token.SUB {
				n = -n
			}
			a, b, ok := delta(x.X, d+1)
			return a + n, b + n, ok
		case *ssa.Phi:
			if !l.body[x.Block()] || x.Block() == l.header {
				return 0, 0, false
			}
			first := true
			var lo, hi int64
			for _, e := range x.Edges {
				a, b, ok := delta(e, d+1)
				if !ok {
					return 0, 0, false
				}
				if first {
					lo, hi, first = a, b, false
				} else {
					lo, hi = min(lo, a), max(hi, b)
				}
			}
			return lo, hi, !first
		}
		return 0, 0, false
	}
	first := true
	for i, q := range l.header.Preds {
		if !l.body[q] {
			continue
		}
		a, b, k := delta(phi.Edges[i], 0)
		if !k {
			return 0, 0, false
		}
		if first {
			lo, hi, first = a, b, false
		} else {
			lo, hi = min(lo, a), max(hi, b)
		}
	}
	return lo, hi, !first
}

// ---- recursion

// descends tells whether a call hands over, as one of its arguments, a proper
// part of something the caller was given.
func descends(f *ssa.Function, site ssa.CallInstruction) bool {
	com := site.Common()
	vals := append([]ssa.Value{}, com.Args...)
	if com.IsInvoke() {
		vals = append(vals, com.Value)
	}
	for _, v := range vals {
		if !mayHoldParts(v.Type()) {
			continue
		}
		if partOf(v, map[ssa.Value]bool{}) == 2 {
			return true
		}
	}
	return false
}

func mayHoldParts(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice:
		return true
	}
	return false
}

// partOf: 2 for a proper part of a parameter, 1 for a parameter, 0 otherwise.
func partOf(v ssa.Value, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 3 // decided by the other edges
	}
	seen[v] = true
	defer delete(seen, v)
	more := func(x ssa.Value) int {
		switch partOf(x, seen) {
		case 0:
			return 0
		case 3:
			return 3
		}
		return 2
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return 1
	case *ssa.TypeAssert:
		return partOf(x.X, seen)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return more(r.X)
			}
		}
		return partOf(x.Tuple, seen)
	case *ssa.ChangeType:
		return partOf(x.X, seen)
	case *ssa.ChangeInterface:
		return partOf(x.X, seen)
	case *ssa.MakeInterface:
		return partOf(x.X, seen)
	case *ssa.Slice:
		return partOf(x.X, seen)
	case *ssa.Field:
		return more(x.X)
	case *ssa.FieldAddr:
		return more(x.X)
	case *ssa.IndexAddr:
		return more(x.X)
	case *ssa.Index:
		return more(x.X)
	case *ssa.Lookup:
		return more(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				// a variable: what is stored in it
				r := 3
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						r = min(r, partOf(s.Val, seen))
					}
				}
				if r == 3 {
					return 0
				}
				return r
			}
			return partOf(x.X, seen)
		}
	case *ssa.Phi:
		r := 3
		for _, e := range x.Edges {
			r = min(r, partOf(e, seen))
		}
		return r
	case *ssa.Call:
		// an accessor of a part: a method without arguments
		com := x.Call
		if com.IsInvoke() && len(com.Args) == 0 {
			return more(com.Value)
		}
		if g := com.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(com.Args) == 1 && len(g.Blocks) == 1 {
			return more(com.Args[0])
		}
	}
	return 0
}

// callsTo are the calls of a function by callee.
func (p *Prog) callsTo(f *ssa.Function) (out []struct {
	site ssa.CallInstruction
	to   *ssa.Function
}) {
	add := func(s ssa.CallInstruction, g *ssa.Function) {
		if g != nil && p.inModule(g) && g.Blocks != nil {
			out = append(out, struct {
				site ssa.CallInstruction
				to   *ssa.Function
			}{s, g})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if com.IsInvoke() {
				it, _ := com.Value.Type().Underlying().(*types.Interface)
				for _, T := range p.impls(it) {
					add(c, p.method(T, com.Method))
				}
				continue
			}
			switch v := com.Value.(type) {
			case *ssa.Builtin:
				continue
			case *ssa.Function:
				add(c, v)
				if p.inModule(v) && v.Blocks != nil {
					continue
				}
			case *ssa.MakeClosure:
				add(c, v.Fn.(*ssa.Function))
				continue
			default:
				// any function of the type whose value is taken somewhere
				for _, g := range p.taken()[sigKey(v.Type())] {
					add(c, g)
				}
				continue
			}
			// functions given to others run as part of this one
			for _, a := range com.Args {
				switch v := a.(type) {
				case *ssa.Function:
					add(nil, v)
				case *ssa.MakeClosure:
					add(nil, v.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

// taken are the functions used as values, by the type of function.
func (p *Prog) taken() map[string][]*ssa.Function {
	if p.takenM != nil {
		return p.takenM
	}
	p.takenM = map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function, t types.Type) {
		if !seen[g] {
			seen[g] = true
			p.takenM[sigKey(t)] = append(p.takenM[sigKey(t)], g)
		}
	}
	for _, f := range p.everyF() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), mc.Type())
					continue
				}
				c, isCall := in.(ssa.CallInstruction)
				var rands [16]*ssa.Value
				for _, v := range in.Operands(rands[:0]) {
					if g, ok := (*v).(*ssa.Function); ok && !(isCall && c.Common().Value == *v && !c.Common().IsInvoke()) {
						add(g, g.Signature)
					}
				}
			}
		}
	}
	return p.takenM
}

func (p *Prog) reachable(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range p.callees(f) {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return out
}

func (p *Prog) entries() []*ssa.Function {
	return []*ssa.Function{p.Func(modPath, "ParseExpr"), p.Func(modPath+"/mtex", "Parse"), p.Func(modPath+"/mtex", "Render")}
}

func (p *Prog) library(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := funcPkg(f, nil)
	return pk != specPath && !strings.HasPrefix(pk, modPath+"/cmd/")
}

type nestedCall struct {
	from, at *V
	depth    map[*V]*V // counters: before, now
	g        *V
	after    *V // that the counter is not as before on return
	where    string
}

var dbgNest = os.Getenv("VFNEST") != ""

func init() {
	addRule("C01", "panics end in the entry points", 4, func(c *Ctx) {
		p := c.P
		const r = "panics end in the entry points"
		for _, f := range p.entries() {
			c.Funcs[f.String()] = true
			ps := p.loosePanics(f)
			n := 0
			for x, path := range ps {
				if !p.library(x.Parent()) {
					continue
				}
				n++
				var s []string
				for _, g := range path {
					s = append(s, g.String())
				}
				c.bad(r, f.Name()+" "+x.Parent().String(), p.posStr(x.Pos()), "a panic here reaches the caller of "+f.String()+" through "+strings.Join(s, " -> "))
			}
			if n == 0 {
				c.ok(r, f.String())
			}
		}
		for _, f := range p.reachable(p.entries()...) {
			if !p.library(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					// a panic in a goroutine ends the process unless it is recovered there
					x, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					var fns []*ssa.Function
					if g := x.Call.StaticCallee(); g != nil {
						fns = []*ssa.Function{g}
					}
					ok = len(fns) > 0
					for _, g := range fns {
						ok = ok && (!p.inModule(g) || p.recovers(g) != nil)
					}
					c.check(ok, r, f.Name()+" go", p.posStr(x.Pos()), "a panic in the goroutine started here is not recovered in it")
				}
			}
		}
		done := map[*ssa.Function]bool{}
		for _, f := range p.reachable(p.entries()...) {
			g := p.recovers(f)
			if g == nil || done[g] || !p.library(f) {
				continue
			}
			done[g] = true
			c.Funcs[f.String()] = true
			p.recoverSets(c, r, f, g, false)
		}
		for _, f := range p.entries() {
			p.eitherOr(c, r, f, map[*ssa.Function]bool{})
		}
	})
	addRule("C01", "loops end", 10, func(c *Ctx) {
		p := c.P
		const r = "loops end"
		u := NewUniv()
		_ = u
		// the parser's loops, analysed over the stream of tokens
		found := map[string]string{} // function and header block
		var nested []nestedCall
		p.nestedLog = &nested
		var eng *Eng
		p.engHook = func(e *Eng) { eng = e }
		var broken []string
		for _, pr := range p.pairs("C03") {
			nested = nil
			comparePair(p, pr, c.Globals, nil)
			for _, lp := range eng.Loops {
				if !p.library(lp.Fn) {
					continue
				}
				k := fmt.Sprintf("%s.%d", lp.Fn, lp.Header)
				if lp.N != nil {
					if found[k] == "" {
						found[k] = "is counted"
					}
					continue
				}
				if why := streamEnds(eng, lp, p); why != "" {
					found[k] = "consumes input: " + why
				} else {
					broken = append(broken, k)
					found[k] = "!"
				}
			}
			for _, n := range nested {
				k := pr.name + " " + n.where
				if n.after != nil {
					c.check(n.after == eng.U.False, "the depth is that of the node again after it", k, n.where, "the nesting depth after a node may differ from that before it: the bound on it does not hold")
					continue
				}
				c.check(consumes(n.at, n.from) || eng.onward(n.at, n.from), "a nested parse starts further on", k, n.where, "a nested parse may start where the enclosing one did: "+n.at.String())
				if dbgNest {
					fmt.Println(k, n.at, n.g)
					for b, v := range n.depth {
						fmt.Println("   ", b, v)
					}
				}
				okay := len(n.depth) > 0
				bounded := false
				for b, v := range n.depth {
					d := eng.U.Sub(v, b, b.typ)
					if x, ok := d.intConst(); !ok || x < 1 {
						continue
					}
					g := eng.U.Subst(n.g, map[*V]*V{b: eng.U.Const(constant.MakeInt64(100000), b.typ)})
					if g == eng.U.False {
						bounded = true
					}
				}
				c.check(okay && bounded, "nesting is bounded", k, n.where, "nothing bounds how deeply nodes are nested: the stack may be exhausted")
			}
		}
		p.nestedLog, p.engHook = nil, nil
		for _, f := range p.reachable(p.entries()...) {
			if !p.library(f) {
				continue
			}
			ls, _, _ := p.loopsOf(f)
			if len(ls) > 0 {
				c.Funcs[f.String()] = true
			}
			for _, l := range ls {
				k := fmt.Sprintf("%s.%d", f, l.header.Index)
				where := p.posStr(f.Pos())
				for _, in := range l.header.Instrs {
					if in.Pos().IsValid() {
						where = p.posStr(in.Pos())
						break
					}
				}
				if why := found[k]; why != "" && why != "!" {
					c.ok(r, k+" "+why)
				} else if why := p.loopEnds(f, l); why != "" {
					c.ok(r, k+" "+why)
				} else {
					c.bad(r, k, where, "nothing shows that this loop ends: it neither counts nor consumes input until the end of it")
				}
			}
		}
	})
	addRule("C01", "recursion goes down", 3, func(c *Ctx) {
		p := c.P
		const r = "recursion goes down"
		head := p.parseRoles().head
		fs := p.reachable(p.entries()...)
		// a cycle of calls none of which goes down
		state := map[*ssa.Function]int{}
		var stack []*ssa.Function
		n := 0
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			state[f] = 1
			stack = append(stack, f)
			for _, x := range p.callsTo(f) {
				if !p.library(x.to) || x.to == head {
					continue // the parser's recursion is bounded by its depth
				}
				if x.site != nil && descends(f, x.site) {
					continue
				}
				if state[x.to] == 1 {
					var s []string
					for i := len(stack) - 1; i >= 0; i-- {
						s = append([]string{stack[i].String()}, s...)
						if stack[i] == x.to {
							break
						}
					}
					pos := f.Pos()
					if x.site != nil {
						pos = x.site.Pos()
					}
					c.bad(r, f.String()+" -> "+x.to.String(), p.posStr(pos), "nothing shows that this recursion ends: "+strings.Join(s, " -> ")+" -> "+x.to.String()+" hands on no part of what it was given")
				} else if state[x.to] == 0 {
					visit(x.to)
				}
			}
			state[f] = 2
			stack = stack[:len(stack)-1]
			n++
		}
		for _, f := range fs {
			if state[f] == 0 && p.library(f) {
				visit(f)
			}
		}
		for _, f := range fs {
			if p.library(f) {
				for _, x := range p.callsTo(f) {
					if x.site != nil && descends(f, x.site) {
						c.Counts["calls that go down"]++
					}
				}
			}
		}
		c.Counts["functions"] += n
		if c.Counts["calls that go down"] > 0 {
			for _, f := range fs[:3] {
				c.ok(r, f.String())
			}
		}
	})
}

// eitherOr checks that a function returns no result together with an error.
func (p *Prog) eitherOr(c *Ctx, r string, f *ssa.Function, seen map[*ssa.Function]bool) {
	res := f.Signature.Results()
	if seen[f] || f.Blocks == nil || res.Len() != 2 || !types.Identical(res.At(1).Type(), types.Universe.Lookup("error").Type()) {
		return
	}
	seen[f] = true
	// the value a variable shared with a deferred function has on return
	stored := func(v ssa.Value) ssa.Value {
		l, ok := v.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			return v
		}
		var last ssa.Value
		for _, in := range l.Block().Instrs {
			if in == ssa.Instruction(l) {
				break
			}
			if s, ok := in.(*ssa.Store); ok && s.Addr == l.X {
				last = s.Val
			}
		}
		return last
	}
	var isNil func(v ssa.Value, b *ssa.BasicBlock) bool
	isNil = func(v ssa.Value, b *ssa.BasicBlock) bool {
		if k, ok := v.(*ssa.Const); ok {
			return k.Value == nil
		}
		if m, ok := v.(*ssa.ChangeInterface); ok {
			return isNil(m.X, b)
		}
		for d := b; d.Idom() != nil; d = d.Idom() {
			i, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			q, ok := i.Cond.(*ssa.BinOp)
			if !ok || len(d.Preds) != 1 {
				continue
			}
			k, ok := q.Y.(*ssa.Const)
			x := q.X
			if !ok {
				k, ok = q.X.(*ssa.Const)
				x = q.Y
			}
			if !ok || k.Value != nil || stored(x) != v && x != v {
				continue
			}
			if q.Op == token.NEQ && d == i.Block().Succs[1] || q.Op == token.EQL && d == i.Block().Succs[0] {
				return true
			}
		}
		return false
	}
	var fine func(v, err ssa.Value, b *ssa.BasicBlock, d int) bool
	fine = func(v, err ssa.Value, b *ssa.BasicBlock, d int) bool {
		if v == nil || err == nil || d > 6 {
			return true // not known here: undecided by this rule
		}
		if x, ok := v.(*ssa.Const); ok && x.Value == nil {
			if y, ok := err.(*ssa.Const); ok && y.Value == nil {
				return false // neither
			}
		}
		if isNil(err, b) || isNil(v, b) {
			return true
		}
		if m, ok := v.(*ssa.ChangeInterface); ok {
			return fine(m.X, err, b, d+1)
		}
		x, ok1 := v.(*ssa.Extract)
		y, ok2 := err.(*ssa.Extract)
		if ok1 && ok2 && x.Tuple == y.Tuple {
			if call, ok := x.Tuple.(*ssa.Call); ok {
				for _, g := range p.callsTo(f) {
					if g.site == ssa.CallInstruction(call) {
						p.eitherOr(c, r, g.to, seen)
					}
				}
			}
			return true
		}
		a, ok1 := v.(*ssa.Phi)
		q, ok2 := err.(*ssa.Phi)
		switch {
		case ok1 && ok2 && a.Block() == q.Block():
			for i, pb := range a.Block().Preds {
				if !fine(a.Edges[i], q.Edges[i], pb, d+1) {
					return false
				}
			}
			return true
		case ok1:
			for i, pb := range a.Block().Preds {
				if !fine(a.Edges[i], err, pb, d+1) {
					return false
				}
			}
			return true
		case ok2:
			for i, pb := range q.Block().Preds {
				if !fine(v, q.Edges[i], pb, d+1) {
					return false
				}
			}
			return true
		}
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			return true // not known here
		}
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		c.check(fine(stored(ret.Results[0]), stored(ret.Results[1]), b, 0), r, fmt.Sprintf("%s returns a result or an error", f), p.posStr(ret.Pos()), "what is returned here may be a result together with an error, or neither")
	}
}

// recoverSets checks that a recovering function turns a panic into an error.
func (p *Prog) recoverSets(c *Ctx, r string, f, g *ssa.Function, cause bool) {
	var shared, given []ssa.Value // variables it captures, what it is given
	for _, in := range f.Blocks[0].Instrs {
		if d, ok := in.(*ssa.Defer); ok {
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				shared = mc.Bindings
			}
			given = d.Call.Args
			break
		}
	}
	key := f.String() + " turns panics into errors"
	where := p.posStr(g.Pos())
	if len(shared)+len(given) == 0 {
		c.bad(r, key, where, "the recovering function can not set the results")
		return
	}
	u := NewUniv()
	e := NewEng(p, u, Cfg{})
	e.Recovered = u.Sym("recovered", types.NewInterfaceType(nil, nil))
	u.NonNil = func(v *V) bool { return v == e.Recovered }
	st := newState()
	var binds, args []*V
	cell := map[*ssa.Alloc]*V{}
	for i, b := range append(append([]ssa.Value{}, shared...), given...) {
		out := &binds
		if i >= len(shared) {
			out = &args
		}
		if _, ok := b.Type().Underlying().(*types.Pointer); !ok {
			*out = append(*out, u.Sym(fmt.Sprintf("given%d", i), b.Type()))
			continue
		}
		a := u.Alloc(fmt.Sprintf("cell%d", i), derefT(b.Type()))
		if al, ok := b.(*ssa.Alloc); ok {
			cell[al] = a
		}
		e.storeAt(st, a, "", u.Sym(fmt.Sprintf("before%d", i), derefT(b.Type())), derefT(b.Type()))
		*out = append(*out, a)
	}
	_, back, st2 := e.evalFn(g, args, binds, st, u.True, "")
	if !cause && back != u.True {
		c.bad(r, f.String()+" recovers from every panic", where, "the recovering function may panic itself: it returns only under "+back.String())
	}
	// the results returned after recovery: named results
	res := f.Signature.Results()
	var named []*ssa.Alloc
	if f.Recover != nil {
		for _, in := range f.Recover.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, v := range ret.Results {
					l, _ := v.(*ssa.UnOp)
					var a *ssa.Alloc
					if l != nil {
						a, _ = l.X.(*ssa.Alloc)
					}
					named = append(named, a)
				}
			}
		}
	}
	errT := types.Universe.Lookup("error").Type()
	okay := false
	for i := 0; i < res.Len(); i++ {
		var v *V
		if i < len(named) && named[i] != nil {
			if a := cell[named[i]]; a != nil {
				v = e.loadAt(st2, a, "", res.At(i).Type())
			}
		}
		if types.Identical(res.At(i).Type(), errT) {
			if cause {
				all := v != nil
				if all {
					for _, l := range u.Leaves(v) {
						all = all && Contains(l.val, func(q *V) bool { return q == e.Recovered })
					}
				}
				c.check(all, r, f.String()+" tells what went wrong", where, "the error made of a panic says nothing of it")
				return
			}
			if v != nil && v.op != OSym && u.Eq(v, u.Nil(errT)) == u.False {
				okay = true
			} else if v != nil && (v.op == OIface || v.op == OApp) {
				okay = true
			}
			continue
		}
		if v == nil || !v.isNilConst() {
			c.bad(r, key+fmt.Sprintf(" (result %d)", i), where, "after a panic a result may be returned together with the error")
			return
		}
	}
	c.check(okay, r, key, where, "after a panic the error returned may be nil")
}

// consumes tells whether a place of the stream lies beyond another one.
func consumes(at, from *V) bool {
	if at.op == OIte {
		return consumes(at.args[1], from) && consumes(at.args[2], from)
	}
	for d := 0; at.op == OApp && len(at.args) > 0; d++ {
		if at.s == "adv" || at.s == "scan" {
			return true
		}
		if at.s != "rest" {
			return false
		}
		at = at.args[0]
	}
	return false
}

// onward: all values of a variable of a loop lie beyond a place.
func (e *Eng) onward(at, from *V) bool {
	v := e.LVars[at]
	return v != nil && v.Init != nil && v.Next != nil && consumes(v.Init, from) && consumes(v.Next, from)
}

// streamEnds tells whether every iteration of a loop consumes input, and none
// goes on at its end.
func streamEnds(e *Eng, lp *Loop, p *Prog) string {
	u := e.U
	streamT := p.Type(specPath, "Stream")
	for _, v := range lp.Vars {
		if v.Mu.typ == nil || !types.Identical(v.Mu.typ, streamT) {
			continue
		}
		var leaf func(x *V) bool
		leaf = func(x *V) bool {
			if x.op == OIte {
				return leaf(x.args[1]) && leaf(x.args[2])
			}
			return consumes(x, v.Mu) && Contains(x, func(y *V) bool { return y == v.Mu })
		}
		if !leaf(v.Next) {
			continue
		}
		// the place an iteration starts from is not the end of the input
		at := func(y *V) []*V {
			k, rt := p.Type(tokenPath, "Kind"), types.Typ[types.Rune]
			return []*V{
				u.Eq(u.App("token:Kind", k, y), u.Const(p.constOf(tokenPath, "EOF"), k)),
				u.Eq(u.App("scan:rune", rt, y), u.Const(constant.MakeInt64(-1), rt)),
			}
		}
		for _, end := range at(v.Mu) {
			if u.And(lp.Back, end) == u.False {
				return "does not go on from the end of the input"
			}
		}
		// the first place reached
		var firsts []*V
		Contains(v.Next, func(y *V) bool {
			if y.op == OApp && (y.s == "adv" || y.s == "scan") && y.args[0] == v.Mu {
				firsts = append(firsts, y)
			}
			return false
		})
		for _, f := range firsts {
			var end *V
			if f.s == "adv" {
				k := p.Type(tokenPath, "Kind")
				end = u.Eq(u.App("token:Kind", k, f), u.Const(p.constOf(tokenPath, "EOF"), k))
			} else {
				rt := types.Typ[types.Rune]
				end = u.Eq(u.App("scan:rune", rt, f), u.Const(constant.MakeInt64(-1), rt))
			}
			if u.And(lp.Back, end) != u.False {
				return ""
			}
		}
		if len(firsts) > 0 {
			return "stops at the end of the input"
		}
	}
	return ""
}
