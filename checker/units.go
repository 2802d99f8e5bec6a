package main

// Units: every length of the layout is made of lengths of the font (C22).
// Each number of the layout has a dimension, the power of a length it is.
// Sums and comparisons want equal ones, products add them up, numbers of the
// program text have none; what the backend answers and the font size are
// lengths.  The equations either have a solution or name the operation that
// mixes lengths with plain numbers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type dimRow struct {
	c map[int]*big.Rat // solved variable = sum of the others
	k *big.Rat
}

type dims struct {
	p     *Prog
	id    map[any]int
	rows  map[int]*dimRow
	uses  map[int]map[int]bool // variable -> solved variables that mention it
	bad   []Finding
	insts map[string]bool
	n     int
}

type dimKey struct {
	ctx string
	v   any
}

func (d *dims) v(k any) int {
	if i, ok := d.id[k]; ok {
		return i
	}
	i := len(d.id)
	d.id[k] = i
	return i
}

// term is a combination of dimensions.
type dimTerm struct {
	v int
	c int64 // halves
}

// eq demands sum(terms)/2 + k = 0; false if that contradicts the rest.
func (d *dims) eq(k int64, ts ...dimTerm) bool {
	d.n++
	sum := &dimRow{map[int]*big.Rat{}, big.NewRat(k, 1)}
	add := func(v int, c *big.Rat) {
		if x := sum.c[v]; x != nil {
			x.Add(x, c)
			if x.Sign() == 0 {
				delete(sum.c, v)
			}
		} else if c.Sign() != 0 {
			sum.c[v] = new(big.Rat).Set(c)
		}
	}
	for _, t := range ts {
		c := big.NewRat(t.c, 2)
		if r := d.rows[t.v]; r != nil {
			for v, x := range r.c {
				add(v, new(big.Rat).Mul(c, x))
			}
			sum.k.Add(sum.k, new(big.Rat).Mul(c, r.k))
		} else {
			add(t.v, c)
		}
	}
	if len(sum.c) == 0 {
		return sum.k.Sign() == 0
	}
	pick := -1
	for v := range sum.c {
		if pick < 0 || len(d.uses[v]) < len(d.uses[pick]) || len(d.uses[v]) == len(d.uses[pick]) && v < pick {
			pick = v
		}
	}
	m := new(big.Rat).Neg(new(big.Rat).Inv(sum.c[pick]))
	row := &dimRow{map[int]*big.Rat{}, new(big.Rat).Mul(m, sum.k)}
	for v, x := range sum.c {
		if v != pick {
			row.c[v] = new(big.Rat).Mul(m, x)
			d.use(v, pick)
		}
	}
	d.rows[pick] = row
	for w := range d.uses[pick] {
		o := d.rows[w]
		c := o.c[pick]
		if c == nil {
			continue
		}
		delete(o.c, pick)
		for v, x := range row.c {
			y := new(big.Rat).Mul(c, x)
			if z := o.c[v]; z != nil {
				z.Add(z, y)
				if z.Sign() == 0 {
					delete(o.c, v)
				}
			} else {
				o.c[v] = y
			}
			d.use(v, w)
		}
		o.k.Add(o.k, new(big.Rat).Mul(c, row.k))
	}
	delete(d.uses, pick)
	return true
}

func (d *dims) use(v, w int) {
	if d.uses[v] == nil {
		d.uses[v] = map[int]bool{}
	}
	d.uses[v][w] = true
}

// floats reports whether values of a type are numbers, or lead to numbers
// other than through fields of structs.
func floats(t types.Type) bool {
	for i := 0; i < 8; i++ {
		switch x := t.Underlying().(type) {
		case *types.Basic:
			return x.Info()&types.IsFloat != 0
		case *types.Slice:
			t = x.Elem()
		case *types.Array:
			t = x.Elem()
		case *types.Pointer:
			t = x.Elem()
		case *types.Map:
			t = x.Elem()
		case *types.Chan:
			t = x.Elem()
		default:
			return false
		}
	}
	return false
}

func fieldKey(t types.Type, i int) any {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return [2]string{types.TypeString(t, nil), t.Underlying().(*types.Struct).Field(i).Name()}
}

// helper reports functions on plain numbers: they mean something else at each
// call.
func (d *dims) helper(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.FreeVars) > 0 {
		return false
	}
	plain := func(t types.Type) bool {
		for {
			switch x := t.Underlying().(type) {
			case *types.Basic:
				return true
			case *types.Slice:
				t = x.Elem()
			case *types.Array:
				t = x.Elem()
			default:
				return false
			}
		}
	}
	for _, q := range f.Params {
		if !plain(q.Type()) {
			return false
		}
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !plain(rs.At(i).Type()) && rs.At(i).Type().String() != "error" {
			return false
		}
	}
	for _, g := range d.p.reachable(f) {
		if g == f {
			continue
		}
		for _, h := range d.p.callees(g) {
			if h == f {
				return false
			}
		}
	}
	for _, h := range d.p.callees(f) {
		if h == f {
			return false
		}
	}
	return true
}

func isInfCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && (f.String() == "math.Inf" || f.String() == "math.NaN")
}

// infinite reports package variables that only ever hold an infinity.
func (d *dims) infinite(g *ssa.Global) bool {
	n := 0
	for _, f := range d.p.everyF() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					n++
					v := s.Val
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.SUB {
						v = u.X
					}
					if !isInfCall(v) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (d *dims) function(ctx string, f *ssa.Function) {
	if key := ctx + "|" + f.String(); d.insts[key] {
		return
	} else {
		d.insts[key] = true
	}
	p := d.p
	val := func(v ssa.Value) (int, bool) {
		switch v := v.(type) {
		case *ssa.Const:
			return 0, false
		case *ssa.Global:
			return d.v(v), true
		case *ssa.FieldAddr:
			return d.v(fieldKey(v.X.Type(), v.Field)), true
		case *ssa.Field:
			return d.v(fieldKey(v.X.Type(), v.Field)), true
		case *ssa.FreeVar:
			return d.v(v), true
		case *ssa.Function:
			return 0, false
		}
		return d.v(dimKey{ctx, v}), true
	}
	fail := func(in ssa.Instruction, what string) {
		pos := in.Pos()
		d.bad = append(d.bad, Finding{Rule: unitsRule, Key: f.String() + ": " + what, Where: p.posStr(pos),
			Detail: what})
	}
	// side says x as terms; ok is false for numbers of any dimension
	side := func(x ssa.Value, c int64) (ts []dimTerm, ok bool) {
		if k, is := x.(*ssa.Const); is {
			if k.Value == nil || k.Value.Kind() == constant.Unknown {
				return nil, false
			}
			// nothing, and what stands for no limit
			if r, _ := new(big.Rat).SetString(constant.ToFloat(k.Value).ExactString()); r == nil || r.Sign() == 0 || r.Abs(r).Cmp(big.NewRat(1e6, 1)) >= 0 {
				return nil, false
			}
			return nil, true
		}
		if isInfCall(x) {
			return nil, false
		}
		if u, is := x.(*ssa.UnOp); is && u.Op == token.MUL {
			if g, is := u.X.(*ssa.Global); is && floats(derefT(g.Type())) && d.infinite(g) {
				return nil, false
			}
		}
		i, _ := val(x)
		return []dimTerm{{i, c}}, true
	}
	same := func(in ssa.Instruction, what string, a, b ssa.Value) {
		x, ok := side(a, 2)
		y, ok2 := side(b, -2)
		if ok && ok2 && !d.eq(0, append(x, y...)...) {
			fail(in, what)
		}
	}
	toVar := func(in ssa.Instruction, what string, a ssa.Value, v int) {
		if x, ok := side(a, 2); ok && !d.eq(0, append(x, dimTerm{v, -2})...) {
			fail(in, what)
		}
	}
	pure := func(in ssa.Instruction, what string, a ssa.Value) {
		if x, ok := side(a, 2); ok && !d.eq(0, x...) {
			fail(in, what)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				if !floats(in.X.Type()) {
					continue
				}
				switch in.Op {
				case token.ADD, token.SUB:
					same(in, "adds a length and a plain number", in.X, in.Y)
					same(in, "adds a length and a plain number", in, in.X)
					same(in, "adds a length and a plain number", in, in.Y)
				case token.MUL, token.QUO:
					s := int64(-2)
					if in.Op == token.QUO {
						s = 2
					}
					x, ok := side(in.X, -2)
					y, ok2 := side(in.Y, s)
					if ok && ok2 {
						i, _ := val(in)
						if !d.eq(0, append(append(x, y...), dimTerm{i, 2})...) {
							fail(in, "a product has the wrong dimension")
						}
					}
				default:
					same(in, "compares a length with a plain number", in.X, in.Y)
				}
			case *ssa.UnOp:
				switch in.Op {
				case token.SUB, token.MUL:
					if floats(in.Type()) {
						same(in, "keeps a plain number as a length", in, in.X)
					}
				}
			case *ssa.Phi:
				if floats(in.Type()) {
					for _, e := range in.Edges {
						same(in, "is either a length or a plain number", in, e)
					}
				}
			case *ssa.ChangeType:
				if floats(in.Type()) {
					same(in, "converts", in, in.X)
				}
			case *ssa.Convert:
				switch {
				case floats(in.Type()) && floats(in.X.Type()):
					same(in, "converts", in, in.X)
				case floats(in.X.Type()):
					pure(in, "counts in a length, which depends on the unit of length", in.X)
				case floats(in.Type()):
					i, _ := val(in)
					d.eq(0, dimTerm{i, 2})
				}
			case *ssa.Store:
				if floats(in.Val.Type()) {
					same(in, "keeps a plain number as a length", in.Val, in.Addr)
				}
			case *ssa.IndexAddr:
				if floats(in.Type()) {
					same(in, "element", in, in.X)
				}
			case *ssa.Index:
				if floats(in.Type()) {
					same(in, "element", in, in.X)
				}
			case *ssa.Slice:
				if floats(in.Type()) {
					same(in, "element", in, in.X)
				}
			case *ssa.SliceToArrayPointer:
				if floats(in.Type()) {
					same(in, "element", in, in.X)
				}
			case *ssa.MapUpdate:
				if floats(in.Map.Type()) {
					same(in, "keeps a plain number as a length", in.Map, in.Value)
				}
			case *ssa.Lookup:
				if floats(in.X.Type()) {
					if in.CommaOk {
						continue
					}
					same(in, "element", in, in.X)
				}
			case *ssa.Extract:
				if !floats(in.Type()) {
					continue
				}
				switch t := in.Tuple.(type) {
				case *ssa.Lookup:
					same(in, "element", in, t.X)
				case *ssa.Next:
					if r, ok := t.Iter.(*ssa.Range); ok && in.Index == 2 && floats(r.X.Type()) {
						same(in, "element", in, r.X)
					}
				case *ssa.Call:
					d.call(ctx, f, t, in, in.Index, val, toVar, pure, same)
				}
			case *ssa.Call:
				d.call(ctx, f, in, in, 0, val, toVar, pure, same)
			case *ssa.Defer, *ssa.Go:
			case *ssa.MakeClosure:
				for i, fv := range in.Fn.(*ssa.Function).FreeVars {
					if floats(fv.Type()) {
						toVar(in, "captures", in.Bindings[i], d.v(fv))
					}
				}
			case *ssa.Return:
				for i, r := range in.Results {
					if floats(r.Type()) {
						toVar(in, "returns a plain number where a length is wanted", r, d.v(dimKey{ctx + "|" + f.String(), i}))
					}
				}
			}
		}
	}
}

func (d *dims) call(ctx string, f *ssa.Function, site *ssa.Call, res ssa.Value, idx int, val func(ssa.Value) (int, bool), toVar func(ssa.Instruction, string, ssa.Value, int), pure func(ssa.Instruction, string, ssa.Value), same func(ssa.Instruction, string, ssa.Value, ssa.Value)) {
	p := d.p
	com := site.Common()
	fl := floats(res.Type())
	if _, ok := res.Type().(*types.Tuple); ok {
		fl = false
	}
	result := func(v int) {
		if fl {
			toVar(site, "uses the result of a call as something else", res, v)
		}
	}
	one := func(g *ssa.Function, args []ssa.Value, gctx string) {
		for i, q := range g.Params {
			if i < len(args) && floats(q.Type()) && !absent(q, args[i]) {
				toVar(site, "passes a plain number as a length to "+g.Name(), args[i], d.v(dimKey{gctx, q}))
			}
		}
		result(d.v(dimKey{gctx + "|" + g.String(), idx}))
	}
	if com.IsInvoke() {
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		if strings.HasSuffix(typeName(com.Value.Type()), "font.Backend") || it != nil && com.Method.Pkg() != nil && com.Method.Pkg().Path() == modPath+"/font" {
			d.backend(com.Method, com.Args, func(a ssa.Value, length bool) {
				if length {
					i := d.v("length")
					toVar(site, "passes a plain number as a length to "+com.Method.Name(), a, i)
				} else {
					pure(site, "passes a length as a resolution to "+com.Method.Name(), a)
				}
			})
			if fl {
				result(d.v("length"))
			}
			return
		}
		if it == nil {
			return
		}
		for _, t := range p.impls(it) {
			if g := p.method(t, com.Method); g != nil && p.inModule(g) {
				g = d.unwrap(g)
				if len(g.Params) == len(com.Args)+1 {
					for i, a := range com.Args {
						if floats(a.Type()) {
							toVar(site, "passes a plain number as a length to "+g.Name(), a, d.v(dimKey{"", g.Params[i+1]}))
						}
					}
					result(d.v(dimKey{"|" + g.String(), idx}))
				}
			}
		}
		return
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "min", "max":
			var fst ssa.Value
			for _, a := range com.Args {
				if !floats(a.Type()) {
					continue
				}
				if fst != nil {
					same(site, "puts lengths and plain numbers together", fst, a)
				}
				if fst == nil {
					fst = a
				}
				if fl {
					same(site, "puts lengths and plain numbers together", res, a)
				}
			}
		}
		return
	}
	g := com.StaticCallee()
	if g == nil {
		return
	}
	if p.inModule(g) && g.Blocks != nil {
		g = d.unwrap(g)
		gctx := ""
		if d.helper(g) && strings.Count(ctx, "/") < 6 {
			gctx = ctx + "/" + f.Name() + fmt.Sprint(site.Block().Index, ".", indexIn(site))
			d.function(gctx, g)
		}
		one(g, com.Args, gctx)
		return
	}
	name := g.String()
	switch name {
	case "math.Inf", "math.NaN", "math.IsInf", "math.IsNaN", "math.Signbit":
		return
	case "math.Abs", "math.Max", "math.Min", "math.Dim", "math.Mod", "math.Remainder", "math.Hypot":
		for _, a := range com.Args {
			same(site, "compares a length with a plain number", res, a)
		}
		if len(com.Args) == 2 {
			same(site, "compares a length with a plain number", com.Args[0], com.Args[1])
		}
		return
	case "math.Copysign":
		same(site, "takes a sign", res, com.Args[0])
		return
	case "math.FMA":
		return
	case "math.Sqrt":
		if x, ok := val(com.Args[0]); ok {
			r, _ := val(res)
			d.eq(0, dimTerm{x, -1}, dimTerm{r, 2})
		}
		return
	}
	if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") {
		return
	}
	if strings.HasPrefix(name, "math.") {
		for _, a := range com.Args {
			if floats(a.Type()) {
				pure(site, "applies "+name+" to a length, which depends on the unit of length", a)
			}
		}
	}
	if fl && (strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "strconv.")) {
		pure(site, "takes a plain number for a length", res)
	}
}

// absent reports arguments below zero for parameters that are asked for their
// sign: they say that there is none.
func absent(q *ssa.Parameter, a ssa.Value) bool {
	k, ok := a.(*ssa.Const)
	if !ok || k.Value == nil || constant.Sign(constant.ToFloat(k.Value)) >= 0 {
		return false
	}
	for _, r := range *q.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				k, ok := o.(*ssa.Const)
				zero := ok && k.Value != nil && constant.Sign(constant.ToFloat(k.Value)) == 0
				if zero && (b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.GTR || b.Op == token.GEQ) {
					return true
				}
			}
		}
	}
	return false
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (d *dims) unwrap(g *ssa.Function) *ssa.Function {
	for g.Synthetic != "" && g.Object() != nil {
		if fn, ok := g.Object().(*types.Func); ok {
			if h := d.p.SSA.FuncValue(fn); h != nil && h != g && len(h.Params) == len(g.Params) {
				g = h
				continue
			}
		}
		break
	}
	return g
}

// backend tells which numbers of a method of backends are lengths: the last
// one that comes with a font is the resolution.
func (d *dims) backend(m *types.Func, args []ssa.Value, tell func(a ssa.Value, length bool)) {
	sig := m.Type().(*types.Signature)
	fnt, last := false, -1
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if strings.HasSuffix(typeName(t), "font.Font") {
			fnt = true
		}
		if isFloat(t) {
			last = i
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isFloat(sig.Params().At(i).Type()) {
			tell(args[i], !(fnt && i == last))
		}
	}
}

const unitsRule = "the numbers of the layout have dimensions: lengths are made of lengths of the font only"

func init() {
	addRule("C22", unitsRule, 300, func(c *Ctx) {
		p := c.P
		d := &dims{p: p, id: map[any]int{}, rows: map[int]*dimRow{}, uses: map[int]map[int]bool{}, insts: map[string]bool{}}
		d.eq(-1, dimTerm{d.v("length"), 2})
		for _, n := range []string{"Metrics", "Font"} {
			t := p.Type(modPath+"/font", n)
			s := structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				if isFloat(s.Field(i).Type()) {
					d.eq(0, dimTerm{d.v(fieldKey(t, i)), 2}, dimTerm{d.v("length"), -2})
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		var fs []*ssa.Function
		add := func(f *ssa.Function) {
			f = d.unwrap(f)
			pk := funcPkg(f, nil)
			if !seen[f] && f.Blocks != nil && (pk == modPath+"/tex" || pk == modPath+"/mtex") && !d.helper(f) {
				seen[f] = true
				fs = append(fs, f)
			}
		}
		// output is placed on the grid of whole points
		output := map[*ssa.Function]bool{}
		if s := p.Type(modPath+"/tex", "Ship"); s != nil {
			for _, f := range p.reachable(p.MethodOf(s, "Call")) {
				output[d.unwrap(f)] = true
			}
		}
		for _, f := range p.reachable(p.Func(modPath+"/mtex", "Parse")) {
			add(f)
		}
		for _, f := range p.allF {
			if funcPkg(f, nil) == modPath+"/tex" && !output[f] {
				add(f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			c.Funcs[f.String()] = true
			n, was := d.n, len(d.bad)
			d.function("", f)
			if len(d.bad) == was {
				for i := n; i < d.n; i++ {
					c.ok(unitsRule, fmt.Sprint(f.String(), " ", i))
				}
			}
		}
		dup := map[string]bool{}
		for _, b := range d.bad {
			if k := b.Key + b.Where; !dup[k] {
				dup[k] = true
				c.bad(b.Rule, b.Key, b.Where, b.Detail)
			}
		}
	})
}
