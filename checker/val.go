package main

// Hash-consed value graph: every value of the analysed program is a node;
// structurally equal values are the same node.  Conditional values are
// reduced ordered decision diagrams over canonical atoms; arithmetic is kept
// in polynomial normal form over opaque terms.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst  Op = iota // Go constant (c) or nil/zero (c == nil)
	OSym              // opaque symbol
	OPoly             // polynomial over numeric atoms
	OIte              // decision node: args[0]=atom, args[1]=hi, args[2]=lo
	OApp              // uninterpreted application s(args...)
	OSeq              // sequence: concatenation of parts (elements or splices)
	OStruct           // struct value, args = fields
	OAddr             // address: args[0]=base, s=path
	OAlloc            // base object, identity in s
	OFunc             // function value, args = bindings
	OIface            // interface holding args[0] of dynamic type typ
	OTuple
)

type term struct {
	coef *big.Rat
	mono []*V // sorted by id, with repetition
}

type V struct {
	id    int
	op    Op
	typ   types.Type
	s     string
	c     constant.Value
	args  []*V
	splic []bool // OSeq: part is a splice of a sequence
	terms []term // OPoly
	fn    *ssa.Function
	key   string
	pos   token.Pos
}

type Univ struct {
	heights  map[*V]int
	tab      map[string]*V
	n        int
	tnames   map[types.Type]string
	True     *V
	False    *V
	iteMem   map[[3]int]*V
	liftN    int
	excl     map[*V][]*V // atom -> mutually exclusive atoms
	groups   map[string][]*V
	Steps    int
	Distinct func(a, b *V) bool // values assumed to differ
	Place    func(p *V) (positive, known bool)
	Position func(*V) bool // numbers known not to be negative
	NonNil   func(*V) bool
	lenFact  map[*V]*V // lengths of sequence-valued loop variables
	bound    map[*V]*boundAtom
	bounds   map[*V][]*boundAtom
	nodeMem  map[[3]int]*V
	resMem   map[resKey]*V
}

func NewUniv() *Univ {
	u := &Univ{tab: map[string]*V{}, tnames: map[types.Type]string{}, iteMem: map[[3]int]*V{}, groups: map[string][]*V{}, lenFact: map[*V]*V{}, bound: map[*V]*boundAtom{}, bounds: map[*V][]*boundAtom{}, nodeMem: map[[3]int]*V{}, resMem: map[resKey]*V{}}
	u.True = u.Const(constant.MakeBool(true), types.Typ[types.Bool])
	u.False = u.Const(constant.MakeBool(false), types.Typ[types.Bool])
	return u
}

func (u *Univ) tn(t types.Type) string {
	if t == nil {
		return "_"
	}
	if s, ok := u.tnames[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	u.tnames[t] = s
	return s
}

func (u *Univ) intern(v *V) *V {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|", v.op, v.s)
	switch v.op {
	case OConst:
		b.WriteString(constKind(v.typ))
		if v.c == nil {
			b.WriteString("nil")
			b.WriteString(u.tn(v.typ))
		} else {
			b.WriteString(v.c.ExactString())
		}
	case OIface, OStruct:
		b.WriteString(u.tn(v.typ))
	case OFunc:
		if v.fn != nil {
			fmt.Fprintf(&b, "%p", v.fn)
		}
	case OPoly:
		b.WriteString(polyKind(v.typ))
		for _, t := range v.terms {
			fmt.Fprintf(&b, "+%s", t.coef.RatString())
			for _, m := range t.mono {
				fmt.Fprintf(&b, "*%d", m.id)
			}
		}
	}
	for i, a := range v.args {
		if v.splic != nil && v.splic[i] {
			b.WriteString("~")
		}
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if o, ok := u.tab[k]; ok {
		return o
	}
	u.n++
	v.id = u.n
	v.key = k
	u.tab[k] = v
	return v
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIfaceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func constKind(t types.Type) string {
	switch {
	case isFloat(t):
		return "f"
	case isInteger(t):
		return "i"
	case isString(t):
		return "s"
	case isBool(t):
		return "b"
	}
	return "o"
}
func polyKind(t types.Type) string {
	if isFloat(t) {
		return "f"
	}
	return "i"
}

// ---- constructors

func (u *Univ) Const(c constant.Value, t types.Type) *V {
	if c != nil && t != nil && isFloat(t) {
		c = snap(c)
	}
	if c != nil && isFloat(t) {
		c = constant.ToFloat(c)
	}
	return u.intern(&V{op: OConst, c: c, typ: t})
}

// snap replaces a floating-point constant by the simple fraction it is the
// rounding of: arithmetic on lengths is analysed over the reals.
func snap(c constant.Value) constant.Value {
	f, _ := constant.Float64Val(c)
	r := new(big.Rat)
	if math.IsInf(f, 0) || math.IsNaN(f) || r.SetFloat64(f) == nil || r.IsInt() {
		return c
	}
	x := new(big.Rat).Abs(r)
	h0, h1, k0, k1 := big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)
	for i := 0; i < 40; i++ {
		a := new(big.Int).Quo(x.Num(), x.Denom())
		h0, h1 = h1, new(big.Int).Add(new(big.Int).Mul(a, h1), h0)
		k0, k1 = k1, new(big.Int).Add(new(big.Int).Mul(a, k1), k0)
		if k1.BitLen() > 20 {
			return c
		}
		q := new(big.Rat).SetFrac(h1, k1)
		if r.Sign() < 0 {
			q.Neg(q)
		}
		if g, _ := q.Float64(); g == f || math.Abs(g-f) <= 3e-16*math.Abs(f) {
			return constant.BinaryOp(constant.MakeFromLiteral(q.Num().String(), token.INT, 0), token.QUO, constant.MakeFromLiteral(q.Denom().String(), token.INT, 0))
		}
		fr := new(big.Rat).Sub(x, new(big.Rat).SetInt(a))
		if fr.Sign() == 0 {
			return c
		}
		x = fr.Inv(fr)
	}
	return c
}

func (u *Univ) Str(s string) *V {
	return u.Const(constant.MakeString(s), types.Typ[types.String])
}
func (u *Univ) Int(i int64) *V { return u.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (u *Univ) Float(f string) *V {
	r, ok := new(big.Rat).SetString(f)
	if !ok {
		panic("bad float " + f)
	}
	return u.ratConst(r, types.Typ[types.Float64])
}
func (u *Univ) Bool(b bool) *V {
	if b {
		return u.True
	}
	return u.False
}
func (u *Univ) Nil(t types.Type) *V { return u.intern(&V{op: OConst, typ: t}) }
func (u *Univ) Sym(name string, t types.Type) *V {
	return u.intern(&V{op: OSym, s: name, typ: t})
}
func (u *Univ) Alloc(name string, t types.Type) *V {
	return u.intern(&V{op: OAlloc, s: name, typ: t})
}

// App builds an uninterpreted application, without distributing over
// conditional arguments.
func (u *Univ) App(name string, t types.Type, args ...*V) *V {
	return u.intern(&V{op: OApp, s: name, typ: t, args: append([]*V(nil), args...)})
}

func (u *Univ) Func(fn *ssa.Function, binds []*V, t types.Type) *V {
	return u.intern(&V{op: OFunc, fn: fn, args: binds, typ: t})
}

func (u *Univ) ratConst(r *big.Rat, t types.Type) *V {
	if isFloat(t) {
		c := constant.BinaryOp(constant.ToFloat(constant.MakeFromLiteral(r.Num().String(), token.INT, 0)), token.QUO,
			constant.ToFloat(constant.MakeFromLiteral(r.Denom().String(), token.INT, 0)))
		return u.intern(&V{op: OConst, c: c, typ: t})
	}
	if r.IsInt() {
		return u.intern(&V{op: OConst, c: constant.MakeFromLiteral(absStr(r.Num()), token.INT, 0), typ: t, s: signStr(r.Num())}).fixNeg(u, t, r)
	}
	return u.intern(&V{op: OConst, c: constant.ToFloat(constant.MakeFloat64(0)), typ: t, s: "rat:" + r.RatString()})
}

func absStr(i *big.Int) string  { return new(big.Int).Abs(i).String() }
func signStr(i *big.Int) string { return "" }
func (v *V) fixNeg(u *Univ, t types.Type, r *big.Rat) *V {
	if r.Num().Sign() < 0 {
		c := constant.UnaryOp(token.SUB, constant.MakeFromLiteral(absStr(r.Num()), token.INT, 0), 0)
		return u.intern(&V{op: OConst, c: c, typ: t})
	}
	return v
}

// ratOf returns the exact rational value of a numeric constant.
func ratOf(v *V) (*big.Rat, bool) {
	if v.op != OConst || v.c == nil {
		return nil, false
	}
	switch v.c.Kind() {
	case constant.Int, constant.Float:
	default:
		return nil, false
	}
	r, ok := new(big.Rat).SetString(v.c.ExactString())
	if !ok {
		return nil, false
	}
	return r, true
}

func (v *V) isConst() bool { return v.op == OConst }
func (v *V) isNilConst() bool {
	return v.op == OConst && v.c == nil
}
func (v *V) strConst() (string, bool) {
	if v.op == OConst && v.c != nil && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}
func (v *V) intConst() (int64, bool) {
	if v.op == OConst && v.c != nil && (v.c.Kind() == constant.Int || v.c.Kind() == constant.Float) {
		return constant.Int64Val(constant.ToInt(v.c))
	}
	return 0, false
}

// ---- decision diagrams

func (u *Univ) restrictRaw(f, atom *V, val bool, memo map[*V]*V) *V {
	if f.op != OIte || f.args[0].id > atom.id {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	var r *V
	if f.args[0] == atom {
		if val {
			r = f.args[1]
		} else {
			r = f.args[2]
		}
		// the atom cannot occur below
	} else {
		r = u.mkNode(f.args[0], u.restrictRaw(f.args[1], atom, val, memo), u.restrictRaw(f.args[2], atom, val, memo))
	}
	memo[f] = r
	return r
}

// Restrict fixes the truth value of an atom (a Bool decision variable).
func (u *Univ) Restrict(f, atom *V, val bool) *V {
	if f.op != OIte || f.args[0].id > atom.id {
		return f
	}
	k := resKey{f.id, atom.id, val}
	if r, ok := u.resMem[k]; ok {
		return r
	}
	r := u.restrictRaw(f, atom, val, map[*V]*V{})
	if len(u.resMem) > 4_000_000 {
		u.resMem = map[resKey]*V{}
	}
	u.resMem[k] = r
	return r
}

// exclusive returns the atoms known false when a is true.
func (u *Univ) exclusive(a *V) []*V {
	g := atomGroup(a)
	if g == "" {
		return nil
	}
	var o []*V
	for _, x := range u.groups[g] {
		if x != a {
			o = append(o, x)
		}
	}
	return o
}

func atomGroup(a *V) string {
	if a.op != OApp {
		return ""
	}
	switch a.s {
	case "eqc": // eqc(x, const)
		if a.args[1].isNilConst() {
			return fmt.Sprintf("is%d", a.args[0].id)
		}
		return fmt.Sprintf("eqc%d", a.args[0].id)
	case "is": // dynamic type test on args[0]
		return fmt.Sprintf("is%d", a.args[0].id)
	case "pos": // pos(p): exclusive with pos(-p)
		x, y := a.args[0].id, a.args[1].id
		if x > y {
			x, y = y, x
		}
		return fmt.Sprintf("pos%d_%d", x, y)
	case "exit":
		return fmt.Sprintf("exit%d", a.args[0].id)
	}
	return ""
}

func (u *Univ) regAtom(a *V) {
	g := atomGroup(a)
	if g == "" {
		return
	}
	for _, x := range u.groups[g] {
		if x == a {
			return
		}
	}
	u.groups[g] = append(u.groups[g], a)
}

type resKey struct {
	f, atom int
	val     bool
}

func (u *Univ) mkNode(atom, hi, lo *V) *V {
	if hi == lo {
		return hi
	}
	k := [3]int{atom.id, hi.id, lo.id}
	if r, ok := u.nodeMem[k]; ok {
		return r
	}
	r := u.mkNode1(atom, hi, lo)
	if len(u.nodeMem) > 4_000_000 {
		u.nodeMem = map[[3]int]*V{}
	}
	u.nodeMem[k] = r
	return r
}

func (u *Univ) mkNode1(atom, hi, lo *V) *V {
	if bs := u.boundsOf(atom); len(bs) > 1 {
		for _, x := range bs {
			if x.atom.id <= atom.id {
				continue
			}
			if hi.op == OIte {
				if v, ok := implied(u.bound[atom], true, x); ok {
					hi = u.Restrict(hi, x.atom, v)
				}
			}
			if lo.op == OIte {
				if v, ok := implied(u.bound[atom], false, x); ok {
					lo = u.Restrict(lo, x.atom, v)
				}
			}
		}
		if hi == lo {
			return hi
		}
		if lo.op == OIte {
			l := lo
			for _, x := range bs {
				if v, ok := implied(u.bound[atom], true, x); ok && x.atom.id > atom.id {
					l = u.Restrict(l, x.atom, v)
				}
			}
			if l == hi {
				return lo
			}
		}
		if hi.op == OIte {
			h := hi
			for _, x := range bs {
				if v, ok := implied(u.bound[atom], false, x); ok && x.atom.id > atom.id {
					h = u.Restrict(h, x.atom, v)
				}
			}
			if h == lo {
				return hi
			}
		}
	}
	// mutual exclusion: atoms excluded by this one are false on the hi side
	if hi.op == OIte {
		for _, x := range u.exclusive(atom) {
			if x.id > atom.id {
				hi = u.Restrict(hi, x, false)
			}
		}
		if hi == lo {
			return hi
		}
	}
	if lo.op == OIte {
		// redundant when the other side already behaves like hi there
		l := lo
		for _, x := range u.exclusive(atom) {
			if x.id > atom.id {
				l = u.Restrict(l, x, false)
			}
		}
		if l == hi {
			return lo
		}
	}
	if atom.op == OApp && atom.s == "pos" {
		if m := u.window(atom, hi, lo); m != nil {
			return m
		}
	}
	if atom.op == OApp && atom.s == "pos" && isFloat(atom.args[0].typ) {
		fuel := 64
		if m := u.asMax(atom, hi, lo, &fuel); m != nil {
			return m
		}
	}
	return u.intern(&V{op: OIte, args: []*V{atom, hi, lo}, typ: pickT(hi.typ, lo.typ)})
}

// boundAtom is a condition on an integer x: x > c, or x == c.
type boundAtom struct {
	atom *V
	x    *V
	eq   bool
	c    *big.Rat
}

// boundsOf are the conditions on the integer that an atom is about.
func (u *Univ) boundsOf(a *V) []*boundAtom {
	b, ok := u.bound[a]
	if !ok {
		b = u.newBound(a)
		u.bound[a] = b
		if b != nil {
			u.bounds[b.x] = append(u.bounds[b.x], b)
		}
	}
	if b == nil {
		return nil
	}
	return u.bounds[b.x]
}

func (u *Univ) newBound(a *V) *boundAtom {
	if a.op != OApp || len(a.args) != 2 {
		return nil
	}
	split := func(p *V) (*V, *big.Rat) {
		c := new(big.Rat)
		if p.op == OPoly && len(p.terms[0].mono) == 0 {
			c = p.terms[0].coef
			p = u.Sub(p, u.ratConst(c, p.typ), p.typ)
		}
		return p, c
	}
	switch a.s {
	case "pos":
		z, ok := a.args[1].intConst()
		if !ok || z != 0 || isFloat(a.args[0].typ) {
			return nil
		}
		x, c := split(a.args[0])
		return &boundAtom{a, x, false, new(big.Rat).Neg(c)}
	case "eqc":
		if !isInteger(a.args[0].typ) {
			return nil
		}
		v, ok := ratOf(a.args[1])
		if !ok {
			return nil
		}
		x, c := split(a.args[0])
		return &boundAtom{a, x, true, new(big.Rat).Sub(v, c)}
	}
	return nil
}

// implied is the truth value of x that follows from that of a.
func implied(a *boundAtom, val bool, x *boundAtom) (v, ok bool) {
	if a == x {
		return false, false
	}
	k := x.c.Cmp(a.c)
	switch {
	case a.eq && val:
		if x.eq {
			return false, true
		}
		return k < 0, true
	case a.eq:
		return false, false
	case val: // > a.c
		if k <= 0 {
			return !x.eq, true
		}
	default: // <= a.c
		if k > 0 || k == 0 && !x.eq {
			return false, true
		}
	}
	return false, false
}

// charBound recognises x > c for a byte or a rune x and a constant c.
func (u *Univ) charBound(a *V) (x *V, c int64, ok bool) {
	if a.op != OApp || a.s != "pos" || a.args[0].op != OPoly {
		return nil, 0, false
	}
	p := a.args[0]
	ts := p.terms
	if len(ts) == 0 || len(ts) > 2 {
		return nil, 0, false
	}
	m := ts[len(ts)-1]
	if len(m.mono) != 1 || !m.coef.IsInt() || m.coef.Num().Cmp(big.NewInt(1)) != 0 {
		return nil, 0, false
	}
	x = m.mono[0]
	b, isb := x.typ.(*types.Basic)
	if !isb || b.Kind() != types.Uint8 && b.Kind() != types.Int32 {
		return nil, 0, false
	}
	if len(ts) == 2 {
		if len(ts[0].mono) != 0 || !ts[0].coef.IsInt() {
			return nil, 0, false
		}
		c = -ts[0].coef.Num().Int64()
	}
	return x, c, true
}

// window: a test for a small range of characters is a test for each of them.
func (u *Univ) window(atom, hi, lo *V) *V {
	x, c, ok := u.charBound(atom)
	if !ok {
		return nil
	}
	try := func(in *V, out *V, upper bool) *V {
		if in.op != OIte {
			return nil
		}
		y, d, ok := u.charBound(in.args[0])
		if !ok || y != x {
			return nil
		}
		a, b, val := c, d, in.args[2] // x > a, not x > b
		if upper {
			a, b, val = d, c, in.args[1]
			if in.args[2] != out {
				return nil
			}
		} else if in.args[1] != out {
			return nil
		}
		if b <= a || b-a > 16 {
			return nil
		}
		is := u.False
		for v := b; v > a; v-- {
			is = u.Or(u.eqc(x, u.ratConst(new(big.Rat).SetInt64(v), types.Typ[types.Int])), is)
		}
		return u.Ite(is, val, out)
	}
	if r := try(hi, lo, false); r != nil {
		return r
	}
	return try(lo, hi, true)
}

func pickT(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

func top(vs ...*V) *V {
	var t *V
	for _, v := range vs {
		if v.op == OIte && (t == nil || v.args[0].id < t.id) {
			t = v.args[0]
		}
	}
	return t
}

func (u *Univ) cof(v, atom *V, hi bool) *V {
	if v.op == OIte && v.args[0] == atom {
		if hi {
			return v.args[1]
		}
		return v.args[2]
	}
	if v.op == OApp && v.s == "sub" && len(v.args) == 3 && atom.op == OApp && atom.s == "pos" && isString(v.typ) && isInteger(atom.args[0].typ) {
		// a part of a string that has no length is empty
		t := atom.args[0].typ
		n := u.Sub(v.args[2], v.args[1], t)
		if hi && u.Sub(u.Int(1), n, t) == atom.args[0] || !hi && n == atom.args[0] {
			return u.Str("")
		}
		return v
	}
	if v.op == OIte || atom.op != OApp || atom.s != "pos" || !isFloat(v.typ) || !isFloat(atom.args[0].typ) {
		return v
	}
	return u.unmax(v, atom.args[0], hi)
}

// unmax drops the maxima a sign decides from a sum.
func (u *Univ) unmax(v, p *V, pos bool) *V {
	var find func(m *V) bool
	find = func(m *V) bool {
		return m.op == OApp && m.s == "max" && len(m.args) == 2
	}
	if find(v) {
		return u.unmaxSum([]term{{big.NewRat(1, 1), []*V{v}}}, v, p, pos)
	}
	if v.op != OPoly {
		return v
	}
	for _, t := range v.terms {
		for _, m := range t.mono {
			if find(m) {
				return u.unmaxSum(v.terms, v, p, pos)
			}
		}
	}
	return v
}

func (u *Univ) unmaxSum(ts []term, v, p *V, pos bool) *V {
	t := v.typ
	acc := u.ratConst(new(big.Rat), t)
	hit := false
	for _, q := range ts {
		m := u.ratConst(q.coef, t)
		for _, f := range q.mono {
			if f.op == OApp && f.s == "max" && len(f.args) == 2 {
				if z, ok := ratOf(f.args[1]); ok && z.Sign() == 0 {
					// f is max(x, 0): p = k*x
					xs, ps := u.termsOf(f.args[0]), u.termsOf(p)
					if len(xs) == len(ps) {
						k := new(big.Rat).Quo(ps[len(ps)-1].coef, xs[len(xs)-1].coef)
						if u.Mul(u.ratConst(k, t), f.args[0], t) == p {
							if k.Sign() > 0 && pos {
								f, hit = f.args[0], true
							} else if k.Sign() > 0 || pos {
								f, hit = f.args[1], true
							} else {
								f, hit = f.args[0], true
							}
						}
					}
				}
			}
			m = u.Mul(m, f, t)
		}
		acc = u.Add(acc, m, t)
	}
	if !hit {
		return v
	}
	return acc
}

// Ite is if-then-else on decision diagrams; c must be boolean.
func (u *Univ) Ite(c, a, b *V) *V {
	if c == u.True {
		return a
	}
	if c == u.False {
		return b
	}
	if a == b {
		return a
	}
	if a == u.True && b == u.False {
		if c.op == OIte {
			return c
		}
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := u.iteMem[k]; ok {
		return r
	}
	if c.op != OIte {
		// opaque boolean value used as an atom
		c = u.Atom(c)
		return u.Ite(c, a, b)
	}
	t := top(c, a, b)
	hi := u.Ite(u.cof(c, t, true), u.hiCof(a, t), u.hiCof(b, t))
	lo := u.Ite(u.cof(c, t, false), u.cof(a, t, false), u.cof(b, t, false))
	r := u.mkNode(t, hi, lo)
	u.iteMem[k] = r
	return r
}

func (u *Univ) hiCof(v, t *V) *V { return u.cof(v, t, true) }

// Atom turns an opaque boolean value into a decision diagram.
func (u *Univ) Atom(b *V) *V {
	if b == u.True || b == u.False || b.op == OIte {
		return b
	}
	u.regAtom(b)
	return u.intern(&V{op: OIte, args: []*V{b, u.True, u.False}, typ: types.Typ[types.Bool]})
}

func (u *Univ) Not(a *V) *V    { return u.Ite(u.asBool(a), u.False, u.True) }
func (u *Univ) And(a, b *V) *V { return u.Ite(u.asBool(a), u.asBool(b), u.False) }
func (u *Univ) Or(a, b *V) *V  { return u.Ite(u.asBool(a), u.True, u.asBool(b)) }
func (u *Univ) asBool(a *V) *V {
	if a == u.True || a == u.False || a.op == OIte {
		return a
	}
	return u.Atom(a)
}

// Implies tells whether a => b is valid in the diagram.
func (u *Univ) Implies(a, b *V) bool { return u.And(a, u.Not(b)) == u.False }

// literals implied by guard g.
func (u *Univ) literals(g *V) map[*V]bool {
	out := map[*V]bool{}
	for g.op == OIte {
		// collect all atoms
		atoms := map[*V]bool{}
		collectAtoms(g, atoms, map[*V]bool{})
		changed := false
		for a := range atoms {
			if _, ok := out[a]; ok {
				continue
			}
			if u.Restrict(g, a, false) == u.False {
				out[a] = true
				g = u.Restrict(g, a, true)
				changed = true
				break
			}
			if u.Restrict(g, a, true) == u.False {
				out[a] = false
				g = u.Restrict(g, a, false)
				changed = true
				break
			}
		}
		if !changed {
			break
		}
	}
	return out
}

func collectAtoms(g *V, out, seen map[*V]bool) {
	if g.op != OIte || seen[g] {
		return
	}
	seen[g] = true
	out[g.args[0]] = true
	collectAtoms(g.args[1], out, seen)
	collectAtoms(g.args[2], out, seen)
}

// nesting is the height of v.
func (u *Univ) nesting(v *V) int {
	if n, ok := u.heights[v]; ok {
		return n
	}
	n := 0
	for _, a := range v.args {
		n = max(n, u.nesting(a))
	}
	for _, t := range v.terms {
		for _, a := range t.mono {
			n = max(n, u.nesting(a))
		}
	}
	if u.heights == nil {
		u.heights = map[*V]int{}
	}
	u.heights[v] = n + 1
	return n + 1
}

// Under simplifies v (deeply) by the literals that guard g implies.
func (u *Univ) Under(v, g *V) *V {
	if g == u.True || g.op != OIte {
		return v
	}
	lits := u.literals(g)
	if len(lits) == 0 {
		return v
	}
	memo := map[*V]*V{}
	var rec func(x *V) *V
	rec = func(x *V) *V {
		if r, ok := memo[x]; ok {
			return r
		}
		memo[x] = x
		y := x
		for y.op == OIte {
			val, ok := lits[y.args[0]]
			if !ok {
				// excluded by a true literal?
				ok2 := false
				for _, e := range u.exclusive(y.args[0]) {
					if lv, k := lits[e]; k && lv {
						ok2 = true
						break
					}
				}
				if !ok2 {
					v, ok := false, false
					for _, x := range u.boundsOf(y.args[0]) {
						if lv, k := lits[x.atom]; k {
							if v, ok = implied(x, lv, u.bound[y.args[0]]); ok {
								break
							}
						}
					}
					if !ok {
						break
					}
					if v {
						y = y.args[1]
					} else {
						y = y.args[2]
					}
					continue
				}
				y = y.args[2]
				continue
			}
			if val {
				y = y.args[1]
			} else {
				y = y.args[2]
			}
		}
		var r *V
		if y.op == OIte {
			r = u.Ite(u.Atom(y.args[0]), rec(y.args[1]), rec(y.args[2]))
		} else {
			r = u.rebuild(y, rec)
		}
		memo[x] = r
		return r
	}
	return rec(v)
}

// leaves enumerates the leaves of a diagram with their conditions.
type leaf struct {
	cond *V
	val  *V
}

func (u *Univ) Leaves(v *V) []leaf {
	m := map[*V]*V{}
	var order []*V
	var rec func(x, c *V)
	n := 0
	rec = func(x, c *V) {
		n++
		if n > 20000 {
			panic(undecided("decision diagram too large"))
		}
		if x.op != OIte {
			if o, ok := m[x]; ok {
				m[x] = u.Or(o, c)
			} else {
				m[x] = c
				order = append(order, x)
			}
			return
		}
		rec(x.args[1], u.And(c, u.Atom(x.args[0])))
		rec(x.args[2], u.And(c, u.Not(u.Atom(x.args[0]))))
	}
	rec(v, u.True)
	var out []leaf
	for _, x := range order {
		if m[x] != u.False {
			out = append(out, leaf{m[x], x})
		}
	}
	return out
}

// lift1/lift2 push an operation to the leaves of conditional operands.
func (u *Univ) lift(f func(xs []*V) *V, xs ...*V) *V {
	memo := map[string]*V{}
	n := 0
	var rec func(xs []*V) *V
	rec = func(xs []*V) *V {
		t := top(xs...)
		if t == nil {
			return f(xs)
		}
		var kb strings.Builder
		for _, x := range xs {
			fmt.Fprintf(&kb, "%d,", x.id)
		}
		k := kb.String()
		if r, ok := memo[k]; ok {
			return r
		}
		n++
		if n > 4096 {
			return f(xs)
		}
		h := make([]*V, len(xs))
		l := make([]*V, len(xs))
		for i, x := range xs {
			h[i] = u.cof(x, t, true)
			l[i] = u.cof(x, t, false)
		}
		r := u.Ite(u.Atom(t), rec(h), rec(l))
		memo[k] = r
		return r
	}
	return rec(xs)
}

// ---- arithmetic

type polyAcc struct {
	m    map[string]*term
	keys []string
}

func newAcc() *polyAcc { return &polyAcc{m: map[string]*term{}} }
func (a *polyAcc) add(coef *big.Rat, mono []*V) {
	if coef.Sign() == 0 {
		return
	}
	var b strings.Builder
	for _, m := range mono {
		fmt.Fprintf(&b, "*%d", m.id)
	}
	k := b.String()
	if t, ok := a.m[k]; ok {
		t.coef = new(big.Rat).Add(t.coef, coef)
		return
	}
	a.m[k] = &term{new(big.Rat).Set(coef), mono}
	a.keys = append(a.keys, k)
}

func (u *Univ) fromAcc(a *polyAcc, t types.Type) *V {
	var ts []term
	for _, k := range a.keys {
		if a.m[k].coef.Sign() != 0 {
			ts = append(ts, *a.m[k])
		}
	}
	sort.Slice(ts, func(i, j int) bool { return monoLess(ts[i].mono, ts[j].mono) })
	if len(ts) == 0 {
		return u.ratConst(new(big.Rat), t)
	}
	if len(ts) == 1 && len(ts[0].mono) == 0 {
		return u.ratConst(ts[0].coef, t)
	}
	if len(ts) == 1 && len(ts[0].mono) == 1 && ts[0].coef.Cmp(big.NewRat(1, 1)) == 0 {
		return ts[0].mono[0]
	}
	return u.intern(&V{op: OPoly, terms: ts, typ: t})
}

func monoLess(a, b []*V) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return len(a) < len(b)
}

func (u *Univ) termsOf(v *V) []term {
	if r, ok := ratOf(v); ok {
		if r.Sign() == 0 {
			return nil
		}
		return []term{{r, nil}}
	}
	if v.op == OPoly {
		return v.terms
	}
	return []term{{big.NewRat(1, 1), []*V{v}}}
}

func hasInf(v *V) bool {
	return v.op == OApp && (v.s == "+inf" || v.s == "-inf")
}

func (u *Univ) addLeaf(a, b *V, sub bool, t types.Type) *V {
	if isFloat(t) && (hasInf(a) || hasInf(b)) {
		// inf arithmetic: inf + finite
		if hasInf(a) && !hasInf(b) {
			return a
		}
		if hasInf(b) && !hasInf(a) {
			if sub {
				return u.negInf(b)
			}
			return b
		}
	}
	acc := newAcc()
	for _, x := range u.termsOf(a) {
		acc.add(x.coef, x.mono)
	}
	for _, x := range u.termsOf(b) {
		c := x.coef
		if sub {
			c = new(big.Rat).Neg(c)
		}
		acc.add(c, x.mono)
	}
	return u.fromAcc(acc, t)
}

func (u *Univ) negInf(v *V) *V {
	if v.s == "+inf" {
		return u.App("-inf", v.typ)
	}
	return u.App("+inf", v.typ)
}

func (u *Univ) Add(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V { return u.addLeaf(x[0], x[1], false, t) }, a, b)
}
func (u *Univ) Sub(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V { return u.addLeaf(x[0], x[1], true, t) }, a, b)
}
func (u *Univ) Mul(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		acc := newAcc()
		for _, p := range u.termsOf(x[0]) {
			for _, q := range u.termsOf(x[1]) {
				mono := append(append([]*V(nil), p.mono...), q.mono...)
				coef := new(big.Rat).Mul(p.coef, q.coef)
				mono, coef = u.cancelInv(mono, coef)
				acc.add(coef, mono)
			}
		}
		return u.fromAcc(acc, t)
	}, a, b)
}

// cancelInv removes x * inv(x) pairs, and sorts.
func (u *Univ) cancelInv(mono []*V, coef *big.Rat) ([]*V, *big.Rat) {
	sort.Slice(mono, func(i, j int) bool { return mono[i].id < mono[j].id })
again:
	for i, m := range mono {
		if m.op == OApp && m.s == "inv" {
			for j, o := range mono {
				if o == m.args[0] {
					var r []*V
					for k, x := range mono {
						if k != i && k != j {
							r = append(r, x)
						}
					}
					mono = r
					goto again
				}
			}
		}
	}
	return mono, coef
}

func (u *Univ) Quo(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		a, b := x[0], x[1]
		if !isFloat(t) {
			ra, oka := ratOf(a)
			rb, okb := ratOf(b)
			if oka && okb && rb.Sign() != 0 {
				q := new(big.Int).Quo(ra.Num(), rb.Num())
				return u.ratConst(new(big.Rat).SetInt(q), t)
			}
			if okb && rb.Cmp(big.NewRat(1, 1)) == 0 {
				return a
			}
			return u.App("idiv", t, a, b)
		}
		if r, ok := ratOf(b); ok && r.Sign() != 0 {
			return u.Mul(a, u.ratConst(new(big.Rat).Inv(r), t), t)
		}
		if b.op == OPoly && len(b.terms) == 1 {
			// inverse of a monomial
			inv := u.ratConst(new(big.Rat).Inv(b.terms[0].coef), t)
			for _, m := range b.terms[0].mono {
				inv = u.Mul(inv, u.App("inv", t, m), t)
			}
			return u.Mul(a, inv, t)
		}
		if b.op == OPoly {
			// normalise leading coefficient
			lc := b.terms[len(b.terms)-1].coef
			nb := u.Mul(b, u.ratConst(new(big.Rat).Inv(lc), t), t)
			return u.Mul(u.Mul(a, u.ratConst(new(big.Rat).Inv(lc), t), t), u.App("inv", t, nb), t)
		}
		return u.Mul(a, u.App("inv", t, b), t)
	}, a, b)
}
func (u *Univ) Neg(a *V, t types.Type) *V {
	return u.Sub(u.ratConst(new(big.Rat), t), a, t)
}

// Pos is the condition p > 0.
func (u *Univ) Pos(p *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		p := x[0]
		if r, ok := ratOf(p); ok {
			return u.Bool(r.Sign() > 0)
		}
		if hasInf(p) {
			return u.Bool(p.s == "+inf")
		}
		if !isFloat(t) {
			// integers: p > 0
			ts := u.termsOf(p)
			var c = new(big.Rat)
			var rest []term
			for _, q := range ts {
				if len(q.mono) == 0 {
					c = q.coef
				} else {
					rest = append(rest, q)
				}
			}
			// the last position in a string where a predicate holds, if any
			if len(rest) == 1 && len(rest[0].mono) == 1 && c.Cmp(big.NewRat(1, 1)) == 0 && rest[0].coef.Cmp(big.NewRat(1, 1)) == 0 {
				if _, n, k, ok := u.byteSearch(rest[0].mono[0]); ok {
					return u.Pos(u.Sub(n, k, t), t)
				}
			}
			if u.Place != nil {
				if v, ok := u.Place(p); ok {
					return u.Bool(v)
				}
			}
			// single non-negative term  k*len + c > 0
			if len(rest) == 1 && len(rest[0].mono) == 1 && u.nonNeg(rest[0].mono[0]) {
				m := rest[0].mono[0]
				one := big.NewRat(1, 1)
				if rest[0].coef.Cmp(one) == 0 {
					if c.Sign() > 0 {
						return u.True
					}
					if c.Sign() == 0 {
						return u.Not(u.isZero(m))
					}
					if c.Cmp(big.NewRat(-1, 1)) == 0 { // len > 1
						return u.And(u.Not(u.isZero(m)), u.Not(u.eqc(m, u.Int(1))))
					}
				}
				if rest[0].coef.Cmp(big.NewRat(-1, 1)) == 0 { // c - len > 0
					if c.Sign() <= 0 {
						return u.False
					}
					if c.Cmp(one) == 0 {
						return u.isZero(m)
					}
					if c.Cmp(big.NewRat(2, 1)) == 0 {
						return u.Or(u.isZero(m), u.eqc(m, u.Int(1)))
					}
				}
			}
			if zero, ok := u.posSum(rest); ok && c.Sign() >= 0 {
				if c.Sign() > 0 {
					return u.True
				}
				return u.Not(zero)
			}
			// canonical sign: leading coefficient positive; -q > 0 <=> !(q+1 > 0) for ints
			if len(rest) > 0 && rest[len(rest)-1].coef.Sign() < 0 {
				q := u.Neg(p, t)
				q1 := u.Add(q, u.Int(1), t)
				return u.Not(u.Pos(q1, t))
			}
			return u.Atom(u.App("pos", types.Typ[types.Bool], p, u.Int(0)))
		}
		// scale to a canonical magnitude
		ts := u.termsOf(p)
		lc := new(big.Rat).Abs(ts[len(ts)-1].coef)
		p = u.Mul(p, u.ratConst(new(big.Rat).Inv(lc), t), t)
		n := u.Neg(p, t)
		return u.Atom(u.App("pos", types.Typ[types.Bool], p, n))
	}, p)
}

func (u *Univ) nonNeg(v *V) bool { return nonNeg(v) || u.Position != nil && u.Position(v) }

// posSum: a sum of a position and other numbers that are not negative is zero
// when all are.
func (u *Univ) posSum(ts []term) (zero *V, ok bool) {
	if u.Position == nil || len(ts) < 2 {
		return nil, false
	}
	zero = u.True
	for _, q := range ts {
		if len(q.mono) != 1 || q.coef.Sign() <= 0 || !u.nonNeg(q.mono[0]) {
			return nil, false
		}
		ok = ok || u.Position(q.mono[0])
		zero = u.And(zero, u.isZero(q.mono[0]))
	}
	return zero, ok
}

func nonNeg(v *V) bool {
	return v.op == OApp && (v.s == "len" || v.s == "abs" || v.s == "maplen" || v.s == "rkey" && isString(v.args[0].typ)) || v.op == OSym && strings.HasPrefix(v.s, "K:")
}

// splitLen: the length of what strings.Split yields for a separator that is
// not empty, which is at least one.
func splitLen(v *V) bool {
	if v.op != OApp || v.s != "len" {
		return false
	}
	x := v.args[0]
	if x.op != OApp || x.s != "call:strings.Split" {
		return false
	}
	sep, ok := x.args[1].strConst()
	return ok && sep != ""
}

// isZero: a string of length zero is the empty one.
func (u *Univ) isZero(m *V) *V {
	if m.op == OApp && m.s == "len" && isString(m.args[0].typ) {
		return u.eqc(m.args[0], u.Str(""))
	}
	return u.eqc(m, u.Int(0))
}

func (u *Univ) eqc(x, c *V) *V {
	a := u.App("eqc", types.Typ[types.Bool], x, c)
	return u.Atom(a)
}

// Eq is the equality of two values.
func (u *Univ) Eq(a, b *V) *V {
	return u.lift(func(x []*V) *V { return u.eqLeaf(x[0], x[1]) }, a, b)
}

func (u *Univ) eqLeaf(a, b *V) *V {
	if a == b {
		return u.True
	}
	if u.Distinct != nil && u.differ(a, b) {
		return u.False
	}
	if a.isConst() && b.isConst() {
		if a.c != nil && b.c != nil {
			ra, ok1 := ratOf(a)
			rb, ok2 := ratOf(b)
			if ok1 && ok2 {
				return u.Bool(ra.Cmp(rb) == 0)
			}
			if a.c.Kind() == b.c.Kind() {
				return u.Bool(constant.Compare(a.c, token.EQL, b.c))
			}
			return u.False
		}
		if a.isNilConst() && b.isNilConst() {
			return u.True
		}
		return u.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if isBool(a.typ) && (b == u.True || b == u.False) {
		if b == u.True {
			return u.asBool(a)
		}
		return u.Not(a)
	}
	if a.op == OApp && a.s == "elem" && len(a.args) == 2 {
		if c, ok := b.intConst(); ok && 0 <= c && c < 128 {
			if s, n, k, ok := u.byteSearch(a.args[1]); ok {
				ti := types.Typ[types.Int]
				if x := u.Index(s, a.args[1], a.typ); x == a {
					return u.Eq(u.Index(s, u.Sub(u.Sub(n, u.Int(1), ti), k, ti), a.typ), b)
				}
			}
		}
	}
	if a.op == OApp && a.s == "sub" && isString(a.typ) {
		// a part of one byte
		if c, ok := b.strConst(); ok {
			if c == "" {
				return u.Eq(u.Len(a), u.Int(0))
			}
			if w, ok := u.Sub(a.args[2], a.args[1], types.Typ[types.Int]).intConst(); ok && w >= 0 {
				if int(w) != len(c) {
					return u.False
				}
				if w == 1 {
					return u.Eq(u.Index(a.args[0], a.args[1], types.Typ[types.Byte]), u.Const(constant.MakeInt64(int64(c[0])), types.Typ[types.Byte]))
				}
			}
		}
	}
	t := pickT(a.typ, b.typ)
	if isFloat(t) {
		d := u.Sub(a, b, t)
		return u.And(u.Not(u.Pos(d, t)), u.Not(u.Pos(u.Neg(d, t), t)))
	}
	// nil comparisons with values known to be non-nil
	if b.isNilConst() {
		if u.NonNil != nil && u.NonNil(a) {
			return u.False
		}
		switch a.op {
		case OAlloc, OAddr, OFunc, OIface, OStruct:
			return u.False
		case OSeq:
			if len(a.args) > 0 {
				return u.False
			}
			return u.eqc(a, b)
		case OApp:
			if nonNilApps[a.s] {
				return u.False
			}
			if _, ok := a.typ.(*types.Pointer); ok && strings.HasPrefix(a.s, "as:") {
				return u.False // interfaces hold no nil pointers
			}
		}
		return u.eqc(a, b)
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return u.False
		}
		return u.eqLeaf(a.args[0], b.args[0])
	}
	if (a.op == OAlloc || a.op == OAddr) && (b.op == OAlloc || b.op == OAddr) {
		if a.op == OAlloc && b.op == OAlloc {
			return u.False
		}
	}
	if isInteger(t) {
		d := u.Sub(a, b, t)
		if r, ok := ratOf(d); ok {
			return u.Bool(r.Sign() == 0)
		}
		ts := u.termsOf(d)
		// single variable with coefficient ±1: x == c
		if len(ts) == 1 || (len(ts) == 2 && len(ts[0].mono) == 0) {
			m := ts[len(ts)-1]
			if len(m.mono) == 1 {
				c := new(big.Rat)
				if len(ts) == 2 {
					c = ts[0].coef
				}
				v := new(big.Rat).Neg(new(big.Rat).Quo(c, m.coef))
				if !v.IsInt() {
					return u.False
				}
				if u.nonNeg(m.mono[0]) && v.Sign() < 0 {
					return u.False
				}
				if v.Sign() == 0 && splitLen(m.mono[0]) {
					return u.False
				}
				if v.Sign() == 0 {
					return u.isZero(m.mono[0])
				}
				return u.eqc(m.mono[0], u.ratConst(v, types.Typ[types.Int]))
			}
		}
		// a search that goes all the way
		for _, q := range ts {
			if len(q.mono) == 1 && q.mono[0].op == OApp && q.mono[0].s == "search" {
				n := u.Sub(q.mono[0].args[0], q.mono[0], t)
				if d == n || d == u.Neg(n, t) {
					return u.Not(u.Pos(n, t))
				}
			}
		}
		z := u.ratConst(new(big.Rat), t)
		if ts[len(ts)-1].coef.Sign() < 0 {
			d = u.Neg(d, t)
			ts = u.termsOf(d)
		}
		c, rest := new(big.Rat), ts
		if len(ts[0].mono) == 0 {
			c, rest = ts[0].coef, ts[1:]
		}
		if zero, ok := u.posSum(rest); ok && c.Sign() >= 0 {
			if c.Sign() > 0 {
				return u.False
			}
			return zero
		}
		return u.eqc(d, z)
	}
	if b.isConst() {
		if a.op == OApp && a.s == "str" && len(a.args) == 1 {
			// a string of one character
			if s, ok := b.strConst(); ok {
				rs := []rune(s)
				if len(rs) != 1 || rs[0] == 0xFFFD {
					return u.False
				}
				return u.Eq(a.args[0], u.Const(constant.MakeInt64(int64(rs[0])), a.args[0].typ))
			}
		}
		return u.eqc(a, b)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return u.Atom(u.App("eq", types.Typ[types.Bool], a, b))
}

// differ tells that two values differ because of a component assumed to.
func (u *Univ) differ(a, b *V) bool {
	if u.Distinct(a, b) {
		return true
	}
	if a.op == OIface && b.op == OIface && types.Identical(a.typ, b.typ) {
		return u.differ(a.args[0], b.args[0])
	}
	t := pickT(a.typ, b.typ)
	if s := structOf(t); s != nil && (a.op == OStruct || b.op == OStruct) {
		for i := 0; i < s.NumFields(); i++ {
			if x, y := u.Field(a, i, s.Field(i).Type()), u.Field(b, i, s.Field(i).Type()); x != y && u.differ(x, y) {
				return true
			}
		}
	}
	return false
}

var nonNilApps = map[string]bool{"errorf": true, "makemap": true, "zeros": true}

// Max/Min with flattening.
func (u *Univ) MinMax(name string, t types.Type, xs ...*V) *V {
	return u.lift(func(xs []*V) *V {
		var parts []*V
		var add func(v *V)
		add = func(v *V) {
			if hi, lo := u.maxParts(v); hi != nil && name == "max" && v.op != OApp {
				ts := u.termsOf(v)
				one := false
				for _, m := range ts {
					if len(m.mono) == 1 && m.mono[0].op == OApp && m.mono[0].s == "max" && len(m.mono[0].args) == 2 {
						one = m.coef.Sign() > 0
						break
					}
				}
				if one {
					add(hi)
					add(lo)
					return
				}
			}
			if v.op == OApp && v.s == name {
				for _, a := range v.args {
					add(a)
				}
				return
			}
			for _, p := range parts {
				if p == v {
					return
				}
			}
			parts = append(parts, v)
		}
		for _, x := range xs {
			add(x)
		}
		// fold constants
		var cst *big.Rat
		var rest []*V
		for _, p := range parts {
			if r, ok := ratOf(p); ok {
				if cst == nil || (name == "max") == (r.Cmp(cst) > 0) {
					cst = r
				}
				continue
			}
			if hasInf(p) {
				if (p.s == "+inf") == (name == "max") {
					return p
				}
				continue
			}
			rest = append(rest, p)
		}
		if cst != nil {
			rest = append(rest, u.ratConst(cst, t))
		}
		if len(rest) == 1 {
			return rest[0]
		}
		if len(rest) == 2 && isFloat(t) {
			// max(a, b) = b + max(a-b, 0), min(a, b) = a - max(a-b, 0)
			a, b := rest[0], rest[1]
			d := u.Sub(a, b, t)
			ts := u.termsOf(d)
			if ts[len(ts)-1].coef.Sign() < 0 {
				a, b, d = b, a, u.Neg(d, t)
				ts = u.termsOf(d)
			}
			k := u.ratConst(new(big.Rat).Inv(ts[len(ts)-1].coef), t)
			m := u.Quo(u.App("max", t, u.Mul(d, k, t), u.ratConst(new(big.Rat), t)), k, t)
			if name == "max" {
				return u.Add(b, m, t)
			}
			return u.Sub(a, m, t)
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
		return u.App(name, t, rest...)
	}, xs...)
}

// maxParts are the values a sum x + max(y, 0) is the larger of.
func (u *Univ) maxParts(v *V) (hi, lo *V) {
	if !isFloat(v.typ) {
		return nil, nil
	}
	ts := u.termsOf(v)
	for i, m := range ts {
		if len(m.mono) == 1 && m.mono[0].op == OApp && m.mono[0].s == "max" && len(m.mono[0].args) == 2 && m.coef.Sign() != 0 {
			k := u.ratConst(m.coef, v.typ)
			acc := newAcc()
			for j, q := range ts {
				if j != i {
					acc.add(q.coef, q.mono)
				}
			}
			x := u.fromAcc(acc, v.typ)
			xy := u.Add(x, u.Mul(k, m.mono[0].args[0], v.typ), v.typ)
			if m.coef.Sign() > 0 {
				return xy, x
			}
			return x, xy
		}
	}
	return nil, nil
}

// asMax recognises a choice by sign whose outcomes differ by a multiple of
// what decides: p > 0 ? x + k*p : x is x + k*max(p, 0).
func (u *Univ) asMax(atom, hi, lo *V, fuel *int) *V {
	if hi == lo {
		return hi
	}
	if *fuel--; *fuel < 0 {
		return nil
	}
	if hi.op == OIte || lo.op == OIte {
		t := top(hi, lo)
		a := u.asMax(atom, u.cof(hi, t, true), u.cof(lo, t, true), fuel)
		if a == nil {
			return nil
		}
		b := u.asMax(atom, u.cof(hi, t, false), u.cof(lo, t, false), fuel)
		if b == nil {
			return nil
		}
		return u.Ite(t, a, b)
	}
	p := atom.args[0]
	t := p.typ
	if !isFloat(t) || !isFloat(pickT(hi.typ, lo.typ)) || hasInf(hi) || hasInf(lo) {
		return nil
	}
	d := u.Sub(hi, lo, t)
	ds, ps := u.termsOf(d), u.termsOf(p)
	if len(ds) != len(ps) {
		return nil
	}
	k := u.ratConst(new(big.Rat).Quo(ds[len(ds)-1].coef, ps[len(ps)-1].coef), t)
	if u.Mul(k, p, t) != d {
		return nil
	}
	return u.Add(lo, u.Mul(k, u.MinMax("max", t, p, u.ratConst(new(big.Rat), t)), t), t)
}

// ---- sequences

func (u *Univ) Seq(parts []*V, splice []bool, t types.Type) *V {
	var ps []*V
	var sp []bool
	for i, p := range parts {
		if splice != nil && splice[i] {
			if p.op == OSeq {
				ps = append(ps, p.args...)
				sp = append(sp, p.splic...)
				continue
			}
			if p.isNilConst() {
				continue
			}
			ps = append(ps, p)
			sp = append(sp, true)
			continue
		}
		ps = append(ps, p)
		sp = append(sp, false)
	}
	if len(ps) == 1 && sp[0] {
		return ps[0]
	}
	return u.intern(&V{op: OSeq, args: ps, splic: sp, typ: t})
}

func (u *Univ) Append(a, b *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		return u.Seq([]*V{x[0], x[1]}, []bool{true, true}, t)
	}, a, b)
}

func (u *Univ) Len(a *V) *V {
	ti := types.Typ[types.Int]
	return u.lift(func(x []*V) *V {
		v := x[0]
		switch v.op {
		case OSym:
			if l, ok := u.lenFact[v]; ok {
				return l
			}
		case OConst:
			if v.c == nil {
				return u.Int(0)
			}
			if s, ok := v.strConst(); ok {
				return u.Int(int64(len(s)))
			}
		case OSeq:
			n := u.Int(0)
			for i, p := range v.args {
				if v.splic[i] {
					n = u.Add(n, u.Len(p), ti)
				} else {
					n = u.Add(n, u.Int(1), ti)
				}
			}
			return n
		case OApp:
			if v.s == "zeros" {
				return v.args[0]
			}
			if v.s == "store" {
				return u.Len(v.args[0])
			}
			if v.s == "sub" {
				return u.Sub(v.args[2], v.args[1], ti)
			}
			if v.s == "runes" {
				return u.App("count", ti, v.args[0])
			}
			if v.s == "bytes" {
				return u.Len(v.args[0])
			}
			if v.s == "seqmap" && v.aux1() {
				return v.args[0]
			}
		}
		return u.App("len", ti, v)
	}, a)
}

func (v *V) aux1() bool { return false }

// Index is element i of a sequence/array value.
func (u *Univ) Index(a, i *V, t types.Type) *V {
	return u.lift(func(x []*V) *V {
		a, i := x[0], x[1]
		if s, ok := a.strConst(); ok {
			if n, ok := i.intConst(); ok && n >= 0 && int(n) < len(s) {
				return u.Const(constant.MakeInt64(int64(s[n])), t)
			}
		}
		for {
			if a.op == OApp && a.s == "store" {
				e := u.Eq(a.args[1], i)
				if e == u.True {
					return a.args[2]
				}
				if e == u.False {
					a = a.args[0]
					continue
				}
				return u.Ite(e, a.args[2], u.Index(a.args[0], i, t))
			}
			break
		}
		if a.op == OApp && a.s == "zeros" {
			return u.zeroLeaf(t)
		}
		if a.op == OApp && a.s == "runes" {
			return u.App("rval", types.Typ[types.Rune], a.args[0], i)
		}
		if a.op == OApp && a.s == "bytes" {
			return u.Index(a.args[0], i, t)
		}
		if a.op == OApp && a.s == "sub" {
			return u.Index(a.args[0], u.Add(a.args[1], i, types.Typ[types.Int]), t)
		}
		if a.op == OSeq {
			if n, ok := i.intConst(); ok && n >= 0 {
				k := int64(0)
				for j, p := range a.args {
					if a.splic[j] {
						ln, ok := u.Len(p).intConst()
						if !ok {
							break
						}
						if n < k+ln {
							return u.Index(p, u.Int(n-k), t)
						}
						k += ln
						continue
					}
					if k == n {
						return p
					}
					k++
				}
			}
		}
		if a.op == OSeq {
			if _, post, ok := u.cut(a, i); ok {
				if x, _, ok := u.cut(post, u.Int(1)); ok && len(x.args) == 1 && !x.splic[0] {
					return x.args[0]
				}
			}
		}
		return u.App("elem", t, a, i)
	}, a, i)
}

func (u *Univ) zeroLeaf(t types.Type) *V {
	return u.Zero(t)
}

// Zero is the zero value of a type (arrays are zeros(n)).
func (u *Univ) Zero(t types.Type) *V {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return u.False
		case x.Info()&types.IsString != 0:
			return u.Const(constant.MakeString(""), t)
		case x.Info()&types.IsNumeric != 0:
			return u.ratConst(new(big.Rat), t)
		}
	case *types.Struct:
		args := make([]*V, x.NumFields())
		for i := range args {
			args[i] = u.Zero(x.Field(i).Type())
		}
		return u.Struct(t, args)
	case *types.Array:
		return u.App("zeros", t, u.Int(x.Len()))
	}
	return u.Nil(t)
}

func (u *Univ) Struct(t types.Type, args []*V) *V {
	// eta: struct of all the fields of one value
	var base *V
	ok := len(args) > 0
	for i, a := range args {
		if a.op == OApp && strings.HasPrefix(a.s, "field:") && a.s == fmt.Sprintf("field:%d", i) && len(a.args) == 1 && (base == nil || base == a.args[0]) && a.args[0].typ != nil && types.Identical(a.args[0].typ, t) {
			base = a.args[0]
			continue
		}
		ok = false
		break
	}
	if ok && base != nil {
		return base
	}
	return u.intern(&V{op: OStruct, typ: t, args: args})
}

func (u *Univ) Field(x *V, i int, t types.Type) *V {
	return u.lift(func(xs []*V) *V {
		x := xs[0]
		if x.op == OStruct {
			return x.args[i]
		}
		if x.isNilConst() && x.typ != nil {
			if st, ok := x.typ.Underlying().(*types.Struct); ok {
				return u.Zero(st.Field(i).Type())
			}
		}
		return u.App(fmt.Sprintf("field:%d", i), t, x)
	}, x)
}

func (u *Univ) Iface(x *V, t types.Type) *V {
	return u.lift(func(xs []*V) *V {
		if x := xs[0]; x.op == OApp && strings.HasPrefix(x.s, "as:") && x.s == "as:"+u.tn(t) {
			return x.args[0]
		}
		return u.intern(&V{op: OIface, typ: t, args: []*V{xs[0]}})
	}, x)
}

func (u *Univ) Addr(base *V, path string, t types.Type) *V {
	if path == "" {
		return base
	}
	return u.lift(func(xs []*V) *V {
		b := xs[0]
		p := path
		if b.op == OAddr {
			p = b.s + path
			b = b.args[0]
		}
		return u.intern(&V{op: OAddr, s: p, args: []*V{b}, typ: t})
	}, base)
}

func (u *Univ) Tuple(xs ...*V) *V { return u.intern(&V{op: OTuple, args: xs}) }

// rebuild reconstructs a non-Ite node from transformed children.
func (u *Univ) rebuild(v *V, f func(*V) *V) *V {
	switch v.op {
	case OConst, OSym, OAlloc:
		return v
	case OPoly:
		changed := false
		for _, t := range v.terms {
			for _, m := range t.mono {
				if f(m) != m {
					changed = true
				}
			}
		}
		if !changed {
			return v
		}
		acc := u.ratConst(new(big.Rat), v.typ)
		for _, t := range v.terms {
			p := u.ratConst(t.coef, v.typ)
			for _, m := range t.mono {
				p = u.Mul(p, f(m), v.typ)
			}
			acc = u.Add(acc, p, v.typ)
		}
		return acc
	}
	args := make([]*V, len(v.args))
	changed := false
	for i, a := range v.args {
		args[i] = f(a)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return v
	}
	switch v.op {
	case OIte:
		return u.Ite(u.asBool(args[0]), args[1], args[2])
	case OSeq:
		return u.lift(func(x []*V) *V { return u.Seq(x, v.splic, v.typ) }, args...)
	case OStruct:
		return u.Struct(v.typ, args)
	case OAddr:
		return u.Addr(args[0], v.s, v.typ)
	case OFunc:
		return u.Func(v.fn, args, v.typ)
	case OIface:
		return u.Iface(args[0], v.typ)
	case OTuple:
		return u.Tuple(args...)
	case OApp:
		return u.reApp(v, args)
	}
	panic("rebuild")
}

func (u *Univ) reApp(v *V, args []*V) *V {
	switch {
	case v.s == "pos":
		return u.Pos(args[0], polyT(args[0], v.args[0]))
	case v.s == "eqc" || v.s == "eq":
		return u.Eq(args[0], args[1])
	case v.s == "max" || v.s == "min":
		return u.MinMax(v.s, v.typ, args...)
	case v.s == "len":
		return u.Len(args[0])
	case v.s == "elem":
		return u.Index(args[0], args[1], v.typ)
	case v.s == "str" && len(args) == 1:
		if k, ok := args[0].intConst(); ok {
			return u.Str(string(rune(k)))
		}
	case v.s == "inv":
		return u.Quo(u.Float("1"), args[0], v.typ)
	case v.s == "idiv":
		return u.Quo(args[0], args[1], v.typ)
	case strings.HasPrefix(v.s, "field:"):
		var i int
		fmt.Sscanf(v.s, "field:%d", &i)
		return u.Field(args[0], i, v.typ)
	}
	return u.App(v.s, v.typ, args...)
}

func polyT(a, b *V) types.Type {
	for _, x := range []*V{a, b} {
		if x.op == OIte {
			for x.op == OIte {
				x = x.args[1]
			}
		}
		if isFloat(x.typ) || isInteger(x.typ) {
			return x.typ
		}
	}
	return types.Typ[types.Int]
}

// Subst replaces nodes by other nodes, everywhere.
func (u *Univ) Subst(v *V, m map[*V]*V) *V {
	if len(m) == 0 {
		return v
	}
	memo := map[*V]*V{}
	var rec func(x *V) *V
	rec = func(x *V) *V {
		if r, ok := m[x]; ok {
			return r
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := u.rebuild(x, rec)
		memo[x] = r
		return r
	}
	return rec(v)
}

// Contains tells whether v mentions a node satisfying p.
func Contains(v *V, p func(*V) bool) bool {
	seen := map[*V]bool{}
	var rec func(x *V) bool
	rec = func(x *V) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		for _, t := range x.terms {
			for _, m := range t.mono {
				if rec(m) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// ---- printing (diagnostics only)

func (v *V) String() string { return v.str(6) }

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (v *V) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch v.op {
	case OConst:
		if v.c == nil {
			return "nil"
		}
		if isFloat(v.typ) {
			f, _ := constant.Float64Val(v.c)
			return fmt.Sprint(f)
		}
		return v.c.String()
	case OSym:
		return v.s
	case OAlloc:
		return "&" + v.s
	case OPoly:
		var parts []string
		for _, t := range v.terms {
			s := ""
			if t.coef.Cmp(big.NewRat(1, 1)) != 0 || len(t.mono) == 0 {
				s = t.coef.RatString()
			}
			for _, m := range t.mono {
				if s != "" {
					s += "*"
				}
				s += m.str(d - 1)
			}
			parts = append(parts, s)
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case OIte:
		if v.args[1].c != nil && v.args[2].c != nil && v.args[1].c.Kind() == constant.Bool {
			if constant.BoolVal(v.args[1].c) {
				return v.args[0].str(d)
			}
			return "!" + v.args[0].str(d)
		}
		return "[" + v.args[0].str(d-1) + " ? " + v.args[1].str(d-1) + " : " + v.args[2].str(d-1) + "]"
	case OAddr:
		return v.args[0].str(d-1) + v.s
	case OFunc:
		if v.fn != nil {
			return "func " + v.fn.Name()
		}
		return "func?"
	case OIface:
		return shortT(v.typ) + "(" + v.args[0].str(d-1) + ")"
	}
	var parts []string
	for i, a := range v.args {
		s := a.str(d - 1)
		if v.splic != nil && v.splic[i] {
			s += "..."
		}
		parts = append(parts, s)
	}
	j := strings.Join(parts, ", ")
	switch v.op {
	case OSeq:
		return "[" + j + "]"
	case OStruct:
		return shortT(v.typ) + "{" + j + "}"
	case OTuple:
		return "(" + j + ")"
	}
	return v.s + "(" + j + ")"
}

type undecidedErr struct{ msg string }

func undecided(msg string) undecidedErr { return undecidedErr{msg} }
func (e undecidedErr) Error() string    { return "undecided: " + e.msg }
