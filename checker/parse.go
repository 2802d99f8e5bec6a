package main

// Parsing: the parser that ParseExpr sets up is analysed for one token at a
// time.  The input is an abstract stream of tokens; a nested parse (the
// function through which the parser's recursion goes) is replaced by its
// contract: it yields the node of the current token in the parser's current
// mode, leaves the stream where that node ends, and everything else of the
// parser as it was, which is an obligation for every kind of token.  How
// tokens are made of text is analysed separately, one token at a time, over
// the abstract stream of text/scanner.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokenPath = modPath + "/token"
	streamLoc = "!stream"
)

type parseRoles struct {
	parse  *ssa.Function // ParseExpr
	head   *ssa.Function // the recursion goes through it
	next   *ssa.Function // advances the stream of tokens
	scT    *types.Named  // the scanner
	tok, r string        // its current token, and the token's class
	sc     string        // its text/scanner
	tokT   types.Type
	tokArg int // parameter of head: the token, or -1
	parArg int // parameter of head: the parser
}

func isTextScanner(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "text/scanner" && n.Obj().Name() == "Scanner"
}

// callees are the functions of the module a function may call or create.
func (p *Prog) callees(f *ssa.Function) []*ssa.Function {
	if r, ok := p.calleeM[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && p.inModule(g) && g.Blocks != nil {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				if com.IsInvoke() {
					it, _ := com.Value.Type().Underlying().(*types.Interface)
					for _, T := range p.impls(it) {
						add(p.method(T, com.Method))
					}
				}
			}
			var rands [16]*ssa.Value
			for _, v := range in.Operands(rands[:0]) {
				switch x := (*v).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	if p.calleeM == nil {
		p.calleeM = map[*ssa.Function][]*ssa.Function{}
	}
	p.calleeM[f] = out
	return out
}

// heads are the functions of recursive components, reachable from a function,
// that are entered from outside their component.
func (p *Prog) heads(root *ssa.Function, in func(*ssa.Function) bool) []*ssa.Function {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	comp := map[*ssa.Function]int{}
	size := map[int]int{}
	self := map[int]bool{}
	var stack []*ssa.Function
	on := map[*ssa.Function]bool{}
	n, nc := 0, 0
	var order []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		order = append(order, f)
		for _, g := range p.callees(f) {
			if !in(g) {
				continue
			}
			if index[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		}
		if low[f] == index[f] {
			nc++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp[g] = nc
				size[nc]++
				if g == f {
					break
				}
			}
		}
	}
	visit(root)
	for _, f := range order {
		for _, g := range p.callees(f) {
			if g == f {
				self[comp[f]] = true
			}
		}
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range order {
		for _, g := range p.callees(f) {
			if in(g) && comp[f] != comp[g] && (size[comp[g]] > 1 || self[comp[g]]) && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
	}
	return out
}

func (p *Prog) parseRoles() *parseRoles {
	if p.parseR != nil {
		return p.parseR
	}
	r := &parseRoles{parse: p.Func(modPath, "ParseExpr"), tokT: p.Type(tokenPath, "Token"), tokArg: -1, parArg: -1}
	pk := p.SPkg[modPath]
	for _, n := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s := structOf(tn.Type())
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isTextScanner(s.Field(i).Type()) {
				if r.scT != nil && r.scT != tn.Type() {
					panic(undecided("two types hold a text/scanner"))
				}
				r.scT, r.sc = tn.Type().(*types.Named), fmt.Sprintf(".%d", i)
			}
		}
	}
	if r.scT == nil {
		panic(undecided("no type of the parser holds a text/scanner"))
	}
	s := structOf(r.scT)
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type(); {
		case types.Identical(t, r.tokT):
			r.tok = fmt.Sprintf(".%d", i)
		case types.Identical(t, types.Typ[types.Rune]):
			r.r = fmt.Sprintf(".%d", i)
		}
	}
	if r.tok == "" {
		panic(undecided("the scanner has no current token"))
	}
	// the method that advances: no parameters, tells whether there is a token
	pt := types.NewPointer(r.scT)
	ms := types.NewMethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sg := f.Type().(*types.Signature)
		if sg.Params().Len() == 0 && sg.Results().Len() == 1 && isBool(sg.Results().At(0).Type()) {
			if fn := p.MethodOf(pt, f.Name()); fn != nil && p.reaches(fn, "(*text/scanner.Scanner).Scan") {
				if r.next != nil {
					if f.Name() != "Next" {
						continue
					}
				}
				r.next = fn
			}
		}
	}
	if r.next == nil {
		panic(undecided("no method advances the scanner"))
	}
	in := func(f *ssa.Function) bool {
		return funcPkg(f, nil) == modPath || f.Parent() != nil && funcPkg(f.Parent(), nil) == modPath
	}
	hs := p.heads(r.parse, in)
	if len(hs) != 1 {
		panic(undecided(fmt.Sprintf("the parser's recursion has %d entries", len(hs))))
	}
	r.head = hs[0]
	for i, q := range r.head.Params {
		if types.Identical(q.Type(), r.tokT) {
			r.tokArg = i
		}
		if pt, ok := q.Type().(*types.Pointer); ok && structOf(pt.Elem()) != nil && funcPkg(r.head, nil) == modPath {
			r.parArg = i
		}
	}
	if r.parArg < 0 {
		panic(undecided("the parser is not a parameter of " + r.head.String()))
	}
	p.parseR = r
	return r
}

// reaches tells whether a function may call another one, by name.
func (p *Prog) reaches(f *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.String() == name {
						return true
					}
				}
			}
		}
		for _, g := range p.callees(f) {
			if rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

// parseSetup is what ParseExpr sets up before the first token.
type parseSetup struct {
	st       *State
	par      *V // the parser
	obj      *V // the scanner
	g        *V
	args     []*V // of the head
	modeP    Loc
	text, in *V // mode outside and inside math
	counters map[Loc]types.Type
}

type parseRun struct {
	kind    int // 0: whole, 1: setup, 2: one node, 3: one token, 4: observe nested
	setup   *parseSetup
	s       *V // stream at the start
	tok     *V // token there
	hit     bool
	nested  []*State
	depth   []*V
	depthAt []Loc
}

// parseHook interprets parsing for the reference models with //vf:parse.
func parseHook(p *Prog) func(e *Eng, fr *Frame, c *CallCtx) bool {
	var cur *parseRun
	var setup *parseSetup
	streamT := p.Type(specPath, "Stream")
	nodeT := p.Type(astPath, "Node")
	var R *parseRoles
	app := func(u *Univ, name string, t types.Type, xs ...*V) *V {
		return u.lift(func(y []*V) *V { return u.App(name, t, y...) }, xs...)
	}
	field := func(s *types.Struct, n string) (int, types.Type) {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return i, s.Field(i).Type()
			}
		}
		panic(undecided("no field " + n))
	}
	// the token at a place of the stream
	tokAt := func(u *Univ, s *V) *V {
		ts := structOf(R.tokT)
		xs := make([]*V, ts.NumFields())
		for i := range xs {
			i := i
			xs[i] = u.lift(func(y []*V) *V {
				if cur != nil && cur.tok != nil && y[0] == cur.s {
					return u.Field(cur.tok, i, ts.Field(i).Type())
				}
				return u.App("token:"+ts.Field(i).Name(), ts.Field(i).Type(), y[0])
			}, s)
		}
		return u.Struct(R.tokT, xs)
	}
	kindAt := func(u *Univ, s *V) *V {
		i, t := field(structOf(R.tokT), "Kind")
		return u.Field(tokAt(u, s), i, t)
	}
	stream := func(st *State, obj *V) *V {
		v, ok := st.mem[Loc{obj, streamLoc}]
		if !ok {
			panic(undecided("a scanner without input"))
		}
		return v
	}
	scOf := func(v *V) *V {
		if v.op == OAlloc {
			return v
		}
		b, q := splitAddr(v)
		if b.op == OAlloc && q == R.sc {
			return b
		}
		panic(undecided("a text/scanner outside the scanner of the parser"))
	}
	eof := func(u *Univ) *V { return u.Const(p.constOf(tokenPath, "EOF"), p.Type(tokenPath, "Kind")) }
	// scanned forgets what the text scanner tells of what it scanned last.
	scanned := func(u *Univ, st *State, obj, s *V, pre string) {
		var i int
		fmt.Sscanf(R.sc, ".%d", &i)
		ts := structOf(structOf(R.scT).Field(i).Type())
		k, t := field(ts, "Position")
		ps := structOf(t)
		for j := 0; j < ps.NumFields(); j++ {
			n := pre + ps.Field(j).Name()
			if pre == "scan:" && ps.Field(j).Name() == "Offset" {
				n = "scan:pos"
			}
			st.mem[Loc{obj, fmt.Sprintf("%s.%d.%d", R.sc, k, j)}] = app(u, n, ps.Field(j).Type(), s)
		}
		k, t = field(ts, "ErrorCount")
		st.mem[Loc{obj, fmt.Sprintf("%s.%d", R.sc, k)}] = app(u, pre+"ErrorCount", t, s)
	}
	setTok := func(e *Eng, st *State, obj, s *V) {
		e.storeAt(st, obj, R.tok, tokAt(e.U, s), R.tokT)
		if R.r != "" {
			st.mem[Loc{obj, R.r}] = app(e.U, "token:class", types.Typ[types.Rune], s)
		}
		scanned(e.U, st, obj, s, "token:scanned")
	}
	runParse := func(e *Eng, fr *Frame, c *CallCtx, r *parseRun, x *V) ([]*V, *V, *State) {
		saved, ctx := cur, e.ctx
		cur = r
		e.ctx = e.U.And(ctx, c.G)
		defer func() { cur, e.ctx = saved, ctx }()
		return e.evalFn(R.parse, []*V{x}, nil, c.St.clone(), e.ctx, fr.site(c.Site))
	}
	// from puts the parser at a place of the stream.
	from := func(e *Eng, s *parseSetup, base *State, at, math *V) *State {
		st := base.clone()
		for l, x := range s.st.mem {
			st.mem[l] = x
		}
		st.mem[Loc{s.obj, streamLoc}] = at
		setTok(e, st, s.obj, at)
		if math != nil {
			st.mem[s.modeP] = e.U.Ite(math, s.in, s.text)
		}
		return st
	}
	headArgs := func(u *Univ, s *parseSetup, at *V) []*V {
		xs := append([]*V{}, s.args...)
		if R.tokArg >= 0 {
			xs[R.tokArg] = tokAt(u, at)
		}
		return xs
	}
	getSetup := func(e *Eng, fr *Frame, c *CallCtx) *parseSetup {
		if setup != nil {
			return setup
		}
		u := e.U
		r := &parseRun{kind: 1, setup: &parseSetup{}}
		cc := *c
		cc.St, cc.G = newState(), u.True
		ctx := e.ctx
		e.ctx = u.True
		runParse(e, fr, &cc, r, u.Sym("input", types.Typ[types.String]))
		if !r.hit {
			panic(undecided("ParseExpr does not parse a first node"))
		}
		s := r.setup
		// modes: how the parser differs inside math, and inside a group of that
		probe := func(text, kind string, st *State) *State {
			o := &parseRun{kind: 4, setup: s, s: u.Sym("probe:"+text, streamT)}
			ts := structOf(R.tokT)
			xs := make([]*V, ts.NumFields())
			for i := range xs {
				switch ts.Field(i).Name() {
				case "Kind":
					xs[i] = u.Const(p.constOf(tokenPath, kind), ts.Field(i).Type())
				case "Text":
					xs[i] = u.Str(text)
				default:
					xs[i] = u.Sym("probe:pos", ts.Field(i).Type())
				}
			}
			o.tok = u.Struct(R.tokT, xs)
			saved := cur
			cur = o
			b := st.clone()
			b.mem[Loc{s.obj, streamLoc}] = o.s
			setTok(e, b, s.obj, o.s)
			e.evalFn(R.head, headArgs(u, s, o.s), nil, b, u.True, fr.site(c.Site)+"/"+kind)
			cur = saved
			if len(o.nested) == 0 {
				panic(undecided("no nested parse for " + text))
			}
			return o.nested[0]
		}
		in1 := probe("$", "Symbol", s.st)
		in2 := probe("{", "Lbrace", in1)
		s.counters = map[Loc]types.Type{}
		var modes []Loc
		known := map[*V]bool{}
		for l := range s.st.mem {
			known[l.base] = true
		}
		for l, v := range in1.mem {
			if _, ok := s.st.mem[l]; !ok && known[l.base] {
				// never stored to: its zero value
				s.st.mem[l] = u.Zero(v.typ)
			}
		}
		for l, v := range in1.mem {
			old, ok := s.st.mem[l]
			if !ok || old == v || l.base == s.obj || l.base.op != OAlloc {
				continue
			}
			if in2.mem[l] != v {
				s.counters[l] = old.typ
				continue
			}
			modes = append(modes, l)
		}
		if len(modes) != 1 {
			panic(undecided(fmt.Sprintf("the mode of the parser is not recognised (%d candidates)", len(modes))))
		}
		s.modeP = modes[0]
		s.text, s.in = s.st.mem[s.modeP], in1.mem[s.modeP]
		e.ctx = ctx
		setup = s
		return s
	}
	// same tells whether the parser is as before but for the stream.
	same := func(e *Eng, s *parseSetup, before, after *State) *V {
		u := e.U
		r := u.True
		for l, v := range s.st.mem {
			if l.base == s.obj && (l.path == streamLoc || l.path == R.r || strings.HasPrefix(l.path, R.tok+".") || strings.HasPrefix(l.path, R.sc+".")) {
				continue
			}
			b, ok := before.mem[l]
			if !ok {
				b = v
			}
			a, ok := after.mem[l]
			if !ok || a == b {
				continue
			}
			r = u.And(r, u.Eq(a, b))
		}
		bases := map[*V]bool{}
		for l := range s.st.mem {
			bases[l.base] = true
		}
		for l, a := range after.mem {
			if !bases[l.base] || l.base == s.obj || l.base.op != OAlloc || a.typ == nil {
				continue
			}
			if _, ok := s.st.mem[l]; ok {
				continue
			}
			b, ok := before.mem[l]
			if !ok {
				b = u.Zero(a.typ)
			}
			if a != b {
				r = u.And(r, u.Eq(a, b))
			}
		}
		return r
	}
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		u := e.U
		if c.Fn == nil {
			return false
		}
		if R == nil {
			R = p.parseRoles()
		}
		if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath {
			a := c.Args
			switch n := c.Fn.Name(); n {
			case "S_init":
				c.Res = app(u, "input", streamT, a[0])
			case "S_next":
				c.Res = app(u, "adv", streamT, a[0])
			case "S_token":
				c.Res = tokAt(u, a[0])
			case "S_peek":
				c.Res = app(u, "token:peek", types.Typ[types.Rune], a[0])
			case "N_node":
				c.Res = app(u, "node", nodeT, a[0], a[1])
			case "N_rest":
				c.Res = app(u, "rest", streamT, a[0], a[1])
			case "R_scan":
				c.Res = app(u, "scan", streamT, a[0], a[1])
			case "R_peek", "R_text", "R_rune", "R_pos":
				c.Res = app(u, "scan:"+n[2:], siteType(c), a[0])
			case "V_expr":
				getSetup(e, fr, c)
				vals, g, st := runParse(e, fr, c, &parseRun{}, a[0])
				c.Res, c.G, c.St = u.Tuple(vals[0], u.Not(u.Eq(vals[1], u.Nil(vals[1].typ)))), u.And(c.G, g), st
			case "V_node": // stream, token, math
				s := getSetup(e, fr, c)
				saved, ctx := cur, e.ctx
				cur = &parseRun{kind: 2, setup: s, s: a[0], tok: a[1]}
				e.ctx = u.And(ctx, c.G)
				st := from(e, s, c.St, a[0], a[2])
				// nested to any depth
				var base []*V
				for l, t := range s.counters {
					b := u.Sym("depth:"+l.path, t)
					base = append(base, e.loadAt(st, l.base, l.path, t))
					st.mem[l] = b
					cur.depth = append(cur.depth, b)
					cur.depthAt = append(cur.depthAt, l)
				}
				vals, g, st2 := e.evalFn(R.head, headArgs(u, s, a[0]), nil, st, e.ctx, fr.site(c.Site))
				if len(vals) == 0 { // it never returns
					cur, e.ctx = saved, ctx
					c.Res, c.G = u.Tuple(u.Nil(nodeT), a[0], u.True), u.False
					return true
				}
				if p.nestedLog != nil {
					for i, b := range cur.depth {
						x := st2.mem[cur.depthAt[i]]
						*p.nestedLog = append(*p.nestedLog, nestedCall{after: u.And(u.And(e.ctx, g), u.Not(u.Eq(x, b))), where: p.posStr(R.head.Pos())})
					}
				}
				level := u.True
				if p.nestedLog == nil {
					// what comes of it does not depend on how deeply it is nested,
					// but for the bound on that
					at := func(k int64) map[*V]*V {
						m := map[*V]*V{}
						for i, b := range cur.depth {
							m[b] = u.Add(base[i], u.Const(constant.MakeInt64(k), b.typ), b.typ)
						}
						return m
					}
					m0 := at(0)
					g0 := u.Subst(g, m0)
					for _, k := range []int64{1, -1, 2, -2, 3, -3, 4, -4, 10, -10, 30, -30, 100, -100, 1000, -1000, 5000, -5000, 9990, -9990} {
						mk := at(k)
						gk := u.Subst(g, mk)
						if gk == u.False {
							continue
						}
						if gk != g0 {
							level = u.False
						}
						for _, v := range vals {
							level = u.And(level, u.Bool(u.Subst(v, mk) == u.Subst(v, m0)))
						}
						for l, v := range st2.mem {
							if _, ok := s.counters[l]; !ok {
								level = u.And(level, u.Bool(u.Subst(v, mk) == u.Subst(v, m0)))
							}
						}
					}
					st2 = st2.clone()
					for l, v := range st2.mem {
						st2.mem[l] = u.Subst(v, m0)
					}
					st = st.clone()
					for l, v := range st.mem {
						st.mem[l] = u.Subst(v, m0)
					}
					for i, v := range vals {
						vals[i] = u.Subst(v, m0)
					}
					g = g0
				}
				rest := stream(st2, s.obj)
				fr2 := u.And(level, same(e, s, st, st2))
				// the current token is the one at the place reached
				fr2 = u.And(fr2, u.Eq(e.loadAt(st2, s.obj, R.tok, R.tokT), tokAt(u, rest)))
				cur, e.ctx = saved, ctx
				c.Res, c.G, c.St = u.Tuple(vals[0], rest, fr2), u.And(c.G, g), st2
			case "V_token": // raw stream
				s := getSetup(e, fr, c)
				saved, ctx := cur, e.ctx
				cur = &parseRun{kind: 3, setup: s}
				e.ctx = u.And(ctx, c.G)
				st := c.St.clone()
				for l, x := range s.st.mem {
					st.mem[l] = x
				}
				st.mem[Loc{s.obj, streamLoc}] = a[0]
				vals, g, st2 := e.evalFn(R.next, []*V{s.obj}, nil, st, e.ctx, fr.site(c.Site))
				fr2 := same(e, s, st, st2)
				ss := structOf(R.scT)
				var i int
				fmt.Sscanf(R.sc, ".%d", &i)
				ts := structOf(ss.Field(i).Type())
				for k := 0; k < ts.NumFields(); k++ {
					if n := ts.Field(k).Name(); n == "Position" || n == "ErrorCount" {
						continue
					}
					if _, ok := ts.Field(k).Type().Underlying().(*types.Array); ok {
						continue
					}
					x, y := e.loadAt(st, s.obj, fmt.Sprintf("%s.%d", R.sc, k), ts.Field(k).Type()), e.loadAt(st2, s.obj, fmt.Sprintf("%s.%d", R.sc, k), ts.Field(k).Type())
					if x != y {
						fr2 = u.And(fr2, u.Eq(x, y))
					}
				}
				tok := e.loadAt(st2, s.obj, R.tok, R.tokT)
				cur, e.ctx = saved, ctx
				c.Res, c.G, c.St = u.Tuple(tok, vals[0], stream(st2, s.obj), fr2), u.And(c.G, g), st2
			case "V_ident", "V_blanks", "V_mode", "V_input":
				s := getSetup(e, fr, c)
				ss := structOf(R.scT)
				var i int
				fmt.Sscanf(R.sc, ".%d", &i)
				ts := structOf(ss.Field(i).Type())
				get := func(n string) *V {
					k, t := field(ts, n)
					return e.loadAt(s.st, s.obj, fmt.Sprintf("%s.%d", R.sc, k), t)
				}
				switch n {
				case "V_blanks":
					c.Res = get("Whitespace")
				case "V_mode":
					c.Res = get("Mode")
				case "V_input":
					c.Res = stream(s.st, s.obj)
				case "V_ident":
					f := get("IsIdentRune")
					if f.op != OFunc {
						panic(undecided("the identifier predicate is not a function of the tree"))
					}
					vals, g, st2 := e.evalFn(f.fn, a, f.args, c.St, u.And(e.ctx, c.G), fr.site(c.Site))
					c.Res, c.G, c.St = vals[0], u.And(c.G, g), st2
				}
			default:
				return false
			}
			return true
		}
		switch c.Name {
		case "strings.NewReader":
			c.Res = app(u, "reader", siteType(c), c.Args[0])
			return true
		case "(*text/scanner.Scanner).Init":
			obj := scOf(c.Args[0])
			c.St = c.St.clone()
			in := c.Args[1]
			if in.op == OIface {
				in = in.args[0]
			}
			if in.op == OApp && in.s == "reader" {
				in = in.args[0]
			}
			c.St.mem[Loc{obj, streamLoc}] = app(u, "input", streamT, in)
			c.Res = c.Args[0]
			return true
		case "(*text/scanner.Scanner).Peek":
			obj := scOf(c.Args[0])
			n := "token:peek"
			if cur != nil && cur.kind == 3 {
				n = "scan:peek"
			}
			c.Res = app(u, n, types.Typ[types.Rune], stream(c.St, obj))
			return true
		case "(*text/scanner.Scanner).Scan":
			if cur == nil || cur.kind != 3 {
				panic(undecided("text is scanned outside the scanner"))
			}
			obj := scOf(c.Args[0])
			var i int
			fmt.Sscanf(R.sc, ".%d", &i)
			ts := structOf(structOf(R.scT).Field(i).Type())
			k, t := field(ts, "Whitespace")
			ws := e.loadAt(c.St, obj, fmt.Sprintf("%s.%d", R.sc, k), t)
			s := app(u, "scan", streamT, stream(c.St, obj), ws)
			c.St = c.St.clone()
			c.St.mem[Loc{obj, streamLoc}] = s
			scanned(u, c.St, obj, s, "scan:")
			c.Res = app(u, "scan:rune", types.Typ[types.Rune], s)
			return true
		case "(*text/scanner.Scanner).TokenText":
			c.Res = app(u, "scan:text", types.Typ[types.String], stream(c.St, scOf(c.Args[0])))
			return true
		case "(*text/scanner.Scanner).Next":
			panic(undecided("single characters are read from the text scanner"))
		}
		if c.Fn == R.next && (cur == nil || cur.kind != 3) {
			obj := c.Args[0]
			if obj.op != OAlloc {
				panic(undecided("the scanner is not known at " + p.posStr(c.Site.Pos())))
			}
			s := app(u, "adv", streamT, stream(c.St, obj))
			c.St = c.St.clone()
			c.St.mem[Loc{obj, streamLoc}] = s
			setTok(e, c.St, obj, s)
			c.Res = u.Not(u.Eq(kindAt(u, s), eof(u)))
			return true
		}
		if c.Fn == R.head {
			par := c.Args[R.parArg]
			if cur == nil {
				panic(undecided("a nested parse outside ParseExpr"))
			}
			if cur.kind == 1 && !cur.hit {
				cur.hit = true
				s := cur.setup
				s.st, s.par, s.g, s.args = c.St.clone(), par, u.And(e.ctx, c.G), c.Args
				for l := range c.St.mem {
					if l.path == streamLoc {
						if s.obj != nil {
							panic(undecided("two scanners"))
						}
						s.obj = l.base
					}
				}
				if s.obj == nil {
					panic(undecided("no scanner"))
				}
			}
			if cur.kind == 4 {
				cur.nested = append(cur.nested, c.St.clone())
			}
			if cur.kind == 1 || cur.kind == 4 {
				c.Res = u.App("probed", nodeT, par)
				return true
			}
			s := cur.setup
			if s == nil {
				s = getSetup(e, fr, c)
			}
			obj := s.obj
			if _, ok := c.St.mem[Loc{obj, streamLoc}]; !ok {
				// a run of its own
				obj = nil
				for l := range c.St.mem {
					if l.path == streamLoc {
						obj = l.base
					}
				}
			}
			at := stream(c.St, obj)
			// the mode
			var mode *V
			if obj == s.obj {
				mode = e.loadAt(c.St, s.modeP.base, s.modeP.path, s.text.typ)
			} else {
				mode = e.loadAt(c.St, par, s.modeP.path, s.text.typ)
			}
			if mode == nil {
				panic(undecided("the mode of the parser is not known"))
			}
			in := u.Eq(mode, s.in)
			xs := []*V{at, in}
			// the token handed over is the current one
			okay := u.Or(in, u.Eq(mode, s.text))
			okay = u.And(okay, u.Eq(e.loadAt(c.St, obj, R.tok, R.tokT), tokAt(u, at)))
			if R.tokArg >= 0 {
				here := u.And(e.ctx, c.G)
				okay = u.And(okay, u.Eq(u.Under(c.Args[R.tokArg], here), u.Under(tokAt(u, at), here)))
			}
			if !u.Implies(u.And(e.ctx, c.G), okay) {
				xs = append(xs, u.Str("token or mode"), okay)
			}
			if p.nestedLog != nil && cur.kind == 2 {
				nc := nestedCall{from: cur.s, at: at, depth: map[*V]*V{}, g: u.And(e.ctx, c.G), where: p.posStr(c.Site.Pos())}
				for i, b := range cur.depth {
					nc.depth[b] = c.St.mem[cur.depthAt[i]]
				}
				*p.nestedLog = append(*p.nestedLog, nc)
			}
			n := app(u, "node", nodeT, xs...)
			rest := app(u, "rest", streamT, xs...)
			c.St = c.St.clone()
			c.St.mem[Loc{obj, streamLoc}] = rest
			setTok(e, c.St, obj, rest)
			c.Res = n
			return true
		}
		return false
	}
}
