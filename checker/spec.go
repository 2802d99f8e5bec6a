package main

// Reference models: the package in spec/ states, in Go over the exported API,
// what an operation must yield (want_*) next to a harness that performs it
// (got_*).  Both are analysed, not run: their value graphs over the same
// symbolic arguments are compared.

import (
	"embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//go:embed spec/*.go
var specFS embed.FS

const specPath = modPath + "/internal/vspec"

// addSpec type-checks the reference models against the loaded tree.
func (p *Prog) addSpec() error {
	deps := map[string]*types.Package{}
	packages.Visit(p.Pkgs, nil, func(q *packages.Package) {
		if q.Types != nil {
			deps[q.PkgPath] = q.Types
		}
	})
	var files []*ast.File
	es, err := specFS.ReadDir("spec")
	if err != nil {
		return err
	}
	for _, x := range es {
		b, err := specFS.ReadFile("spec/" + x.Name())
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(p.Fset, "spec/"+x.Name(), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	var errs []string
	cfg := types.Config{Importer: depImporter(deps), Error: func(err error) { errs = append(errs, err.Error()) }}
	pkg, _ := cfg.Check(specPath, p.Fset, files, info)
	if len(errs) > 0 {
		return fmt.Errorf("the reference models do not fit the API of the tree: %s", strings.Join(errs, "; "))
	}
	sp := p.SSA.CreatePackage(pkg, files, info, false)
	sp.Build()
	p.SPkg[specPath] = sp
	p.specFiles = files
	return nil
}

type depImporter map[string]*types.Package

func (d depImporter) Import(path string) (*types.Package, error) {
	if q := d[path]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("package %s is not part of the tree", path)
}

type pair struct {
	prop, name string
	got, want  *ssa.Function
	dirs       map[string][]string
}

// pairs are the reference models of a property.
func (p *Prog) pairs(prop string) []*pair {
	sp := p.SPkg[specPath]
	var out []*pair
	for n, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "got_"+prop+"_") {
			continue
		}
		name := strings.TrimPrefix(n, "got_"+prop+"_")
		w := sp.Func("want_" + prop + "_" + name)
		if w == nil {
			panic(undecided("no want for " + n))
		}
		pr := &pair{prop: prop, name: name, got: f, want: w, dirs: p.directives(f)}
		for k, v := range p.directives(w) {
			pr.dirs[k] = append(pr.dirs[k], v...)
		}
		out = append(out, pr)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (p *Prog) directives(f *ssa.Function) map[string][]string {
	d := map[string][]string{}
	for _, file := range p.specFiles {
		for _, cg := range file.Comments {
			pos := p.Fset.Position(cg.End())
			fp := p.Fset.Position(f.Syntax().Pos())
			if pos.Filename != fp.Filename || pos.Line+1 != fp.Line {
				continue
			}
			for _, c := range cg.List {
				if s, ok := strings.CutPrefix(c.Text, "//vf:"); ok {
					k, v, _ := strings.Cut(s, " ")
					d[k] = append(d[k], strings.TrimSpace(v))
				}
			}
		}
	}
	return d
}

// texNodes are the node types of the box model, as they occur in lists.
func (p *Prog) ptrs(pkg string, names ...string) []types.Type {
	var o []types.Type
	for _, n := range names {
		o = append(o, types.NewPointer(p.Type(modPath+pkg, n)))
	}
	return o
}

func (p *Prog) world() func(types.Type, *types.Func) []types.Type {
	nodes := p.ptrs("/tex", "Char", "Accent", "Kern", "Glue", "Rule", "HList", "VList")
	trees := p.ptrs("/tex", "HList", "VList")
	return func(t types.Type, m *types.Func) []types.Type {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return nil
		}
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case modPath + "/tex.Node":
			return nodes
		case modPath + "/tex.Tree":
			return trees
		}
		return nil
	}
}

var traceLocV *V

// traceHook appends an entry to the trace of observable operations.
func traceAppend(e *Eng, st *State, name string, args ...*V) *State {
	u := e.U
	l := Loc{u.Sym("trace", nil), ""}
	old, ok := st.mem[l]
	if !ok {
		old = u.Seq(nil, nil, types.Typ[types.UnsafePointer])
	}
	st = st.clone()
	ev := u.App("do:"+name, nil, args...)
	st.mem[l] = u.Append(old, u.Seq([]*V{ev}, nil, old.typ), types.Typ[types.UnsafePointer])
	return st
}

func traceOf(e *Eng, st *State) *V {
	if v, ok := st.mem[Loc{e.U.Sym("trace", nil), ""}]; ok {
		return v
	}
	return e.U.Seq(nil, nil, types.Typ[types.UnsafePointer])
}

func (e *Eng) pureApp(name string, t types.Type, args []*V) *V {
	u := e.U
	r := u.lift(func(x []*V) *V { return u.App("call:"+name, t, x...) }, args...)
	if tup, ok := t.(*types.Tuple); ok && tup.Len() > 0 {
		var xs []*V
		for i := 0; i < tup.Len(); i++ {
			i := i
			xs = append(xs, u.lift(func(x []*V) *V { return u.App(fmt.Sprintf("ext:%d", i), tup.At(i).Type(), x[0]) }, r))
		}
		return u.Tuple(xs...)
	}
	return r
}

func siteType(c *CallCtx) types.Type {
	if v := c.Site.Value(); v != nil {
		return v.Type()
	}
	return nil
}

// specHook interprets what reference models have in common.
func specHook(p *Prog, d map[string][]string, extra func(e *Eng, fr *Frame, c *CallCtx) bool) func(e *Eng, fr *Frame, c *CallCtx) bool {
	opq := map[string]bool{}
	for _, x := range d["opaque"] {
		for _, n := range strings.Fields(x) {
			opq[n] = true
		}
	}
	trd := map[string]bool{}
	for _, x := range d["traced"] {
		for _, n := range strings.Fields(x) {
			trd[n] = true
		}
	}
	short := func(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }
	ship := shipHook(p)
	if d["mtex"] != nil {
		ship = layHook(p)
	}
	if d["parse"] != nil {
		ship = parseHook(p)
	}
	if l := d["ttf"]; l != nil {
		f := strings.Fields(l[0])
		n, _ := strconv.ParseInt(f[0], 10, 64)
		ship = ttfHook(p, n, len(f) > 1 && f[1] == "whole")
	}
	if d["draw"] != nil {
		ship = drawHook(p)
	}
	if d["walk"] != nil {
		ship = treeHook(p, "Walk", false)
	}
	if d["print"] != nil {
		ship = treeHook(p, "Print", false)
	}
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		if ship(e, fr, c) {
			return true
		}
		if extra != nil && extra(e, fr, c) {
			return true
		}
		u := e.U
		if c.Method != nil {
			switch short(c.Name) {
			case "(font.Backend).RenderGlyph", "(font.Backend).RenderRectFilled":
				c.St = traceAppend(e, c.St, short(c.Name), append([]*V{c.Recv}, c.Args...)...)
				c.Res = u.Nil(nil)
				return true
			case "(font.Backend).Kern", "(font.Backend).Metrics", "(font.Backend).XHeight", "(font.Backend).UnderlineThickness":
				c.Res = e.pureApp(short(c.Name), siteType(c), append([]*V{c.Recv}, c.Args...))
				return true
			}
			if trd[short(c.Name)] {
				c.St = traceAppend(e, c.St, short(c.Name), append([]*V{c.Recv}, c.Args...)...)
				c.Res = u.Nil(nil)
				if t := siteType(c); t != nil {
					c.Res = e.pureApp("answer:"+short(c.Name), t, append([]*V{c.Recv}, c.Args...))
				}
				return true
			}
			if opq[short(c.Name)] {
				c.Res = e.pureApp(short(c.Name), siteType(c), append([]*V{c.Recv}, c.Args...))
				return true
			}
			return false
		}
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath && c.Fn.Name() == "unicodeOf" {
			if n, ok := c.Args[0].strConst(); ok {
				c.Res = u.Const(constant.MakeInt64(int64(texUnicode[n])), types.Typ[types.Rune])
				return true
			}
		}
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath && strings.HasPrefix(c.Fn.Name(), "X_") {
			parts := strings.Split(c.Fn.Name(), "_") // X_pkg_Type_role
			path := p.role(parts[1], parts[2], parts[3])
			t := siteType(c)
			b, q := splitAddr(c.Args[0])
			if c.Args[0].op == OIte {
				c.Res = u.lift(func(x []*V) *V { b, q := splitAddr(x[0]); return e.loadAt(c.St, b, q+path, t) }, c.Args[0])
				return true
			}
			c.Res = e.loadAt(c.St, b, q+path, t)
			return true
		}
		if c.Fn != nil {
			switch c.Name {
			case "log.Printf", "log.Println", "log.Print":
				c.Res = u.Nil(nil)
				return true
			}
		}
		if trd[short(c.Name)] {
			c.St = traceAppend(e, c.St, short(c.Name), c.Args...)
			c.Res = u.Nil(nil)
			return true
		}
		if opq[short(c.Name)] {
			args := make([]*V, len(c.Args))
			sig := c.Fn.Signature
			off := 0
			if sig.Recv() != nil {
				off = 1
			}
			for i, a := range c.Args {
				if i < off {
					args[i] = a
					continue
				}
				args[i] = e.resolve(c.St, a, sig.Params().At(i-off).Type(), true)
			}
			c.Res = e.pureApp(short(c.Name), siteType(c), args)
			return true
		}
		return false
	}
}

type diff struct {
	what, got, want string
}

// compare analyses both sides of a pair and lists what differs.
func comparePair(p *Prog, pr *pair, globals *State, extra func(e *Eng, fr *Frame, c *CallCtx) bool) (ds []diff, funcs, names []string) {
	ds, funcs, names, apart := comparePairs(p, pr, globals, extra, false)
	if len(ds) > 0 && apart {
		if d, f, n, _ := comparePairs(p, pr, globals, extra, true); len(d) == 0 {
			return d, f, n
		}
	}
	return ds, funcs, names
}

func comparePairs(p *Prog, pr *pair, globals *State, extra func(e *Eng, fr *Frame, c *CallCtx) bool, peel bool) (ds []diff, funcs, names []string, apart bool) {
	u := NewUniv()
	world := p.world()
	if w := pr.dirs["world"]; w != nil {
		base := world
		m := map[string][]types.Type{}
		for _, x := range w {
			f := strings.Fields(x)
			pk, _, _ := strings.Cut(f[0], ".")
			m[modPath+"/"+f[0]] = p.ptrs("/"+pk, f[1:]...)
		}
		world = func(t types.Type, mm *types.Func) []types.Type {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				if l := m[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; l != nil {
					return l
				}
			}
			return base(t, mm)
		}
	}
	e := NewEng(p, u, Cfg{Dispatch: world, Hook: specHook(p, pr.dirs, extra), PeelLast: peel})
	u.NonNil = func(v *V) bool { return v.op != OConst && e.world(v.typ) != nil }
	if pr.dirs["mtex"] != nil {
		// the parser places every node it hands to the layout
		u.Position = func(v *V) bool { return v.op == OSym && typeName(v.typ) == modPath+"/token.Pos" }
	}
	e.Finite = p.finite()
	e.Globals = globals
	if pr.dirs["ttf"] != nil {
		e.NoMemo = pr.dirs["vary"] == nil
		e.InitHook = e.Cfg.Hook
	}
	if g := pr.dirs["globals"]; g != nil {
		var ps []string
		for _, x := range g {
			for _, y := range strings.Fields(x) {
				ps = append(ps, strings.TrimSuffix(modPath+"/"+y, "/."))
			}
		}
		e.Globals = p.InitGlobals(e, ps...)
	}
	if p.engHook != nil {
		p.engHook(e)
	}
	run := func(args []*V, prefix string) {
		a := e.Run(pr.got, args, newState())
		b := e.Run(pr.want, args, newState())
		g := a.G
		partial := pr.dirs["partial"] != nil
		if partial {
			g = u.And(a.G, b.G)
		}
		// what a side yields where it does not return is of no concern
		when := func(g, v *V) *V { return u.Ite(g, u.Under(v, g), u.App("none", nil)) }
		type item struct {
			what string
			a, b *V
		}
		var items []item
		if !partial {
			items = append(items, item{"condition of normal return", a.G, b.G})
		}
		res := pr.got.Signature.Results()
		for i := range a.Vals {
			n := fmt.Sprintf("result %d", i)
			if res.At(i).Name() != "" {
				n = res.At(i).Name()
			}
			if i < len(b.Vals) {
				av, bv := a.Vals[i], b.Vals[i]
				if _, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
					av, bv = e.Content(a.St, av), e.Content(b.St, bv)
				}
				items = append(items, item{n, when(g, av), when(g, bv)})
			}
		}
		items = append(items, item{"operations performed", when(g, traceOf(e, a.St)), when(g, traceOf(e, b.St))})
		var roots []root
		for _, it := range items {
			roots = append(roots, root{it.a, a.St}, root{it.b, b.St})
		}
		c := newCanon(e, roots, nil)
		if os.Getenv("VFDBG") != "" {
			c.dumpVars()
		}
		if x, y := c.objects(roots, 0), c.objects(roots, 1); pr.dirs["identity"] != nil && x != y {
			ds = append(ds, diff{prefix + "identity of the objects created", x, y})
		}
		differ := false
		for _, it := range items {
			differ = differ || c.of(it.a) != c.of(it.b)
		}
		var second []bool
		if differ {
			rg := &ranges{at: map[*V]map[int64]bool{}, rel: map[*V]bool{}}
			for i := 0; i < 6; i++ {
				rg.dirty = false
				c2 := newCanon(e, roots, rg)
				second = nil
				for _, it := range items {
					second = append(second, c2.of(it.a) == c2.of(it.b))
				}
				if !rg.dirty {
					if os.Getenv("VFDBG") != "" {
						c2.whyVars()
					}
					break
				}
				second = nil
			}
		}
		for i, it := range items {
			x, y := c.of(it.a), c.of(it.b)
			if x != y && (second == nil || !second[i]) {
				ds = append(ds, diff{prefix + it.what, firstDiff(x, y, ""), c.explain(it.a, 8) + "\n    want " + c.explain(it.b, 8)})
			}
		}
		for _, it := range items {
			names = append(names, prefix+it.what)
		}
	}
	args := e.Params(pr.got)
	if pr.dirs["mtex"] != nil {
		p.ownBackend(u, pr.got, args)
		p.inSource(u, pr.got, args)
	}
	if each := pr.dirs["each"]; each != nil {
		f := strings.Fields(each[0]) // parameter, table
		k := -1
		for i, q := range pr.got.Params {
			if q.Name() == f[0] {
				k = i
			}
		}
		if k < 0 {
			panic(undecided("no parameter " + f[0]))
		}
		for _, x := range oracleTable(f[1]) {
			xs := append([]*V{}, args...)
			xs[k] = u.Str(x)
			if t := pr.got.Params[k].Type(); isInteger(t) {
				n, _ := strconv.Atoi(x)
				xs[k] = u.Const(constant.MakeInt64(int64(n)), t)
			}
			run(xs, fmt.Sprintf("%q: ", x))
		}
	} else if pr.dirs["vary"] != nil {
		p.vary(u, pr, args, run)
	} else {
		run(args, "")
	}
	for f := range e.Inlined {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != specPath {
			funcs = append(funcs, f.String())
		}
	}
	return ds, funcs, names, e.ApartLast
}

// vary compares two requests that agree in everything but, at most, one
// parameter or one field of a parameter: x2 is the x of the second request.
func (p *Prog) vary(u *Univ, pr *pair, args []*V, run func(args []*V, prefix string)) {
	at := map[string]int{}
	for i, q := range pr.got.Params {
		at[q.Name()] = i
	}
	base := append([]*V{}, args...)
	for n, i := range at {
		if k, ok := at[strings.TrimSuffix(n, "2")]; ok && strings.HasSuffix(n, "2") {
			base[i] = args[k]
		}
	}
	lit := func(a, b *V) bool {
		_, c := b.strConst()
		return c && a.op == OSym
	}
	defer func(f func(*V) bool) { u.Distinct, u.NonNil = nil, f }(u.NonNil)
	nn := u.NonNil
	u.NonNil = func(v *V) bool { return typeName(v.typ) == "*"+sfntPath+".Font" || nn(v) }
	// the literal stands for any other value
	u.Distinct = func(a, b *V) bool { return lit(a, b) || lit(b, a) }
	run(base, "the same request: ")
	for _, v := range strings.Fields(pr.dirs["vary"][0]) {
		n, field, _ := strings.Cut(v, ".")
		i, k := at[n+"2"], at[n]
		xs := append([]*V{}, base...)
		q, q2 := args[k], args[i]
		if field == "" {
			xs[i] = q2
		} else {
			t := pr.got.Params[k].Type()
			s := structOf(t)
			fs := make([]*V, s.NumFields())
			for j := range fs {
				fs[j] = u.Field(args[k], j, s.Field(j).Type())
				if s.Field(j).Name() == field {
					q, q2 = fs[j], u.Field(args[i], j, s.Field(j).Type())
					fs[j] = q2
				}
			}
			xs[i] = u.Struct(t, fs)
		}
		u.Distinct = func(a, b *V) bool { return a == q && b == q2 || a == q2 && b == q || lit(a, b) || lit(b, a) }
		run(xs, "requests that differ in "+v+": ")
	}
}

// finite recognises the shifts of lists.
func (p *Prog) finite() func(v *V) bool {
	var at map[string]string
	return func(v *V) bool {
		if v.op != OApp || !strings.HasPrefix(v.s, "load:") || len(v.args) != 1 {
			return false
		}
		if at == nil {
			at = map[string]string{}
			for _, t := range []string{"List", "HList", "VList"} {
				func() {
					defer func() { recover() }()
					if t == "List" {
						at["*"+texPath+".List"] = p.role("tex", t, "shift")
						return
					}
					at["*"+texPath+"."+t] = p.role("tex", t, "lst.shift")
				}()
			}
		}
		r, ok := at[typeName(v.args[0].typ)]
		return ok && v.s == "load:"+r
	}
}

// whereOf is the place a reference model is about.
func (p *Prog) whereOf(pr *pair) string {
	for _, n := range pr.dirs["at"] {
		for _, f := range p.allF {
			if f.String() == n {
				return p.posStr(f.Pos()) + " " + n
			}
		}
		return n
	}
	return "reference model " + pr.prop + " " + pr.name
}
