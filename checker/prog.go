package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-latex/latex"

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	loops map[*ssa.BasicBlock]*natLoop
	order []*ssa.BasicBlock
	rpo   map[*ssa.BasicBlock]int
}

type Prog struct {
	Dir       string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	ByP       map[string]*packages.Package
	SSA       *ssa.Program
	SPkg      map[string]*ssa.Package
	li        map[*ssa.Function]*loopInfo
	allF      []*ssa.Function
	implM     map[string][]types.Type
	specFiles []*ast.File
	nestedLog *[]nestedCall
	engHook   func(*Eng)
	recM      map[*ssa.Function]*ssa.Function
	takenM    map[string][]*ssa.Function
	calleeM   map[*ssa.Function][]*ssa.Function
	parseR    *parseRoles
	own       *owners
	globalPkg map[string]string // variables of the library and their packages
}

// constOf is the value of a constant of a package.
func (p *Prog) constOf(pkg, name string) constant.Value {
	sp := p.SPkg[pkg]
	if sp != nil {
		if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return c.Val()
		}
	}
	panic(undecided("no constant " + pkg + "." + name))
}

// loadEnv is the environment of the go command that lists the packages: the
// toolchain the repository is built with, and nothing from the network.
func loadEnv() []string {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
	const goBin = "/opt/veriftools/go1.23.12/bin"
	if _, err := os.Stat(goBin); err == nil {
		env = append(env, "PATH="+goBin+":"+os.Getenv("PATH"))
		os.Setenv("PATH", goBin+":"+os.Getenv("PATH"))
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  loadEnv(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, SPkg: map[string]*ssa.Package{}, ByP: map[string]*packages.Package{}, li: map[*ssa.Function]*loopInfo{}, implM: map[string][]types.Type{}}
	for i, sp := range spkgs {
		p.ByP[pkgs[i].PkgPath] = pkgs[i]
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.SPkg[pkgs[i].PkgPath] = sp
		p.Fset = pkgs[i].Fset
	}
	p.globalPkg = map[string]string{}
	for path, sp := range p.SPkg {
		if strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, modPath+"/cmd/") && path != modPath+"/internal/fakebackend" {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					p.globalPkg[g.String()] = path
				}
			}
		}
	}
	if err := p.addSpec(); err != nil {
		return nil, err
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.allF = append(p.allF, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		if sp.Pkg.Path() == specPath {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.allF, func(i, j int) bool {
		if p.allF[i].Pos() != p.allF[j].Pos() {
			return p.allF[i].Pos() < p.allF[j].Pos()
		}
		return p.allF[i].String() < p.allF[j].String()
	})
	return p, nil
}

func (p *Prog) isModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.isModule(fn.Pkg.Pkg.Path())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.isModule(o.Pkg().Path())
	}
	if fn.Parent() != nil {
		return p.inModule(fn.Parent())
	}
	// wrappers
	return fn.Synthetic != ""
}

func (p *Prog) method(T types.Type, m *types.Func) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(T)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// Method finds a method by name on T or *T of package pkg.
func (p *Prog) MethodOf(T types.Type, name string) *ssa.Function {
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Prog) Type(pkg, name string) types.Type {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// impls are the concrete module types that implement an interface.
func (p *Prog) impls(it *types.Interface) []types.Type {
	key := types.TypeString(it, nil)
	if r, ok := p.implM[key]; ok {
		return r
	}
	var paths []string
	for k := range p.SPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	var out []types.Type
	for _, k := range paths {
		sc := p.SPkg[k].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if isIfaceT(t) {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	p.implM[key] = out
	return out
}

func (p *Prog) loopsOf(fn *ssa.Function) (map[*ssa.BasicBlock]*natLoop, []*ssa.BasicBlock, map[*ssa.BasicBlock]int) {
	if l, ok := p.li[fn]; ok {
		return l.loops, l.order, l.rpo
	}
	l := &loopInfo{loops: map[*ssa.BasicBlock]*natLoop{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		l.rpo[post[i]] = len(l.order)
		l.order = append(l.order, post[i])
	}
	for _, b := range l.order {
		for _, s := range b.Succs {
			if l.rpo[s] <= l.rpo[b] {
				if !s.Dominates(b) {
					panic(undecided("irreducible control flow in " + fn.String()))
				}
				nl := l.loops[s]
				if nl == nil {
					nl = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					l.loops[s] = nl
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if nl.body[x] {
						continue
					}
					nl.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// blocks of a loop must be contiguous for the region walk: RPO visits a
	// loop exit only after the loop when edges out of it are pending, which
	// the worklist by order guarantees for reducible graphs once exits are
	// ordered after the bodies.
	l.order = contiguous(fn, l)
	for i, b := range l.order {
		l.rpo[b] = i
	}
	p.li[fn] = l
	return l.loops, l.order, l.rpo
}

// contiguous reorders blocks topologically such that the blocks of each loop
// come before the blocks its exits lead to.
func contiguous(fn *ssa.Function, l *loopInfo) []*ssa.BasicBlock {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range l.order {
		in[b] = true
	}
	// dependency: b after all its non-back preds; and after all blocks of
	// every loop that contains a pred but not b.
	done := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock, busy map[*ssa.BasicBlock]bool)
	visit = func(b *ssa.BasicBlock, busy map[*ssa.BasicBlock]bool) {
		if done[b] || busy[b] || !in[b] {
			return
		}
		busy[b] = true
		for _, p := range b.Preds {
			if !in[p] {
				continue
			}
			if nl := l.loops[b]; nl != nil && nl.body[p] {
				continue // back edge
			}
			visit(p, busy)
			for _, nl := range l.loops {
				if nl.body[p] && !nl.body[b] {
					for _, x := range l.order {
						if nl.body[x] {
							visit(x, busy)
						}
					}
				}
			}
		}
		if !done[b] {
			done[b] = true
			out = append(out, b)
		}
	}
	for _, b := range l.order {
		visit(b, map[*ssa.BasicBlock]bool{})
	}
	return out
}

func (p *Prog) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InitGlobals evaluates the package initialisers, giving the constant tables.
func (p *Prog) InitGlobals(e *Eng, pkgs ...string) *State {
	stored := map[string]bool{}
	for _, f := range p.allF {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		isInit := strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isInit {
					continue
				}
				var at ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					at = in.Addr
				case *ssa.MapUpdate:
					at = in.Map
				default:
					continue
				}
				if g := rootGlobal(at); g != nil {
					stored["global:"+g.String()] = true
				}
			}
		}
	}
	st := newState()
	old := e.Globals
	oldHook := e.Cfg
	if e.gdone == nil {
		e.gdone = map[string]bool{}
	}
	for _, path := range pkgs {
		e.gdone[path] = true
	}
	e.Globals = st
	e.Cfg = Cfg{Hook: func(e *Eng, fr *Frame, c *CallCtx) bool {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Synthetic != "" {
			c.Res = e.U.Nil(nil)
			return true
		}
		return e.InitHook != nil && e.InitHook(e, fr, c)
	}}
	for _, path := range pkgs {
		sp := p.SPkg[path]
		if sp == nil {
			panic(undecided("package " + path + " not found"))
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				b := e.U.Sym("global:"+g.String(), g.Type())
				st.mem[Loc{b, "#"}] = e.U.True
			}
		}
		// the init guard starts false
		r := e.runAt(sp.Func("init"), st, "init:"+path)
		for k, v := range r.St.mem {
			st.mem[k] = v
		}
	}
	for k := range st.mem {
		if k.base.op == OSym && stored[k.base.s] {
			delete(st.mem, k)
		}
	}
	e.Globals = old
	e.Cfg = oldHook
	return st
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// lazyGlobals evaluates the initialiser of the package of a variable, the
// first time one of its variables is read.
func (e *Eng) lazyGlobals(b *V) bool {
	path := e.P.globalPkg[strings.TrimPrefix(b.s, "global:")]
	if path == "" || e.gdone[path] {
		return false
	}
	cfg, glob, depth, ctx, done := e.Cfg, e.Globals, e.loopDepth, e.ctx, false
	var st *State
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(undecidedErr); !ok {
					panic(x)
				}
			}
		}()
		e.ctx = e.U.True
		st = e.P.InitGlobals(e, path)
		done = true
	}()
	e.Cfg, e.Globals, e.loopDepth, e.ctx = cfg, glob, depth, ctx
	if !done {
		return false
	}
	g := newState()
	if glob != nil {
		for k, v := range glob.mem {
			g.mem[k] = v
		}
	}
	for k, v := range st.mem {
		g.mem[k] = v
	}
	e.Globals = g
	return true
}
