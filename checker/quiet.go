package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// harmless are the packages whose functions have no effect outside of what
// they are given.
func harmless(pkg string) bool {
	switch pkg {
	case "strings", "strconv", "errors", "bytes", "bufio", "io", "sort", "slices", "maps", "cmp", "iter", "math", "math/bits", "math/cmplx", "math/big",
		"unicode", "unicode/utf8", "unicode/utf16", "text/scanner", "text/tabwriter", "text/template", "text/template/parse", "sync", "sync/atomic", "image", "go/token",
		"reflect", "regexp", "regexp/syntax", "hash", "hash/fnv", "hash/crc32", "hash/adler32", "container/heap", "container/list", "container/ring", "context",
		"math/rand", "math/rand/v2", "unique", "unsafe", "path", "time", "embed", "html":
		return true
	}
	for _, p := range []string{"image/", "encoding", "compress/", "crypto/sha", "crypto/md5", "golang.org/x/image/", "golang.org/x/text/", "golang.org/x/exp/", "github.com/go-fonts/"} {
		if strings.HasPrefix(pkg+"/", p) || strings.HasPrefix(pkg, p) {
			return true
		}
	}
	return false
}

// effect tells what a function of another module does to the process or the
// world; file tells that it does so to a file named by its first string.
func effect(g *ssa.Function) (what string, file bool) {
	name := originName(g)
	pkg := funcPkg(g, nil)
	base := name[strings.LastIndex(name, ".")+1:]
	if base == "init" && g.Signature.Recv() == nil {
		return "", false // importing it
	}
	switch pkg {
	case "fmt":
		if strings.HasPrefix(base, "Print") {
			return "writes to standard output", false
		}
		if strings.HasPrefix(base, "Scan") && g.Signature.Recv() == nil {
			return "reads standard input", false
		}
		return "", false
	case "log":
		switch {
		case strings.HasPrefix(base, "Fatal"):
			return "ends the process", false
		case strings.HasPrefix(base, "Set"):
			return "changes the standard logger", false
		}
		return "", false
	case "time":
		if base == "Sleep" {
			return "", false
		}
		if base == "AfterFunc" || base == "LoadLocation" {
			return "leaves something running or reads files", false
		}
		return "", false
	case "io":
		return "", false
	case "os":
		switch base {
		case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "IsPathSeparator", "NewSyscallError":
			return "", false
		}
		if r := g.Signature.Recv(); r != nil {
			return "", false // files are made by others
		}
		switch base {
		case "Create", "Open", "OpenFile", "ReadFile", "WriteFile", "Stat", "Lstat", "ReadDir", "Mkdir", "MkdirAll":
			return "uses a file", true
		case "Exit":
			return "ends the process", false
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Setenv", "Unsetenv", "Clearenv":
			return "uses the environment", false
		}
		return "uses the operating system (" + base + ")", false
	case "path/filepath":
		switch base {
		case "Walk", "WalkDir", "Glob", "EvalSymlinks", "Abs":
			return "reads the file system", false
		}
		return "", false
	case "io/ioutil":
		if base == "ReadAll" || base == "NopCloser" {
			return "", false
		}
		return "uses a file", base == "ReadFile" || base == "WriteFile"
	case "runtime":
		switch base {
		case "KeepAlive", "Caller", "Callers", "CallersFrames", "FuncForPC", "Error", "Next", "Name", "Version":
			return "", false
		}
		return "uses the runtime (" + base + ")", false
	case "runtime/debug":
		if base == "Stack" || base == "ReadBuildInfo" {
			return "", false
		}
		return "changes settings of the process", false
	}
	if strings.HasPrefix(pkg, "git.sr.ht/~sbinet/gg") || strings.HasPrefix(pkg, "github.com/go-pdf/fpdf") {
		for _, p := range []string{"Save", "Load", "OutputFile", "ImageFrom", "AddFont", "AddUTF8Font"} {
			if strings.HasPrefix(base, p) && !strings.Contains(base, "FromBytes") && !strings.Contains(base, "Reader") {
				return "uses a file", true
			}
		}
		if strings.HasPrefix(base, "SetDefault") {
			return "changes settings of the process", false
		}
		return "", false
	}
	if harmless(pkg) {
		return "", false
	}
	return "uses package " + pkg, false
}

// given tells values that come from what users pass in.
func (p *Prog) given(f *ssa.Function, v ssa.Value, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		if exported(f) {
			return true
		}
		n := 0
		for _, g := range p.everyF() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f {
						continue
					}
					n++
					for i, q := range f.Params {
						if q == x && (i >= len(c.Common().Args) || !p.given(g, c.Common().Args[i], busy)) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.given(f, e, busy) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return p.given(f, x.X, busy) || p.given(f, x.Y, busy)
	case *ssa.ChangeType:
		return p.given(f, x.X, busy)
	case *ssa.Convert:
		return p.given(f, x.X, busy)
	case *ssa.MakeInterface:
		return p.given(f, x.X, busy)
	case *ssa.Extract:
		return p.given(f, x.Tuple, busy)
	case *ssa.Slice:
		return p.given(f, x.X, busy)
	case *ssa.FieldAddr:
		return p.given(f, x.X, busy)
	case *ssa.Field:
		return p.given(f, x.X, busy)
	case *ssa.IndexAddr:
		return p.given(f, x.X, busy)
	case *ssa.UnOp:
		return p.given(f, x.X, busy)
	case *ssa.FreeVar:
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					for i, fv := range f.FreeVars {
						if fv == x && !p.given(f.Parent(), mc.Bindings[i], busy) {
							return false
						}
					}
				}
			}
		}
		return true
	case *ssa.Alloc:
		ok := false
		for _, r := range *x.Referrers() {
			if s, is := r.(*ssa.Store); is && s.Addr == ssa.Value(x) {
				if !p.given(f, s.Val, busy) {
					return false
				}
				ok = true
			}
		}
		return ok
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok || x.Call.StaticCallee() == nil {
			return false
		}
		switch funcPkg(x.Call.StaticCallee(), nil) {
		case "strings", "path/filepath", "path", "fmt":
			for _, a := range x.Call.Args {
				if p.given(f, a, busy) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	addRule("C25", "every function of the library, initialisers included: no call ends the process, uses streams, files, environment or network of its own, or changes settings of the process", 250, func(c *Ctx) {
		const r = "the library keeps to what it is given"
		p := c.P
		o := p.owners()
		for _, f := range p.everyF() {
			if !p.library(f) {
				continue
			}
			c.Funcs[f.String()] = true
			bad := false
			fault := func(in ssa.Instruction, format string, a ...any) {
				bad = true
				msg := fmt.Sprintf(format, a...)
				c.bad(r, f.String()+": "+msg, p.posStr(w0(in.Pos(), f)), f.String()+" "+msg)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						fault(in, "starts a goroutine")
					}
					site, isCall := in.(ssa.CallInstruction)
					if isCall {
						c.Counts["calls"]++
						if bi, ok := site.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
							fault(in, "writes to standard error (%s)", bi.Name())
						}
					}
					for _, g := range p.operandFuncs(in) {
						what, file := effect(g)
						if what == "" {
							continue
						}
						if file && isCall && site.Common().StaticCallee() == g {
							ok := false
							for _, a := range site.Common().Args {
								if bt, isB := a.Type().Underlying().(*types.Basic); isB && bt.Kind() == types.String {
									ok = p.given(f, a, map[ssa.Value]bool{})
									break
								}
							}
							if ok {
								continue
							}
							what += " that users did not name"
						}
						fault(in, "%s (%s)", what, originName(g))
					}
					var rands [16]*ssa.Value
					for _, v := range in.Operands(rands[:0]) {
						g, ok := (*v).(*ssa.Global)
						if !ok || g.Pkg == nil || p.isModule(g.Pkg.Pkg.Path()) {
							continue
						}
						switch n := g.String(); n {
						case "os.Stdout", "os.Stderr", "os.Stdin", "os.Args":
							fault(in, "uses %s", n)
						}
					}
				}
			}
			if w := o.fn[f]; w != nil {
				for _, m := range sortedMods(w) {
					if m.r.kind == 'g' && m.r.g.Pkg != nil && !p.isModule(m.r.g.Pkg.Pkg.Path()) {
						fault(m.site, "changes %s", m.r.g.String())
						break
					}
				}
			}
			if !bad {
				c.ok(r, f.String())
			}
		}
	})
	addRule("C25", "scanners of text report errors to a handler, not to standard error: it is set when the scanner is first used", 1, func(c *Ctx) {
		const r = "scanners have an error handler"
		p := c.P
		n := 0
		for _, f := range p.everyF() {
			if !p.library(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					site, ok := in.(ssa.CallInstruction)
					if !ok || site.Common().StaticCallee() == nil || site.Common().StaticCallee().String() != "(*text/scanner.Scanner).Init" {
						continue
					}
					n++
					if p.errorSet(f, site) {
						c.ok(r, f.String())
					} else {
						c.bad(r, f.String(), p.posStr(in.Pos()), "a scanner is set up without an error handler: it writes to standard error")
					}
				}
			}
			// scanners that are used as they are
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					site, ok := in.(ssa.CallInstruction)
					if ok && site.Common().StaticCallee() != nil && strings.HasPrefix(site.Common().StaticCallee().String(), "(*text/scanner.Scanner).") {
						c.Counts["uses of scanners"]++
					}
				}
			}
		}
		if n == 0 {
			c.ok(r, "no scanner is used")
		}
	})
}

// errorSet tells that the handler of a scanner is set after Init and before
// it is first used: on every way from Init to the end of the function, or to
// a use there; or, if the function leaves that to its callers, in those.
func (p *Prog) errorSet(f *ssa.Function, site ssa.CallInstruction) bool {
	sets := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || tkey(derefT(fa.X.Type())) != "text/scanner.Scanner" {
			return false
		}
		st := structOf(derefT(fa.X.Type()))
		if st == nil || st.Field(fa.Field).Name() != "Error" {
			return false
		}
		k, isConst := s.Val.(*ssa.Const)
		return !(isConst && k.Value == nil)
	}
	var setsF func(g *ssa.Function, n int) bool
	setsF = func(g *ssa.Function, n int) bool {
		if g == nil || g.Blocks == nil || n > 4 {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				all := true
				for _, x := range g.Blocks {
					if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
						all = false
					}
				}
				if !all {
					break
				}
				if sets(in) {
					return true
				}
				if c, ok := in.(*ssa.Call); ok && p.inModule2(c.Call.StaticCallee()) && setsF(c.Call.StaticCallee(), n+1) {
					return true
				}
			}
		}
		return false
	}
	uses := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil {
			return false
		}
		switch c.Common().StaticCallee().String() {
		case "(*text/scanner.Scanner).Scan", "(*text/scanner.Scanner).Next", "(*text/scanner.Scanner).Peek":
			return true
		}
		return false
	}
	// from Init on, in a function; 1 set, 0 left open, -1 used before
	var from func(b *ssa.BasicBlock, i int, seen map[*ssa.BasicBlock]bool) int
	from = func(b *ssa.BasicBlock, i int, seen map[*ssa.BasicBlock]bool) int {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if sets(in) {
				return 1
			}
			if uses(in) {
				return -1
			}
			if c, ok := in.(*ssa.Call); ok && p.inModule2(c.Call.StaticCallee()) {
				if setsF(c.Call.StaticCallee(), 0) {
					return 1
				}
				if p.leadsTo(c.Call.StaticCallee(), uses, map[*ssa.Function]bool{}) {
					return -1
				}
			}
			switch in.(type) {
			case *ssa.Return:
				return 0
			case *ssa.Panic:
				return 1
			}
		}
		res := 1
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if r := from(s, 0, seen); r < res {
				res = r
			}
		}
		return res
	}
	at := func(in ssa.Instruction) int {
		b := in.Block()
		for i, x := range b.Instrs {
			if x == in {
				return from(b, i+1, map[*ssa.BasicBlock]bool{})
			}
		}
		return -1
	}
	busy := map[*ssa.Function]bool{}
	var settled func(g *ssa.Function, in ssa.Instruction) bool
	settled = func(g *ssa.Function, in ssa.Instruction) bool {
		switch at(in) {
		case 1:
			return true
		case -1:
			return false
		}
		if exported(g) || busy[g] {
			return false
		}
		busy[g] = true
		n := 0
		for _, h := range p.everyF() {
			for _, b := range h.Blocks {
				for _, x := range b.Instrs {
					if c, ok := x.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
						n++
						if !settled(h, x) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return settled(f, site.(ssa.Instruction))
}

func (p *Prog) inModule2(g *ssa.Function) bool {
	return g != nil && p.inModule(g) && g.Blocks != nil
}

// leadsTo tells whether a function leads to an instruction of a kind.
func (p *Prog) leadsTo(g *ssa.Function, is func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
	}
	for _, h := range p.callees(g) {
		if p.leadsTo(h, is, seen) {
			return true
		}
	}
	return false
}
