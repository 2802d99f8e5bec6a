package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsteady tells functions whose results vary from run to run.
func unsteady(name string) string {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker"} {
		if name == p {
			return "the time"
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.", "math/rand/v2.", "(*math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*hash/maphash."} {
		if strings.HasPrefix(name, p) {
			return "randomness"
		}
	}
	for _, p := range []string{"os.Getenv", "os.LookupEnv", "os.Environ", "os.Expand", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getwd", "os.Getuid", "os.Executable", "os.TempDir", "os.UserHomeDir", "os.UserCacheDir", "os.UserConfigDir", "syscall.Get", "os/user.", "runtime.NumCPU", "runtime.NumGoroutine", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "runtime.Stack", "runtime/debug."} {
		if strings.HasPrefix(name, p) {
			return "the environment"
		}
	}
	for _, p := range []string{"(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr"} {
		if name == p {
			return "addresses"
		}
	}
	for _, p := range []string{"(reflect.Value).MapRange", "(reflect.Value).MapKeys", "(*sync.Map).Range", "(*reflect.MapIter)."} {
		if strings.HasPrefix(name, p) {
			return "the order of a map"
		}
	}
	return ""
}

// operandFuncs are the functions of other modules that an instruction uses.
func (p *Prog) operandFuncs(in ssa.Instruction) (out []*ssa.Function) {
	var rands [16]*ssa.Value
	for _, v := range in.Operands(rands[:0]) {
		if g, ok := (*v).(*ssa.Function); ok && (!p.inModule(g) || g.Blocks == nil) {
			out = append(out, g)
		}
	}
	return
}

func originName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		return o.String()
	}
	return g.String()
}

func init() {
	addRule("C24", "every function of the library: nothing it uses varies from run to run (time, randomness, environment, addresses, schedules, order of maps)", 250, func(c *Ctx) {
		const r = "what is used does not vary from run to run"
		p := c.P
		for _, f := range p.everyF() {
			if !p.library(f) {
				continue
			}
			c.Funcs[f.String()] = true
			bad := map[string]token.Pos{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Go:
						bad["schedules (it starts a goroutine)"] = in.Pos()
					case *ssa.Select:
						if len(x.States) > 1 {
							bad["schedules (it waits for one of several channels)"] = in.Pos()
						}
					case *ssa.Convert:
						if x.Type().Underlying() == types.Typ[types.Uintptr] && x.X.Type().Underlying() == types.Typ[types.UnsafePointer] {
							bad["addresses"] = in.Pos()
						}
					case *ssa.Call:
						for _, a := range x.Call.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") && x.Call.StaticCallee() != nil && strings.HasPrefix(x.Call.StaticCallee().String(), "fmt.") && len(*x.Referrers()) > 0 && !failing(x.Call.Signature()) {
								bad["addresses"] = in.Pos()
							}
						}
					}
					for _, g := range p.operandFuncs(in) {
						if why := unsteady(originName(g)); why != "" {
							bad[why+" ("+originName(g)+")"] = in.Pos()
						}
					}
				}
			}
			for why, pos := range bad {
				c.bad(r, f.String()+": "+why, p.posStr(pos), "what "+f.String()+" does depends on "+why)
			}
			if len(bad) == 0 {
				c.ok(r, f.String())
			}
		}
	})
	addRule("C24", "every loop over a map, and over a list made by one, does the same whatever the order", 4, func(c *Ctx) {
		const r = "the order of maps has no effect"
		p := c.P
		o := &orders{p: p, seenF: map[string]bool{}, tainted: map[*ssa.Function]map[int]bool{}}
		for _, f := range p.everyF() {
			if !p.library(f) {
				continue
			}
			n0 := len(o.faults)
			n := o.mapRanges(f)
			n += o.mapLists(f)
			if n > 0 {
				c.Funcs[f.String()] = true
			}
			if len(o.faults) == n0 {
				for i := 0; i < n; i++ {
					c.ok(r, fmt.Sprintf("%s loop %d", f, i))
				}
			}
		}
		c.Counts["loops"] += o.loops
		for i := 0; i < o.loops; i++ {
			c.ok(r, fmt.Sprintf("loop %d", i))
		}
		for _, x := range o.faults {
			c.bad(r, x.f.String()+": "+x.msg, p.posStr(w0(x.pos, x.f)), x.msg)
		}
	})
	addRule("C24", "no package variable that functions read is changed by functions while the library is used: earlier calls have no effect on later ones", 250, func(c *Ctx) {
		const r = "earlier calls leave nothing behind"
		p := c.P
		o := p.owners()
		run, guarded := p.running()
		reads := map[*ssa.Global]bool{}
		for _, f := range run {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Store); ok {
						if g := rootGlobal(in.(*ssa.Store).Addr); g != nil {
							continue
						}
					}
					var rands [16]*ssa.Value
					for _, v := range in.Operands(rands[:0]) {
						if g, ok := (*v).(*ssa.Global); ok {
							reads[g] = true
						}
					}
				}
			}
		}
		for _, f := range run {
			w := o.fn[f]
			if w == nil || guarded[f] != nil {
				continue
			}
			bad := false
			for _, m := range sortedMods(w) {
				if m.r.kind == 'g' && reads[m.r.g] && !bad {
					bad = true
					c.bad(r, f.String()+": "+m.r.g.String(), p.posStr(m.site.Pos()), "what later calls find in "+m.r.g.String()+" is changed")
				}
			}
			if !bad {
				c.ok(r, f.String())
			}
		}
	})
}

// mapLists checks the lists that the library of the language makes of maps.
func (o *orders) mapLists(f *ssa.Function) (n int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			switch originName(c.Call.StaticCallee()) {
			case "maps.Keys", "maps.Values", "maps.All", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
			default:
				continue
			}
			n++
			if _, ok := c.Type().Underlying().(*types.Slice); ok {
				o.unordered(f, c, nil)
				continue
			}
			for _, r := range *c.Referrers() {
				q, ok := r.(*ssa.Call)
				if _, dbg := r.(*ssa.DebugRef); dbg {
					continue
				}
				if !ok || q.Call.StaticCallee() == nil {
					o.bad(f, c.Pos(), "the order of a map is used")
					continue
				}
				switch originName(q.Call.StaticCallee()) {
				case "slices.Sorted", "maps.Collect", "maps.Insert":
				case "slices.Collect":
					o.unordered(f, q, nil)
				default:
					o.bad(f, c.Pos(), "the order of a map is used")
				}
			}
		}
	}
	return
}
