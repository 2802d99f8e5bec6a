package main

// The driver: runs the rules of one property over the loaded tree, compares
// what they report with the findings on record, and writes the evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation: a construct of the tree and what is
// wrong with it.
type Finding struct {
	Rule, Key, Where, Detail string
}

// Ctx collects what the rules of one property did.
type Ctx struct {
	P        *Prog
	Prop     string
	Tier     string
	Obl      []string // discharged obligations: rule and construct
	Bad      []Finding
	Funcs    map[string]bool
	Counts   map[string]int
	Rules    []string
	Globals  *State
	globalsE *Eng
}

type rule struct {
	name  string // what the rule decides
	floor int    // least number of instances confirmed on the reviewed tree
	run   func(c *Ctx)
}

// rules of a property, beside its reference models.
var ruleSet = map[string][]rule{}

func addRule(prop, name string, floor int, run func(c *Ctx)) {
	ruleSet[prop] = append(ruleSet[prop], rule{name, floor, run})
}

func (c *Ctx) ok(rule, instance string) { c.Obl = append(c.Obl, rule+": "+instance) }
func (c *Ctx) bad(rule, key, where, detail string) {
	c.Bad = append(c.Bad, Finding{rule, key, where, detail})
}
func (c *Ctx) check(ok bool, rule, key, where, detail string) bool {
	if ok {
		c.ok(rule, key)
	} else {
		c.bad(rule, key, where, detail)
	}
	return ok
}

func (c *Ctx) guarded(name string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				c.bad(name, name+"/undecided", "", "the rule cannot be decided: "+u.msg)
				return
			}
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 40 {
				st = st[:40]
			}
			c.bad(name, name+"/internal", "", fmt.Sprintf("the rule cannot be decided: %v\n%s", x, strings.Join(st, "\n")))
		}
	}()
	f()
}

func (c *Ctx) runPairs() {
	ps := c.P.pairs(c.Prop)
	if len(ps) == 0 {
		return
	}
	c.Rules = append(c.Rules, "value graphs of the operations equal those of their reference models, for all arguments")
	for _, pr := range ps {
		c.guarded("model "+pr.name, func() {
			ds, funcs, items := comparePair(c.P, pr, c.Globals, nil)
			for _, f := range funcs {
				c.Funcs[f] = true
			}
			where := c.P.whereOf(pr)
			bad := map[string]bool{}
			for _, d := range ds {
				bad[d.what] = true
				c.bad("model "+pr.name, pr.name+"/"+d.what, where, fmt.Sprintf("%s is not what the reference model says\n    %s\n  code has\n    %s", d.what, d.got, d.want))
			}
			for _, it := range items {
				if !bad[it] {
					c.ok("model "+pr.name, it)
				}
			}
		})
	}
}

type knownFinding struct{ prop, key, text string }

func readKnown(file string) (out []knownFinding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 3)
		if len(f) != 3 {
			continue
		}
		out = append(out, knownFinding{strings.TrimPrefix(f[0], "property="), f[1], f[2]})
	}
	return out
}

func runCheck(prop, verif, repo string) int {
	t0 := time.Now()
	// a check that does not come to an answer says so in time
	go func() {
		time.Sleep(800 * time.Second)
		rp := filepath.Join("evidence", prop+".report.txt")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, rp), []byte("the rules could not be decided in 800 s: the code has a form that the analysis does not follow\n"), 0o644)
		fmt.Printf("%s: not decided in 800 s\nVIOLATION property=%s replay=%s\n", prop, prop, rp)
		os.Exit(1)
	}()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{Prop: prop, Tier: tier, Funcs: map[string]bool{}, Counts: map[string]int{}}
	c.guarded("load", func() {
		p, err := Load(repo)
		if err != nil {
			c.bad("load", "load", "", err.Error())
			return
		}
		c.P = p
		c.runPairs()
		for _, r := range ruleSet[prop] {
			n := len(c.Obl) + len(c.Bad)
			c.Rules = append(c.Rules, r.name)
			c.guarded(r.name, func() { r.run(c) })
			if k := len(c.Obl) + len(c.Bad) - n; k < r.floor {
				c.bad(r.name, r.name+"/instances", "", fmt.Sprintf("only %d instances of the rule found, %d were confirmed by review: its anchors are gone", k, r.floor))
			}
		}
	})
	var report strings.Builder
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	seen := map[string]bool{}
	nbad := 0
	for _, b := range c.Bad {
		isKnown := false
		for _, k := range known {
			if k.prop == prop && k.key == b.Rule+" # "+b.Key {
				isKnown = true
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if isKnown {
			continue
		}
		nbad++
		fmt.Fprintf(&report, "%s\n  rule: %s\n  construct: %s\n  %s\n\n", b.Where, b.Rule, b.Key, b.Detail)
	}
	var rep struct {
		Property   string         `json:"property"`
		Tier       string         `json:"tier"`
		Seed       int            `json:"seed"`
		Level      string         `json:"level"`
		Coverage   map[string]any `json:"coverage"`
		Assume     []string       `json:"assumptions"`
		WallS      float64        `json:"wall_s"`
		Violations int            `json:"violations"`
	}
	rep.Property, rep.Tier, rep.Level, rep.Violations = prop, tier, "other", nbad
	fmt.Sscan(os.Getenv("VERIF_SEED"), &rep.Seed)
	var fs []string
	for f := range c.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	obl := append([]string{}, c.Obl...)
	sort.Strings(obl)
	if most := 1500; len(obl) > most {
		var some []string
		for i := 0; i < most; i++ {
			some = append(some, obl[i*len(obl)/most])
		}
		obl = append(some, fmt.Sprintf("... and %d more like these", len(c.Obl)-most))
	}
	rep.Coverage = map[string]any{
		"explanation":                   explanation(verif, prop),
		"rules_applied":                 c.Rules,
		"obligations":                   len(c.Obl) + len(c.Bad),
		"discharged":                    len(c.Obl),
		"obligations_listed":            obl,
		"functions_analysed":            fs,
		"functions_in_the_loaded_tree":  nfuncs(c.P),
		"findings_on_record_seen_again": len(seen),
		"sites":                         c.Counts,
	}
	rep.Assume = assumptions
	rep.WallS = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(rep, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d rules, %d obligations, %d discharged, %d functions analysed, %.1fs\n", prop, len(c.Rules), len(c.Obl)+len(c.Bad), len(c.Obl), len(c.Funcs), rep.WallS)
	rp := filepath.Join("evidence", prop+".report.txt")
	if nbad == 0 {
		os.Remove(filepath.Join(verif, rp))
		return 0
	}
	os.WriteFile(filepath.Join(verif, rp), []byte(strings.ToValidUTF8(report.String(), "?")), 0o644)
	s := strings.ToValidUTF8(report.String(), "?")
	if len(s) > 6000 {
		s = strings.ToValidUTF8(s[:6000], "") + "\n... (see " + rp + ")\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func nfuncs(p *Prog) int {
	if p == nil {
		return 0
	}
	return len(p.allF)
}

var assumptions = []string{
	"the packages named by go list ./... in /repo are the library; dependencies outside the module are described by their documented contracts",
	"go/types and go/ssa (golang.org/x/tools) represent the program faithfully",
	"real arithmetic stands for float64 arithmetic: rounding, overflow and NaN are not modelled",
	"implementations of the library's interfaces are those of the library (users' own nodes, renderers and canvases are opaque)",
}

// explanation says what a check decides and how (tools/claimed.json).
func explanation(verif, prop string) string {
	var m map[string]struct{ Technique, Note string }
	b, err := os.ReadFile(filepath.Join(verif, "tools", "claimed.json"))
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil {
		return "see DESIGN.md"
	}
	return m[prop].Technique + ". " + m[prop].Note
}
