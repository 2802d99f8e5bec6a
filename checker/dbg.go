package main

import "fmt"

// firstDiff describes where two canonical values part.
func firstDiff(a, b *V, path string) string {
	if a == b {
		return ""
	}
	if a.op != b.op || a.s != b.s || len(a.args) != len(b.args) || a.op == OPoly || len(a.args) == 0 {
		return fmt.Sprintf("at %s:\n        got  %s (%v)\n        want %s (%v)", path, a.str(4), a.typ, b.str(4), b.typ)
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			lab := fmt.Sprintf("%s.%d", a.s, i)
			if a.op == OIte {
				lab = [3]string{"if", fmt.Sprintf(" when %s", a.args[0].str(3)), fmt.Sprintf(" when not %s", a.args[0].str(3))}[i]
			}
			return firstDiff(a.args[i], b.args[i], path+"/"+lab)
		}
	}
	return fmt.Sprintf("at %s: %s (types %v, %v)", path, a.str(4), a.typ, b.typ)
}

func (c *canon) dumpVars() {
	str := func(v *V, n int) string {
		if v == nil {
			return "nil"
		}
		return v.str(n)
	}
	for _, v := range c.vars {
		l := c.e.Loops[v.Mu]
		n := "-"
		if l.N != nil {
			n = str(c.of(l.N), 6)
		}
		if v.Init == nil || v.Next == nil {
			fmt.Println("VAR without", v.Mu.s)
			continue
		}
		fmt.Printf("VAR col %d loopcol %d N=%v\n   init %s (%v)\n   next %s\n", c.vcol[v], c.lcol[l], n, c.of(v.Init).str(6), c.of(v.Init).typ, c.of(v.Next).str(12))
	}
}

// whyVars prints where loop variables that could correspond part.
func (c *canon) whyVars() {
	for i, v := range c.vars {
		for _, w := range c.vars[i+1:] {
			lv, lw := c.e.Loops[v.Mu], c.e.Loops[w.Mu]
			if c.vcol[v] == c.vcol[w] || c.of(v.Init) != c.of(w.Init) || lv == lw {
				continue
			}
			save := c.sub
			s := map[*V]*V{}
			for k, x := range save {
				s[k] = x
			}
			s[w.Mu], s[w.Om], s[lw.K] = s[v.Mu], s[v.Om], s[lv.K]
			c.sub = s
			c.nm = nil
			if lv.N != nil && lw.N != nil && c.of(lv.N) != c.of(lw.N) {
				fmt.Println("LOOPS DIFFER N", c.of(lv.N).str(6), c.of(lw.N).str(6))
			}
			for k := range lv.Exits {
				if k < len(lw.Exits) && c.of(lv.Exits[k]) != c.of(lw.Exits[k]) {
					fmt.Println("LOOPS DIFFER exit", k, firstDiff(c.of(lv.Exits[k]), c.of(lw.Exits[k]), ""))
				}
			}
			if c.of(lv.Back) != c.of(lw.Back) || lv.Depth != lw.Depth {
				fmt.Println("LOOPS DIFFER back", lv.Depth, lw.Depth, c.of(lv.Back).str(7), "\n", c.of(lw.Back).str(7))
			}
			if c.of(lv.Abort) != c.of(lw.Abort) {
				fmt.Println("LOOPS DIFFER abort", firstDiff(c.of(lv.Abort), c.of(lw.Abort), ""))
			}
			fmt.Println("VARS DIFFER", v.Mu.typ, w.Mu.typ, c.vcol[v], c.vcol[w], c.lcol[lv], c.lcol[lw], lv.N != nil, lw.N != nil, lv.Depth, lw.Depth, firstDiff(c.of(v.Next), c.of(w.Next), ""))
			c.sub = save
			c.nm = nil
		}
	}
}
