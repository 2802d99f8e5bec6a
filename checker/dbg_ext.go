package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func dbgExt() {
	p, _ := Load("/repo")
	n := map[string]int{}
	for _, f := range p.everyF() {
		if !p.library(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [16]*ssa.Value
				for _, v := range in.Operands(rands[:0]) {
					switch x := (*v).(type) {
					case *ssa.Function:
						if !p.inModule(x) {
							n["F "+x.String()]++
						}
					case *ssa.Global:
						if x.Pkg != nil && !p.isModule(x.Pkg.Pkg.Path()) {
							n["G "+x.String()]++
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					n["I "+c.Common().Method.FullName()]++
				}
			}
		}
	}
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, n[k])
	}
}
