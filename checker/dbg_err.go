package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
)

func dbgErrs() {
	p, _ := Load("/repo")
	errT := types.Universe.Lookup("error").Type()
	for _, f := range p.allF {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					r := x.Common().Signature().Results()
					if r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), errT) {
						fmt.Println("ERR", f, p.posStr(in.Pos()), x.Common().Description(), x.Common().Value.Name())
					}
				case *ssa.Range:
					fmt.Println("RANGE", f, x.X.Type(), p.posStr(in.Pos()))
				}
			}
		}
	}
}
