package main

// C07: distinct kinds of nodes print with distinct shapes.

import (
	"go/constant"
	"strconv"
	"strings"
)

// leading is the fixed text a trace of prints starts with; stop tells that
// text which is not fixed follows.
func leading(e *Eng, v *V) (s string, stop bool) {
	switch v.op {
	case OConst:
		return "", false
	case OSym:
		for _, lp := range e.Loops {
			for _, x := range lp.Vars {
				if x.Mu == v || x.Om == v {
					s, _ := leading(e, x.Init)
					return s, true
				}
			}
		}
		return "", true
	case OIte:
		a, sa := leading(e, v.args[1])
		b, sb := leading(e, v.args[2])
		if a == b {
			return a, sa || sb
		}
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		return a[:n], true
	case OSeq:
		for i, x := range v.args {
			if v.splic[i] {
				t, stop := leading(e, x)
				s += t
				if stop {
					return s, true
				}
				continue
			}
			if x.op != OApp || x.s != "do:lit" {
				return s, true
			}
			t, ok := x.args[1].strConst()
			if !ok {
				return s, true
			}
			s += t
		}
		return s, false
	}
	return "", true
}

func init() {
	addRule("C07", "distinct kinds of nodes print with distinct shapes", 11, func(c *Ctx) {
		p := c.P
		const r = "distinct kinds of nodes print with distinct shapes"
		var pr *pair
		for _, x := range p.pairs("C07") {
			if x.name == "print" {
				pr = x
			}
		}
		u := NewUniv()
		e := NewEng(p, u, Cfg{Dispatch: p.world(), Hook: treeHook(p, "Print", true)})
		u.NonNil = func(v *V) bool { return v.op != OConst && e.world(v.typ) != nil }
		e.Globals = c.Globals
		args := e.Params(pr.got)
		k := -1
		for i, q := range pr.got.Params {
			if q.Name() == "k" {
				k = i
			}
		}
		shape := map[string]string{}
		names := []string{"List", "Macro", "Arg", "OptArg", "MathExpr", "Sub", "Sup", "Ident", "Word", "Literal", "Symbol"}
		for _, x := range oracleTable("kinds") {
			n, _ := strconv.Atoi(x)
			xs := append([]*V{}, args...)
			xs[k] = u.Const(constant.MakeInt64(int64(n)), pr.got.Params[k].Type())
			out := e.Run(pr.got, xs, newState())
			shape[names[n]], _ = leading(e, traceOf(e, out.St))
		}
		where := p.posStr(p.Func(astPath, "Print").Pos())
		for i, a := range names {
			clash := ""
			for _, b := range names[:i] {
				if strings.HasPrefix(shape[a], shape[b]) || strings.HasPrefix(shape[b], shape[a]) {
					clash = b
				}
			}
			c.check(clash == "" && shape[a] != "", r, "ast."+a+" starts with "+strconv.Quote(shape[a]), where, "the printed form of ast."+a+" can not be told from that of ast."+clash)
		}
	})
}
