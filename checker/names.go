package main

import (
	"go/constant"
	"go/types"
)

// C13: a name that is in no table has no symbol.

func init() {
	addRule("C13", "a name that is none is refused, whatever it looks like", 1, func(c *Ctx) {
		p := c.P
		const r = "a name that is none is refused, whatever it looks like"
		path := modPath + "/internal/tex2unicode"
		for _, fn := range []string{"Index", "HasSymbol"} {
			f := p.Func(path, fn)
			if f == nil || len(f.Params) == 0 || !isString(f.Params[0].Type()) || f.Signature.Results().Len() != 1 {
				continue
			}
			for _, math := range []bool{true, false} {
				if len(f.Params) == 1 && !math {
					continue
				}
				func() {
					u := NewUniv()
					e := NewEng(p, u, Cfg{})
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(undecidedErr); !ok {
								panic(x)
							}
						}
					}()
					e.Globals = p.InitGlobals(e, path)
					args := e.Params(f)
					name := args[0]
					if len(args) > 1 {
						args[1] = u.Bool(math)
					}
					of := func(v *V) bool { return Contains(v, func(x *V) bool { return x == name }) }
					e.Absent = of
					lit := func(a, b *V) bool {
						_, ok := b.strConst()
						return ok && isString(a.typ) && of(a)
					}
					u.Distinct = func(a, b *V) bool { return lit(a, b) || lit(b, a) }
					res := e.Run(f, args, newState())
					n := u.App("len", types.Typ[types.Int], name)
					long := u.And(u.Pos(u.Sub(n, u.Int(1), n.typ), n.typ), u.Not(u.Eq(u.App("runelen", types.Typ[types.Int], name), n)))
					what := fn + " of a name in no table"
					if len(args) > 1 {
						what += map[bool]string{true: ", in mathematics", false: ", in text"}[math]
					}
					bad := ""
					for _, l := range u.Leaves(res.Vals[0]) {
						if u.Under(u.And(l.cond, res.G), long) == u.False || of(l.val) || l.val == u.False {
							continue
						}
						if l.val.isConst() && l.val.c != nil && (l.val.c.Kind() == constant.Int || l.val.c.Kind() == constant.Bool) || l.val == u.True {
							bad = l.val.str(4)
						}
					}
					c.check(bad == "", r, what, p.posStr(f.Pos()), "a name that is in no table, and is no character, gives "+bad)
				}()
			}
		}
	})
}
