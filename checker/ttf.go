package main

// The truetype backend (font/ttf): what the font library answers is described
// by its contract.  Glyph extents, advances and kerning are the ppem asked for
// times quantities of the font in units of the em; errors end the call.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	ttfPath  = modPath + "/font/ttf"
	sfntPath = "golang.org/x/image/font/sfnt"
	xfntPath = "golang.org/x/image/font"
	otPath   = "golang.org/x/image/font/opentype"
	fixPath  = "golang.org/x/image/math/fixed"
)

// real is the real number an integer of the program stands for.
func (e *Eng) real(v *V, st *State) *V {
	f := types.Typ[types.Float64]
	if isFloat(v.typ) {
		return v
	}
	return e.convert(v, v.typ, f, st)
}

// unreal strips the rounding of a conversion to an integer.
func (u *Univ) unreal(v *V) *V {
	return u.lift(func(x []*V) *V {
		if x[0].op == OApp && x[0].s == "toint" {
			return x[0].args[0]
		}
		return x[0]
	}, v)
}

// ttfHook describes the font library; upem, when not 0, is the number of
// units per em of all fonts; with whole, fonts are complete: they never yield
// errors.
func ttfHook(p *Prog, upem int64, whole bool) func(e *Eng, fr *Frame, c *CallCtx) bool {
	inner := ttfHook1(p, upem)
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		if !inner(e, fr, c) {
			return false
		}
		u := e.U
		if whole && c.Res != nil && c.Res.op == OTuple && (c.Fn == nil || c.Fn.Pkg == nil || c.Fn.Pkg.Pkg.Path() != specPath) {
			xs := append([]*V{}, c.Res.args...)
			if n := len(xs); n > 0 {
				if tup, ok := siteType(c).(*types.Tuple); ok && tup.At(n-1).Type().String() == "error" {
					xs[n-1] = u.Nil(tup.At(n - 1).Type())
					c.Res = u.Tuple(xs...)
				}
			}
		}
		return true
	}
}

func ttfHook1(p *Prog, upem int64) func(e *Eng, fr *Frame, c *CallCtx) bool {
	f64 := types.Typ[types.Float64]
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		u := e.U
		fixT := func() types.Type { return p.depType(fixPath, "Int26_6") }
		per := func(what string, args ...*V) *V {
			return u.lift(func(x []*V) *V { return u.App("em:"+what, f64, x...) }, args...)
		}
		fix := func(r *V) *V {
			return u.lift(func(x []*V) *V {
				return u.App("fromreal", fixT(), x[0])
			}, r)
		}
		name := c.Name
		var args []*V
		for _, a := range c.Args {
			if strings.HasSuffix(typeName(a.typ), "sfnt.Buffer") {
				continue
			}
			if a.isNilConst() && a.typ != nil && strings.HasSuffix(typeName(a.typ), "sfnt.Buffer") {
				continue
			}
			args = append(args, a)
		}
		if c.Method != nil {
			pkg := ""
			if c.Method.Pkg() != nil {
				pkg = c.Method.Pkg().Path()
			}
			if pkg != xfntPath && name != "(io.Closer).Close" {
				return false
			}
			if c.Method.Name() == "Close" {
				c.Res = u.Nil(siteType(c))
				return true
			}
			if c.Method.Name() == "Metrics" {
				T := siteType(c)
				s := structOf(T)
				c.Res = u.lift(func(x []*V) *V {
					if x[0].op != OApp || x[0].s != "face" {
						panic(undecided("metrics of an unknown face"))
					}
					a := x[0].args // font, size, dpi, hinting
					xs := make([]*V, s.NumFields())
					for i := range xs {
						ft := s.Field(i).Type()
						if !types.Identical(ft, fixT()) {
							xs[i] = u.App("face:"+s.Field(i).Name(), ft, a...)
							continue
						}
						em := per(s.Field(i).Name(), a[0], a[3])
						xs[i] = fix(u.Mul(u.Mul(u.Mul(a[1], a[2], f64), u.ratConst(big.NewRat(64, 72), f64), f64), em, f64))
					}
					return u.Struct(T, xs)
				}, c.Recv)
				return true
			}
			return false
		}
		if c.Fn == nil {
			return false
		}
		if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == specPath && strings.HasPrefix(c.Fn.Name(), "T_") {
			switch n := strings.TrimPrefix(c.Fn.Name(), "T_"); n {
			case "kern":
				r := per("kern", c.Args...)
				er := u.lift(func(x []*V) *V { return u.App("err:kern", c.Fn.Signature.Results().At(1).Type(), x...) }, c.Args...)
				c.Res = u.Tuple(r, er)
			default:
				c.Res = per(n, c.Args...)
			}
			return true
		}
		if name == "(*sync.Once).Do" {
			// the first call
			_, g, st := fr.callVal(c.Site, c.Args[1], nil, c.G, c.St)
			c.Res, c.G, c.St = u.Nil(nil), g, st
			return true
		}
		switch funcPkg(c.Fn, nil) {
		case fixPath:
			if name == fixPath+".I" {
				c.Res = u.Mul(u.Const(constant.MakeInt64(64), fixT()), args[0], fixT())
				return true
			}
		case otPath:
			if c.Fn.Name() == "NewFace" {
				T := c.Fn.Signature.Params().At(1).Type()
				s := structOf(derefT(T))
				o := e.Load(c.St, args[1], derefT(T))
				get := func(n string) *V {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == n {
							return u.Field(o, i, s.Field(i).Type())
						}
					}
					panic(undecided("no option " + n + " of faces"))
				}
				rs := c.Fn.Signature.Results()
				face := u.lift(func(x []*V) *V { return u.App("face", rs.At(0).Type(), x...) }, args[0], get("Size"), get("DPI"), get("Hinting"))
				er := u.lift(func(x []*V) *V { return u.App("err:face", rs.At(1).Type(), x...) }, args[0], get("Size"), get("DPI"), get("Hinting"))
				c.Res = u.Tuple(face, er)
				return true
			}
		case sfntPath:
			if c.Fn.Signature.Recv() == nil {
				for i := range args {
					args[i] = e.resolve(c.St, args[i], c.Fn.Signature.Params().At(i).Type(), true)
				}
				c.Res = e.pureApp("sfnt."+c.Fn.Name(), siteType(c), args)
				return true
			}
			rs := c.Fn.Signature.Results()
			errOf := func(what string, xs ...*V) *V {
				return u.lift(func(x []*V) *V { return u.App("err:"+what, rs.At(rs.Len()-1).Type(), x...) }, xs...)
			}
			ppem := func(v *V) *V { return u.unreal(e.real(u.unreal(v), c.St)) }
			switch c.Fn.Name() {
			case "UnitsPerEm":
				if upem != 0 {
					c.Res = u.Const(constant.MakeInt64(upem), siteType(c))
				} else {
					c.Res = e.pureApp("upem", siteType(c), args)
				}
			case "GlyphBounds": // glyph, ppem, hinting
				B := rs.At(0).Type()
				P := structOf(B).Field(0).Type()
				q := ppem(args[2])
				pt := func(k string) *V {
					return u.Struct(P, []*V{fix(u.Mul(q, per(k+"x", args[0], args[1], args[3]), f64)), fix(u.Mul(q, per(k+"y", args[0], args[1], args[3]), f64))})
				}
				c.Res = u.Tuple(u.Struct(B, []*V{pt("min"), pt("max")}), fix(u.Mul(q, per("advance", args[0], args[1], args[3]), f64)), errOf("bounds", args...))
			case "GlyphAdvance":
				c.Res = u.Tuple(fix(u.Mul(ppem(args[2]), per("advance", args[0], args[1], args[3]), f64)), errOf("advance", args...))
			case "Kern": // font, glyph, glyph, ppem, hinting
				// what fails does not depend on the size
				c.Res = u.Tuple(fix(u.Mul(ppem(args[3]), per("kern", args[0], args[1], args[2], args[4]), f64)), errOf("kern", args[0], args[1], args[2], args[4]))
			case "Metrics":
				return false
			default:
				c.Res = e.pureApp("sfnt."+c.Fn.Name(), siteType(c), args)
			}
			return true
		}
		return false
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

// depType is a type of a package outside the module.
func (p *Prog) depType(pkg, name string) types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if m, ok := q.Members[name].(*ssa.Type); ok {
				return m.Type()
			}
		}
	}
	panic(undecided(fmt.Sprintf("no type %s.%s", pkg, name)))
}
