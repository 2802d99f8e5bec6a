package main

// Drawing: what a gg context is told is reduced to what it shows.  Fills are
// recorded with the outline and colour in force, strings with their face.

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

const ggPath = "git.sr.ht/~sbinet/gg"

var callSite = regexp.MustCompile(`@[^(]*\(`)

func drawHook(p *Prog) func(e *Eng, fr *Frame, c *CallCtx) bool {
	ttf := ttfHook(p, 0, true)
	f64 := types.Typ[types.Float64]
	return func(e *Eng, fr *Frame, c *CallCtx) bool {
		u := e.U
		if c.Method != nil {
			return ttf(e, fr, c)
		}
		if c.Fn == nil {
			return false
		}
		anyT := types.NewSlice(types.Typ[types.UnsafePointer])
		get := func(ctx *V, k string) *V {
			if v, ok := c.St.mem[Loc{ctx, k}]; ok {
				return v
			}
			if k == ".path" {
				return u.Seq(nil, nil, anyT)
			}
			return u.Sym("initial "+k, nil)
		}
		set := func(ctx *V, k string, v *V) {
			c.St = c.St.clone()
			c.St.mem[Loc{ctx, k}] = v
		}
		switch funcPkg(c.Fn, nil) {
		case ggPath:
			name := c.Fn.Name()
			c.Res = u.Nil(nil)
			if c.Fn.Signature.Recv() == nil {
				if name != "NewContext" {
					return false
				}
				a := u.Alloc(fr.site(c.Site)+"/gg", derefT(siteType(c)))
				c.St = traceAppend(e, c.St, "image", c.Args...)
				c.St.mem[Loc{a, "#"}] = u.True
				c.St.mem[Loc{a, ".path"}] = u.Seq(nil, nil, anyT)
				c.St.mem[Loc{a, ".color"}] = u.Nil(nil)
				c.St.mem[Loc{a, ".face"}] = u.Nil(nil)
				c.Res = a
				return true
			}
			ctx, args := c.Args[0], c.Args[1:]
			if ctx.op != OAlloc {
				panic(undecided("drawing on an unknown context"))
			}
			pts := func(ps ...*V) {
				var xs []*V
				for i := 0; i < len(ps); i += 2 {
					xs = append(xs, u.App("point", nil, ps[i], ps[i+1]))
				}
				set(ctx, ".path", u.Append(get(ctx, ".path"), u.Seq(xs, nil, anyT), anyT))
			}
			switch name {
			case "SetColor":
				set(ctx, ".color", e.resolve(c.St, args[0], c.Fn.Signature.Params().At(0).Type(), true))
			case "SetRGB", "SetRGBA", "SetRGB255", "SetRGBA255", "SetHexColor":
				set(ctx, ".color", u.App(name, nil, args...))
			case "SetFontFace":
				set(ctx, ".face", args[0])
			case "DrawString":
				c.St = traceAppend(e, c.St, "text", args[0], args[1], args[2], get(ctx, ".face"), get(ctx, ".color"))
			case "NewSubPath", "ClosePath":
				// fills close what is open
			case "ClearPath":
				set(ctx, ".path", u.Seq(nil, nil, anyT))
			case "MoveTo", "LineTo":
				old := get(ctx, ".path")
				pt := u.App("point", nil, args[0], args[1])
				if name == "LineTo" && old.op == OSeq && len(old.args) > 0 && old.args[0] == pt {
					return true
				}
				if name == "MoveTo" && old.op == OSeq && len(old.args) > 0 {
					set(ctx, ".path", u.Append(old, u.Seq([]*V{u.App("move", nil)}, nil, anyT), anyT))
				}
				pts(args...)
			case "DrawRectangle":
				x, y, w, h := args[0], args[1], args[2], args[3]
				xw, yh := u.Add(x, w, f64), u.Add(y, h, f64)
				pts(x, y, xw, y, xw, yh, x, yh)
			case "Fill", "FillPreserve":
				c.St = traceAppend(e, c.St, "fill", get(ctx, ".path"), get(ctx, ".color"))
				if name == "Fill" {
					set(ctx, ".path", u.Seq(nil, nil, anyT))
				}
			case "Image":
				c.Res = u.App("image", siteType(c))
			case "Width", "Height":
				c.Res = e.pureApp("gg."+name, siteType(c), nil)
			default:
				c.St = traceAppend(e, c.St, "gg."+name, args...)
				if t := siteType(c); t != nil && !(isTupleT(t) && t.(*types.Tuple).Len() == 0) {
					c.Res = e.pureApp("gg."+name, t, args)
				}
			}
			return true
		case "image/png", "image/jpeg", "image/gif":
			if strings.HasPrefix(c.Fn.Name(), "Encode") && c.Fn.Signature.Recv() == nil {
				c.St = traceAppend(e, c.St, c.Name, c.Args...)
				c.Res = e.pureApp("answer:"+c.Name, siteType(c), c.Args)
				return true
			}
		}
		return ttf(e, fr, c)
	}
}

func isTupleT(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// points are the pairs of numbers, one of which at least is a coordinate, that
// calls are told: which coordinates make them up, and the names of the calls.
// moved says what is done to each point besides (an offset, a conversion).
func points(u *Univ, effs []*Eff, syms []*V, names []string) (pts [][2]string, calls []string, moved []string) {
	zero := map[*V]*V{}
	for i, s := range syms {
		if n := names[i]; len(n) <= 2 && isFloat(s.typ) {
			zero[s] = u.Float("0")
		}
	}
	rest := func(vs ...*V) string {
		var w []*V
		for _, v := range vs {
			w = append(w, u.Subst(v, zero))
		}
		return callSite.ReplaceAllString(u.Tuple(w...).str(40), "(")
	}
	coord := func(v *V) string {
		out := ""
		for i, s := range syms {
			if n := names[i]; len(n) <= 2 && (n[0] == 'X' || n[0] == 'Y') && Contains(v, func(x *V) bool { return x == s }) {
				if out != "" {
					return "" // made of several
				}
				out = n
			}
		}
		return out
	}
	num := func(v *V) bool { return v.typ != nil && isFloat(v.typ) }
	for _, x := range effs {
		pair := func(a, b *V, whole ...*V) bool {
			if !num(a) || !num(b) {
				return false
			}
			ca, cb := coord(a), coord(b)
			if ca != "" || cb != "" {
				pts, calls, moved = append(pts, [2]string{ca, cb}), append(calls, x.Name), append(moved, rest(whole...))
			}
			return true
		}
		for i := 0; i+1 < len(x.Args); i++ {
			if pair(x.Args[i], x.Args[i+1], x.Args[i], x.Args[i+1]) {
				i++
			}
		}
		for _, a := range x.Args {
			Contains(a, func(v *V) bool {
				if v.op == OStruct && len(v.args) == 2 {
					pair(v.args[0], v.args[1], a)
				}
				return false
			})
		}
	}
	return
}

// corners are the points lines are drawn between.
func corners(pts [][2]string, calls, moved []string) (out [][2]string, alike bool) {
	alike = true
	first := ""
	for i, pt := range pts {
		if pt[0] != "" && pt[1] != "" && (strings.HasSuffix(calls[i], "LineTo") || strings.HasSuffix(calls[i], "MoveTo")) {
			out = append(out, pt)
			if first == "" {
				first = moved[i]
			}
			alike = alike && moved[i] == first
		}
	}
	return
}

func init() {
	addRule("C19", "whatever goes over the operations of a canvas shows every one of them, once, in order, where it was recorded", 8, func(c *Ctx) {
		const r = "renderers show all operations"
		p := c.P
		ops := p.MethodOf(types.NewPointer(p.Type(modPath+"/drawtex", "Canvas")), "Ops")
		fonts := ttfHook(p, 0, true) // fonts the library takes
		kinds := p.impls(p.Type(modPath+"/drawtex", "Op").Underlying().(*types.Interface))
		canvas := types.NewPointer(p.Type(modPath+"/drawtex", "Canvas"))
		for _, f := range p.allF {
			if f.Object() == nil || !f.Object().Exported() || f == ops || f.Blocks == nil || f.Pkg == nil || f.Pkg.Pkg.Path() == specPath {
				continue
			}
			takes, reads := false, false
			for _, q := range f.Params {
				takes = takes || types.Identical(q.Type(), canvas)
			}
			if !takes {
				continue
			}
			for _, g := range p.reachable(f) {
				reads = reads || g == ops
			}
			if !reads {
				continue
			}
			c.Funcs[f.String()] = true
			key, where := f.String(), p.posStr(f.Pos())
			run := func(ks ...types.Type) (effs []*Eff, syms [][]*V, names [][]string, dpi *V, u *Univ) {
				u = NewUniv()
				var seq []*V
				for i, k := range ks {
					var ss []*V
					var ns []string
					var build func(t types.Type, path string) *V
					build = func(t types.Type, path string) *V {
						st := structOf(t)
						if st == nil || t.Underlying() != types.Type(st) {
							v := u.Sym("op"+strconv.Itoa(i)+path, t)
							ss, ns = append(ss, v), append(ns, path[1:])
							return v
						}
						var xs []*V
						for j := 0; j < st.NumFields(); j++ {
							xs = append(xs, build(st.Field(j).Type(), path+"."+st.Field(j).Name()))
						}
						return u.Struct(t, xs)
					}
					seq = append(seq, u.Iface(build(k, ""), k))
					syms, names = append(syms, ss), append(names, ns)
				}
				e := NewEng(p, u, Cfg{})
				e.Cfg.Hook = func(e *Eng, fr *Frame, cc *CallCtx) bool {
					if cc.Fn == ops {
						cc.Res = u.Seq(seq, nil, siteType(cc))
						return true
					}
					return fonts(e, fr, cc)
				}
				args := e.Params(f)
				for i, q := range f.Params {
					if isFloat(q.Type()) && q.Name() == "dpi" {
						dpi = args[i]
					}
				}
				if n := len(f.Params); f.Signature.Recv() != nil && n >= 2 && isFloat(f.Params[n-2].Type()) {
					dpi = args[n-2] // as mtex.Renderer has it
				}
				res := e.Run(f, args, newState())
				effs = res.Effs
				return
			}
			// what is told outside about an operation
			shown := func(effs []*Eff, ss []*V) (out []*Eff) {
				for _, x := range effs {
					if x.Kind != "call" || strings.HasPrefix(x.Name, "log.") || strings.HasPrefix(x.Name, "fmt.") || strings.HasPrefix(x.Name, "math.") {
						continue
					}
					hit := false
					for _, a := range x.Args {
						for _, s := range ss {
							hit = hit || Contains(a, func(v *V) bool { return v == s })
						}
					}
					if hit {
						out = append(out, x)
					}
				}
				return
			}
			for _, k := range kinds {
				kn := k.(*types.Named).Obj().Name()
				effs, syms, names, dpi, u := run(k)
				es := shown(effs, syms[0])
				for i, s := range syms[0] {
					n := names[0][i]
					coord := len(n) <= 2 && isFloat(s.typ)
					if !coord && n != "Glyph.Symbol" && n != "Glyph.Size" {
						continue
					}
					seen, bad := false, ""
					for _, x := range es {
						for _, a := range x.Args {
							Contains(a, func(v *V) bool {
								if v == s {
									seen = true
								}
								// a size among coordinates is a length like them
								mixed := n == "Glyph.Size" && v.op == OPoly && Contains(v, func(q *V) bool {
									for j, w := range syms[0] {
										if q == w && len(names[0][j]) <= 2 {
											return true
										}
									}
									return false
								})
								if (coord || mixed) && (v.op == OPoly || v == s) {
									for _, t := range u.termsOf(v) {
										in, sc := false, false
										for _, m := range t.mono {
											in = in || m == s
											sc = sc || m == dpi
										}
										if !in {
											continue
										}
										want := "1"
										if dpi != nil {
											want = "1/72"
										}
										if t.coef.RatString() != want && t.coef.RatString() != "-"+want || sc != (dpi != nil) {
											if v.op == OPoly {
												bad = v.str(4)
											}
										}
									}
								}
								return false
							})
						}
						if g := x.Guard; g != nil && bad == "" {
							for _, q := range syms[0] {
								if Contains(g, func(v *V) bool { return v == q }) {
									bad = "only if " + g.str(4)
								}
							}
						}
					}
					switch {
					case !seen:
						c.bad(r, key+" "+kn+"."+n, where, "the "+n+" of an operation has no effect on what is drawn")
					case bad != "":
						c.bad(r, key+" "+kn+"."+n, where, "the "+n+" of an operation is drawn as "+bad)
					default:
						c.ok(r, key+" "+kn+"."+n)
					}
				}
				// x goes across and y goes down
				pts, names2, moved := points(u, es, syms[0], names[0])
				if len(pts) > 0 {
					bad := ""
					for _, pt := range pts {
						if pt[0] != "" && pt[0][0] != 'X' || pt[1] != "" && pt[1][0] != 'Y' {
							bad = "(" + pt[0] + ", " + pt[1] + ")"
						}
					}
					c.check(bad == "", r, key+" "+kn+" axes", where, "a point is drawn at "+bad)
				}
				if outline, alike := corners(pts, names2, moved); len(outline) > 0 {
					c.check(alike, r, key+" "+kn+" outline", where, "the corners of the outline are not moved alike")
					if n := len(outline); n == 5 && outline[4] == outline[0] {
						outline = outline[:4]
					}
					okay := len(outline) == 4
					for i := range outline {
						a, b := outline[i], outline[(i+1)%len(outline)]
						okay = okay && (a[0] == b[0]) != (a[1] == b[1]) && a != outline[(i+2)%len(outline)]
					}
					c.check(okay, r, key+" "+kn+" corners", where, fmt.Sprint("the outline drawn does not go through the four corners: ", outline))
				}
				for _, k2 := range kinds {
					kn2 := k2.(*types.Named).Obj().Name()
					effs, syms, _, _, _ := run(k, k2)
					one, two := shown(effs, syms[0]), shown(effs, syms[1])
					effs2, syms2, _, _, _ := run(k2)
					okay := len(one) == len(es) && len(two) == len(shown(effs2, syms2[0]))
					for _, a := range one {
						for _, b := range two {
							ia, ib := 0, 0
							for i, x := range effs {
								if x == a {
									ia = i
								}
								if x == b {
									ib = i
								}
							}
							okay = okay && ia < ib
						}
					}
					c.check(okay, r, key+" "+kn+" then "+kn2, where, "two operations are not drawn once each in their order")
				}
			}
		}
	})
}
