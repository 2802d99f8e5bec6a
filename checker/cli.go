package main

// The command: its main function is evaluated with flags, files and
// rendering as events, and compared with what the command is to do.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cliFlag struct {
	name  string
	def   *V
	val   *V
	place *V
}

type cli struct {
	p     *Prog
	flags []*cliFlag
	args  *V
	bad   []Finding
}

// exits is the call that ends the process, and how.
func exits(name string) bool {
	switch name {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit":
		return true
	}
	return false
}

func (k *cli) hook(e *Eng, fr *Frame, c *CallCtx) bool {
	u := e.U
	told := Loc{u.Sym("told", nil), ""}
	here := func() string { return k.p.posStr(c.Site.Pos()) }
	if c.Method != nil && c.Recv != nil && c.Recv.op == OIface && strings.HasSuffix(typeName(c.Recv.typ), "os.File") {
		if fn := e.P.method(c.Recv.typ, c.Method); fn != nil {
			c.Fn, c.Args = fn, append([]*V{c.Recv.args[0]}, c.Args...)
		}
	}
	if c.Fn == nil {
		return false
	}
	name := c.Fn.String()
	st := func() *State { c.St = c.St.clone(); return c.St }
	flagOf := func(nm *V, def *V, place *V, t types.Type) {
		n := nm.str(1)
		var fl *cliFlag
		for _, x := range k.flags {
			if x.name == n {
				fl = x
			}
		}
		if fl == nil {
			fl = &cliFlag{name: n}
			k.flags = append(k.flags, fl)
		}
		fl.def, fl.place, fl.val = def, place, u.Sym("value of flag "+n, t)
		e.Store(st(), place, def, t, c.G, c.Site.Pos())
	}
	switch {
	case strings.HasPrefix(name, "flag."):
		fn := c.Fn.Name()
		c.Res = u.Nil(nil)
		switch fn {
		case "Parse":
			for _, x := range k.flags {
				e.Store(st(), x.place, x.val, x.val.typ, c.G, c.Site.Pos())
			}
			st().mem[Loc{u.Sym("parsed", nil), ""}] = u.True
		case "NArg", "Arg", "Args":
			if _, ok := c.St.mem[Loc{u.Sym("parsed", nil), ""}]; !ok {
				k.bad = append(k.bad, Finding{Key: "arguments", Where: here(), Detail: "arguments are used before flags are parsed"})
			}
			switch fn {
			case "NArg":
				c.Res = u.Len(k.args)
			case "Args":
				c.Res = k.args
			default:
				c.Res = u.Index(k.args, c.Args[0], types.Typ[types.String])
			}
		case "Usage", "PrintDefaults":
			st().mem[told] = u.True
		case "Float64", "String", "Bool", "Int", "Float64Var", "StringVar", "BoolVar", "IntVar":
			if strings.HasSuffix(fn, "Var") {
				flagOf(c.Args[1], c.Args[2], c.Args[0], derefT(c.Fn.Signature.Params().At(0).Type()))
				return true
			}
			t := derefT(siteType(c))
			a := u.Alloc("flag "+c.Args[0].str(1), t)
			st().mem[Loc{a, "#"}] = u.True
			flagOf(c.Args[0], c.Args[1], a, t)
			c.Res = a
		default:
			panic(undecided("use of flag." + fn))
		}
		return true
	case exits(name):
		zero := false
		if name == "os.Exit" {
			n, ok := c.Args[0].intConst()
			zero = !ok || n == 0
			if t, ok := c.St.mem[told]; !zero && (!ok || !u.Implies(u.And(e.ctx, c.G), u.asBool(t))) {
				k.bad = append(k.bad, Finding{Key: "failures", Where: here(), Detail: "the command fails without a message"})
			}
		}
		if zero {
			// it ends with success here
			c.St = traceAppend(e, c.St, "success")
			c.Res = u.Nil(nil)
			return true
		}
		c.Res, c.G = u.Nil(nil), u.False
		return true
	case name == "log.SetOutput" || name == "log.SetFlags" || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.Fprint"):
		if name == "log.SetOutput" {
			if !strings.Contains(c.Args[0].str(6), "os.Stderr") {
				k.bad = append(k.bad, Finding{Key: "failures", Where: here(), Detail: "messages do not go to standard error"})
			}
		}
		if strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "fmt.Fprint") && strings.Contains(c.Args[0].str(6), "os.Stderr") {
			st().mem[told] = u.True
			c.Res = u.Nil(nil)
			if strings.HasPrefix(name, "fmt.") {
				c.Res = u.Tuple(u.Sym("written", types.Typ[types.Int]), u.Sym("error of a message", types.Universe.Lookup("error").Type()))
			}
			return true
		}
		return false
	case name == "os.Create" || name == "os.OpenFile":
		if name == "os.OpenFile" {
			n, ok := c.Args[1].intConst()
			if !ok || n != 0x242 && n != 0x241 { // O_RDWR or O_WRONLY, O_CREATE, O_TRUNC
				return false
			}
		}
		c.St = traceAppend(e, c.St, "create", c.Args[0])
		sig := c.Fn.Signature.Results()
		file := u.Sym("the file", sig.At(0).Type())
		st().mem[Loc{file, "!closed"}] = u.False
		c.Res = u.Tuple(file, u.Sym("error of create", sig.At(1).Type()))
		return true
	case name == "(*os.File).Close":
		l := Loc{c.Args[0], "!closed"}
		closed, ok := c.St.mem[l]
		if !ok {
			return false
		}
		// closing twice is an error and does nothing
		if closed == u.True {
			c.Res = u.Sym("error of closing twice", siteType(c))
			return true
		}
		s1 := traceAppend(e, c.St, "close")
		s1.mem[l] = u.True
		r := u.Sym("error of close", c.Fn.Signature.Results().At(0).Type())
		if closed == u.False {
			c.St, c.Res = s1, r
			return true
		}
		c.St = e.mergeSt(closed, c.St, s1)
		c.Res = u.Ite(closed, u.Sym("error of closing twice", nil), r)
		return true
	case name == "gioui.org/app.Main":
		c.St = traceAppend(e, c.St, "window")
		c.Res = u.Nil(nil)
		return true
	case name == modPath+"/mtex.Render":
		sig := c.Fn.Signature
		dst := e.resolve(c.St, c.Args[0], sig.Params().At(0).Type(), true)
		c.St = traceAppend(e, c.St, "render", append([]*V{dst}, c.Args[1:4]...)...)
		c.Res = u.Sym("error of render", sig.Results().At(0).Type())
		return true
	}
	if e.P.inModule(c.Fn) && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Name() != "main" && c.Fn.Signature.Recv() == nil && c.Fn.Object() != nil && c.Fn.Object().Exported() {
		c.Res = e.pureApp(name, siteType(c), c.Args)
		return true
	}
	return false
}

func init() {
	addRule("C26", "the command creates, renders to, and closes the file asked for, and returns only if that succeeded", 6, func(c *Ctx) {
		p := c.P
		for _, pk := range p.Pkgs {
			if pk.Name != "main" {
				continue
			}
			sp := p.SPkg[pk.PkgPath]
			main := sp.Func("main")
			if main == nil || !p.opens(main) {
				continue
			}
			p.command(c, main)
		}
	})
}

// opens tells whether a command renders expressions.
func (p *Prog) opens(main *ssa.Function) bool {
	for _, f := range p.reachable(main) {
		if f.String() == modPath+"/mtex.Render" {
			return true
		}
	}
	return false
}

func (p *Prog) command(c *Ctx, main *ssa.Function) {
	const r = "the command does what was asked"
	key, where := main.String(), p.posStr(main.Pos())
	u := NewUniv()
	k := &cli{p: p, args: u.Sym("the arguments", types.NewSlice(types.Typ[types.String]))}
	e := NewEng(p, u, Cfg{Hook: k.hook})
	res := e.Run(main, nil, newState())
	for f := range e.Inlined {
		c.Funcs[f.String()] = true
	}
	for _, b := range k.bad {
		c.bad(r, key+" "+b.Key, b.Where, b.Detail)
	}
	get := func(n, def string) *V {
		for _, f := range k.flags {
			if f.name == `"`+n+`"` {
				c.check(f.def.str(1) == def, r, key+" -"+n, where, "the default of flag "+n+" is "+f.def.str(1)+" and not "+def)
				return f.val
			}
		}
		c.bad(r, key+" -"+n, where, "there is no flag "+n)
		return u.Sym("no flag "+n, nil)
	}
	dpi, size, out, gui := get("dpi", "72"), get("font-size", "12"), get("o", `"out.png"`), get("gui", "false")
	errT := types.Universe.Lookup("error").Type()
	ok := func(n string) *V { return u.Eq(u.Sym(n, errT), u.Nil(errT)) }
	gui = u.asBool(gui)
	one := u.Eq(u.Len(k.args), u.Int(1))
	good := u.And(u.And(one, ok("error of create")), u.And(ok("error of render"), ok("error of close")))
	want := u.Ite(gui, u.True, good)
	if c.check(res.G == want, r, key+" success", where, "the command reports success if "+res.G.str(8)+"\n    and should if "+want.str(8)); res.G == u.False {
		return
	}
	// what runs beside it ends the command with success only after success
	for _, x := range res.Effs {
		if x.Kind != "go" || x.Recv.op != OFunc {
			continue
		}
		fn := x.Recv.fn
		var errs, ends []*V
		e2 := NewEng(p, u, Cfg{})
		e2.Cfg.Hook = func(e *Eng, fr *Frame, cc *CallCtx) bool {
			if cc.Fn != nil && cc.Name == "os.Exit" {
				if n, ok := cc.Args[0].intConst(); !ok || n == 0 {
					ends = append(ends, u.And(e.ctx, cc.G))
				}
				cc.Res, cc.G = u.Nil(nil), u.False
				return true
			}
			if t := siteType(cc); t != nil && types.Identical(t, errT) {
				v := u.Sym("error at "+fr.site(cc.Site), errT)
				errs = append(errs, u.Eq(v, u.Nil(errT)))
				cc.Res = v
				return true
			}
			return false
		}
		r2 := e2.Run2(fn, x.Recv.args, res.St)
		fine := u.True
		for _, q := range errs {
			fine = u.And(fine, q)
		}
		if len(ends) == 0 {
			ends = append(ends, r2.G)
		}
		for _, g := range ends {
			c.check(u.Implies(g, fine), r, key+" beside "+fn.Name(), p.posStr(fn.Pos()), "the command ends with success if "+g.str(6)+"\n    and should only if "+fine.str(6))
		}
	}
	tr := u.Under(traceOf(e, res.St), res.G)
	seq := func(g *V) []*V {
		t := u.Under(tr, g)
		if t.op != OSeq {
			return nil
		}
		return t.args
	}
	win := seq(gui)
	c.check(len(win) == 1 && win[0].s == "do:window", r, key+" window", where, "with -gui the command does not open the window (only)")
	xs := seq(u.And(u.Not(gui), good))
	if !c.check(len(xs) == 3 && xs[0].s == "do:create" && xs[1].s == "do:render" && xs[2].s == "do:close", r, key+" steps", where, "the command does not create the file, render to it, and close it, but "+u.Under(tr, u.Not(gui)).str(6)) {
		return
	}
	c.check(xs[0].args[0] == out, r, key+" output", where, "the file created is "+xs[0].args[0].str(6))
	dst := xs[1].args[0]
	c.check(dst.has(func(v *V) bool {
		return v.op == OApp && v.s == "call:"+modPath+"/drawtex/drawimg.NewRenderer" && v.args[0].op == OIface && v.args[0].args[0].s == "the file"
	}), r, key+" destination", where, "rendering does not go to the file but to "+dst.str(8))
	c.check(xs[1].args[1] == u.Index(k.args, u.Int(0), types.Typ[types.String]), r, key+" expression", where, "the expression rendered is "+xs[1].args[1].str(6))
	c.check(xs[1].args[2] == size, r, key+" size", where, "the font size is "+xs[1].args[2].str(6))
	c.check(xs[1].args[3] == dpi, r, key+" resolution", where, "the resolution is "+xs[1].args[3].str(6))
}

func (v *V) has(f func(*V) bool) bool { return Contains(v, f) }

func init() {
	addRule("C20", "the faces of a text collection are registered under the style and weight of their font", 8, func(c *Ctx) {
		const r = "text collections hold what they say"
		p := c.P
		const textPkg = "gioui.org/text"
		isColl := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			n, ok := s.Elem().(*types.Named)
			return ok && n.Obj().Name() == "FontFace" && n.Obj().Pkg().Path() == textPkg
		}
		for _, f := range p.allF {
			res := f.Signature.Results()
			if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 0 || res.Len() == 0 || !isColl(res.At(0).Type()) {
				continue
			}
			key, where := f.String(), p.posStr(f.Pos())
			c.Funcs[key] = true
			u := NewUniv()
			e := NewEng(p, u, Cfg{})
			out := e.Run(f, nil, newState())
			v := e.Content(out.St, out.Vals[0])
			if v.op != OSeq {
				c.bad(r, key+" faces", where, "the faces are "+v.str(6))
				continue
			}
			num := func(name string) *V { return u.Const(e.P.depConst(textPkg, name), types.Typ[types.Int]) }
			fam := ""
			for _, x := range v.args {
				font := bundled(x)
				if font == "" {
					c.bad(r, key+" faces", where, "a face is not of a bundled font: "+x.str(6))
					continue
				}
				base := font[strings.LastIndex(font, "/")+1:]
				fm := strings.TrimRight(strings.NewReplacer("bold", "", "italic", "", "regular", "").Replace(base), "0123456789")
				if fam == "" {
					fam = fm
				}
				var st, wt *V
				if x.op == OStruct && x.args[0].op == OStruct {
					ft := structOf(x.args[0].typ)
					for i := 0; i < ft.NumFields(); i++ {
						switch ft.Field(i).Name() {
						case "Style":
							st = x.args[0].args[i]
						case "Weight":
							wt = x.args[0].args[i]
						}
					}
				}
				wantS, wantW := num("Regular"), num("Normal")
				if strings.Contains(base, "italic") {
					wantS = num("Italic")
				}
				if strings.Contains(base, "bold") {
					wantW = num("Bold")
				}
				c.check(st == wantS && wt == wantW && fm == fam, r, key+" "+base, where, "the font "+base+" is registered as "+x.args[0].str(6))
			}
		}
	})
}

func init() {
	addRule("C20", "the roles of a collection hold the style they are named after, all of one family", 10, func(c *Ctx) {
		const r = "collections hold what they say"
		p := c.P
		T := p.Type(modPath+"/font/ttf", "Fonts")
		style := map[string]string{}
		for role, st := range map[string]string{"Default": "", "Rm": "", "It": "italic", "Bf": "bold", "BfIt": "bolditalic"} {
			style[role] = st
		}
		S := T.Underlying().(*types.Struct)
		for _, f := range p.allF {
			res := f.Signature.Results()
			if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 0 || res.Len() != 1 || !p.inModule(f) {
				continue
			}
			t := res.At(0).Type()
			pt, isPtr := t.(*types.Pointer)
			if isPtr {
				t = pt.Elem()
			}
			if !types.Identical(t, T) {
				continue
			}
			key, where := f.String(), p.posStr(f.Pos())
			c.Funcs[key] = true
			u := NewUniv()
			e := NewEng(p, u, Cfg{Hook: ttfHook(p, 0, true)})
			e.NoMemo, e.InitHook = true, e.Cfg.Hook
			out := e.Run(f, nil, newState())
			fam := ""
			for i := 0; i < S.NumFields(); i++ {
				fl := S.Field(i)
				want, known := style[fl.Name()]
				if !known {
					continue
				}
				var v *V
				if isPtr {
					v = e.Load(out.St, u.Addr(out.Vals[0], fmt.Sprintf(".%d", i), types.NewPointer(fl.Type())), fl.Type())
				} else {
					v = u.Field(out.Vals[0], i, fl.Type())
				}
				u.lift(func(x []*V) *V {
					font := bundled(x[0])
					base := font[strings.LastIndex(font, "/")+1:]
					fm := strings.TrimRight(strings.NewReplacer("bold", "", "italic", "", "regular", "").Replace(base), "0123456789")
					st := ""
					for _, w := range []string{"bold", "italic"} {
						if strings.Contains(base, w) {
							st += w
						}
					}
					if fam == "" || v.op == OIte {
						fam = fm
					}
					c.check(font != "" && st == want && fm == fam, r, key+" "+fl.Name(), where, "the role "+fl.Name()+" holds "+x[0].str(6))
					return x[0]
				}, v)
			}
		}
	})
}

func init() {
	addRule("C20", "what is shown with text collections is measured with the same family", 1, func(c *Ctx) {
		const r = "fonts shown are fonts measured"
		p := c.P
		isFonts := func(t types.Type) bool { return typeName(t) == "*"+modPath+"/font/ttf.Fonts" }
		isTheme := func(t types.Type) bool { return typeName(t) == "*gioui.org/widget/material.Theme" }
		for _, f := range p.allF {
			if f.Parent() != nil || f.Signature.Results().Len() != 1 || !p.inModule(f) {
				continue
			}
			t := f.Signature.Results().At(0).Type()
			pt, isPtr := t.(*types.Pointer)
			if isPtr {
				t = pt.Elem()
			}
			S, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			ft, th := -1, -1
			for i := 0; i < S.NumFields(); i++ {
				if isFonts(S.Field(i).Type()) {
					ft = i
				}
				if isTheme(S.Field(i).Type()) {
					th = i
				}
			}
			if ft < 0 || th < 0 {
				continue
			}
			key, where := f.String(), p.posStr(f.Pos())
			c.Funcs[key] = true
			u := NewUniv()
			shown := map[string]bool{}
			hook := ttfHook(p, 0, true)
			e := NewEng(p, u, Cfg{})
			e.Cfg.Hook = func(e *Eng, fr *Frame, cc *CallCtx) bool {
				if cc.Fn != nil && cc.Fn.String() == "gioui.org/widget/material.NewTheme" {
					coll := e.Content(cc.St, cc.Args[0])
					shown[coll.str(9)] = true
					cc.Res = u.lift(func(x []*V) *V { return u.App("theme", siteType(cc), x[0]) }, coll)
					return true
				}
				return hook(e, fr, cc)
			}
			e.NoMemo, e.InitHook = true, hook
			out := e.Run(f, e.Params(f), newState())
			field := func(i int) *V {
				if isPtr {
					return e.Load(out.St, u.Addr(out.Vals[0], fmt.Sprintf(".%d", i), types.NewPointer(S.Field(i).Type())), S.Field(i).Type())
				}
				return u.Field(out.Vals[0], i, S.Field(i).Type())
			}
			fonts := p.Type(modPath+"/font/ttf", "Fonts").Underlying().(*types.Struct)
			rm := -1
			for i := 0; i < fonts.NumFields(); i++ {
				if fonts.Field(i).Name() == "Rm" {
					rm = i
				}
			}
			reg := e.Load(out.St, u.Addr(field(ft), fmt.Sprintf(".%d", rm), types.NewPointer(fonts.Field(rm).Type())), fonts.Field(rm).Type())
			dir := func(v *V) string {
				s := bundled(v)
				return s[:strings.LastIndex(s, "/")+1]
			}
			u.lift(func(x []*V) *V {
				c.check(dir(x[0]) != "" && dir(x[0]) == dir(x[1]), r, key+" "+dir(x[0]), where, "glyphs are measured with fonts of "+dir(x[0])+" and shown with those of "+dir(x[1]))
				return x[0]
			}, reg, field(th))
		}
	})
}

// bundled is the embedded font a value is made from.
func bundled(x *V) string {
	font := ""
	Contains(x, func(q *V) bool {
		if q.op == OSym && strings.HasPrefix(q.s, "global:") && strings.HasSuffix(q.s, ".TTF") {
			font = strings.TrimSuffix(q.s[7:], ".TTF")
		}
		return false
	})
	return font
}

// depConst is a constant of a dependency.
func (p *Prog) depConst(pkg, name string) constant.Value {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if c, ok := q.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c.Val()
			}
		}
	}
	panic(undecided("no constant " + pkg + "." + name))
}
