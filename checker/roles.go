package main

import (
	"fmt"
	"go/types"
	"strings"
)

// role finds the field of a type that plays a role: the field of that name,
// or, when fields were renamed, the one recognised by its use.
func (p *Prog) role(pkg, typ, role string) string {
	t := p.Type(modPath+"/"+pkg, typ)
	names := strings.Split(role, ".")
	path := ""
	for _, n := range names {
		s := structOf(t)
		if s == nil {
			panic(undecided(fmt.Sprintf("%s.%s is not a struct", pkg, typ)))
		}
		found := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				found = i
			}
		}
		if found < 0 {
			if r := p.roleByUse(pkg, typ, role); r != "" {
				return r
			}
			panic(undecided(fmt.Sprintf("no field of %s.%s plays the role %s", pkg, typ, role)))
		}
		path += fmt.Sprintf(".%d", found)
		t = s.Field(found).Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
	}
	return path
}

// roleByUse recognises a field without going by its name.
func (p *Prog) roleByUse(pkg, typ, role string) string {
	T := p.Type(modPath+"/"+pkg, typ)
	key := pkg + "." + typ + "." + role
	switch {
	case role == "shift":
		// what SetShift, or the accessor of HList, refers to
		l := p.Type(modPath+"/"+pkg, "VList")
		fn := p.MethodOf(types.NewPointer(l), "SetShift")
		u := NewUniv()
		e := NewEng(p, u, Cfg{})
		r := e.Run(fn, e.Params(fn), nil)
		for k := range r.St.mem {
			if k.base.op == OSym {
				if typ == "VList" || typ == "HList" {
					return k.path
				}
				if i := strings.IndexByte(k.path[1:], '.'); i >= 0 {
					return k.path[i+1:]
				}
			}
		}
	case role == "size":
		// the integer that Shrink counts in
		fn := p.MethodOf(types.NewPointer(T), "Shrink")
		if fn == nil {
			return ""
		}
		u := NewUniv()
		e := NewEng(p, u, Cfg{Dispatch: p.world(), Hook: specHook(p, nil, func(e *Eng, fr *Frame, c *CallCtx) bool {
			if c.Method != nil && c.Method.Name() == "Shrink" {
				c.Res = u.Nil(nil)
				return true
			}
			return false
		})})
		r := e.Run(fn, e.Params(fn), nil)
		path := ""
		for k, v := range r.St.mem {
			if k.base == u.Sym("p0", fn.Params[0].Type()) && isInteger(v.typ) {
				if path != "" {
					return ""
				}
				path = k.path
			}
		}
		return path
	}
	_ = key
	return ""
}

// uniqueByType is the only field, at any depth, of the given type.
func uniqueByType(T types.Type, want string) string {
	var found []string
	var rec func(t types.Type, path string)
	rec = func(t types.Type, path string) {
		s := structOf(t)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			q := fmt.Sprintf("%s.%d", path, i)
			if types.TypeString(s.Field(i).Type(), nil) == want {
				found = append(found, q)
				continue
			}
			if _, named := s.Field(i).Type().(*types.Named); !named {
				rec(s.Field(i).Type(), q)
			}
		}
	}
	rec(T, "")
	if len(found) == 1 {
		return found[0]
	}
	return ""
}
