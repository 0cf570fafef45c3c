package main

// Access to the library's types and values by their exported names.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lib resolves the exported names of the module.
type Lib struct {
	in *Interp
	w  *World
}

func (l *Lib) typ(pkg, name string) types.Type {
	path := l.w.modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := l.w.byPath[path]
	if p == nil {
		giveUp("no package %s", path)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		giveUp("no %s.%s", path, name)
	}
	return o.Type()
}

func fieldIndex(t types.Type, name string) (int, types.Type) {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		giveUp("%v is not a struct", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	giveUp("no field %s in %v", name, t)
	return 0, nil
}

// field reads a field of a struct value or of the struct a pointer refers to.
func (l *Lib) field(st *State, v Val, t types.Type, name string) Val {
	i, _ := fieldIndex(t, name)
	switch p := v.(type) {
	case Ptr:
		return l.in.load(st, p.field(i))
	case Agg:
		return p.f[i]
	case Unknown:
		return l.in.unknownField(st, p, i)
	}
	giveUp("field %s of %T", name, v)
	return nil
}

func (l *Lib) constInt(pkg, name string) int64 {
	path := l.w.modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := l.w.byPath[path]
	if p == nil {
		giveUp("no package %s", path)
	}
	if c, ok := p.Members[name].(*ssa.NamedConst); ok {
		return c.Value.Int64()
	}
	giveUp("no constant %s.%s", path, name)
	return 0
}

// fn finds a function or fails the analysis.
func (l *Lib) fn(pkg, name string) *ssa.Function {
	f := l.w.fn(pkg, name)
	if f == nil {
		giveUp("no function %s %s", pkg, name)
	}
	return f
}

// prov of an object a value refers to
func (l *Lib) where(st *State, v Val) string {
	var p *prov
	switch x := v.(type) {
	case Ptr:
		if x.obj >= len(st.base) {
			p = st.hpos[x.obj-len(st.base)]
		}
	case Iface:
		if e, ok := x.v.(*ErrV); ok {
			p = e.at
		} else {
			return l.where(st, x.v)
		}
	}
	c := l.in.chain(p)
	if len(c) == 0 {
		return ""
	}
	if len(c) > 7 {
		c = c[:7]
	}
	return strings.Join(c, " < ")
}

// errKind names the kind of an error value: the type name, or the standard library kind.
func (l *Lib) errKind(st *State, v Val) string {
	for d := 0; d < 5; d++ {
		i, ok := v.(Iface)
		if !ok {
			return fmt.Sprintf("%T", v)
		}
		if e, ok := i.v.(*ErrV); ok {
			if len(e.wrapped) == 1 {
				v = e.wrapped[0]
				continue
			}
			return e.kind
		}
		if i.t != nil {
			n := namedOf(i.t)
			return n[strings.LastIndex(n, ".")+1:]
		}
		return "error"
	}
	return "error"
}
