package main

// Abstract values.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: Lin, bool, Str, Nil, Ptr, Agg, Slice, SumSlice, MapRef, Iface, *Closure, Tuple,
// *TimeV, Float, RegexpV, BigV, Unknown, StrIter, MapIter, *Builder...
type Val interface{}

type Nil struct{}

const (
	iLit = iota
	iCell
	iOpq
)

type Item struct {
	k uint8
	b byte
	s SymID
}

type Str struct{ it []Item }

func lit(s string) Str {
	it := make([]Item, len(s))
	for i := 0; i < len(s); i++ {
		it[i] = Item{k: iLit, b: s[i]}
	}
	return Str{it}
}

type Ptr struct {
	obj  int
	path string // field/element indices, one rune each
}

func (p Ptr) field(i int) Ptr { return Ptr{p.obj, p.path + string(rune(i+1))} }

// Agg: struct or array value (immutable: writers copy).
type Agg struct{ f []Val }

// Slice: a window on an array object.
type Slice struct {
	arr        Ptr
	off, n, cp int
}

// SumSlice: a slice of unknown length whose elements are all described by one template value;
// contents are treated as immutable.
type SumSlice struct {
	elem Val
	n    Lin
}

type MapRef struct{ obj int }
type MapV struct {
	keys   []Val
	vals   []Val
	approx bool // there may be other entries
}

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn    *ssa.Function
	b     []Val
	model func(in *Interp, st *State, c *callCtx, args []Val) []Ret // synthetic functions
}

type Tuple []Val

// Float is an exact integral value, a large one, or unknown.
type Float struct{ BigV }

func floatOf(l Lin) Float { return Float{BigV{known: true, lin: l}} }

// small: an exact value, not a large one.
func (b BigV) small() bool { return b.known && b.huge == 0 }

type RegexpV struct{ re *RegexInfo }

// ErrV is the payload of an error made by the standard library.
type ErrV struct {
	kind    string // e.g. "strconv", "time.Parse", "fmt.Errorf"
	msg     Str
	wrapped []Val
	id      string // sentinel identity (empty: a fresh error)
	at      *prov  // where it was made
}

// Unknown is any value of the type (materialised on use).
type Unknown struct{ t types.Type }

// Opaque is a non-nil object the analysis knows nothing else about.
type Opaque struct {
	t   types.Type
	tag string
}

type StrIter struct {
	s   Str
	pos int
}
type MapIter struct {
	m   MapV
	pos int
	any *types.Map // entries of a map of which nothing is known
}

func describe(st *State, v Val) string {
	switch v := v.(type) {
	case Lin:
		v = st.norm(v)
		if v.isConst() {
			return fmt.Sprint(v.c)
		}
		lo, hi := st.bounds(v)
		return fmt.Sprintf("int[%d..%d]", lo, hi)
	case bool:
		return fmt.Sprint(v)
	case Str:
		return fmt.Sprintf("%q", st.show(v))
	case Nil:
		return "nil"
	case Ptr:
		return fmt.Sprintf("&obj%d%v", v.obj, []rune(v.path))
	case Iface:
		if e, ok := v.v.(*ErrV); ok {
			return fmt.Sprintf("error(%s)", e.kind)
		}
		if v.t != nil {
			return fmt.Sprintf("iface(%v)", v.t)
		}
		return "iface"
	case Unknown:
		return fmt.Sprintf("unknown %v", v.t)
	case Tuple:
		s := "("
		for i, x := range v {
			if i > 0 {
				s += ", "
			}
			s += describe(st, x)
		}
		return s + ")"
	case *TimeV:
		return v.show(st)
	}
	return fmt.Sprintf("%T", v)
}

// zeroVal is the zero value of a type.
func (in *Interp) zeroVal(t types.Type) Val {
	if n, ok := t.(*types.Named); ok {
		switch typeName(n) {
		case "time.Time":
			return zeroTime()
		case "math/big.Float", "math/big.Int":
			return BigV{known: true}
		case "strings.Builder", "bytes.Buffer":
			return Agg{[]Val{Str{}}}
		case "sync.Once", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
			return Agg{[]Val{linC(0)}}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return linC(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return floatOf(linC(0))
		}
		return Nil{}
	case *types.Struct:
		a := Agg{make([]Val, u.NumFields())}
		for i := range a.f {
			a.f[i] = in.zeroVal(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() > 4096 {
			giveUp("array of %d elements", u.Len())
		}
		a := Agg{make([]Val, u.Len())}
		for i := range a.f {
			a.f[i] = in.zeroVal(u.Elem())
		}
		return a
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = in.zeroVal(u.At(i).Type())
		}
		return t
	}
	return Nil{}
}

func typeName(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func namedOf(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	return ""
}

// ---------- memory ----------

func (in *Interp) load(st *State, p Ptr) Val {
	v := st.obj(p.obj)
	for _, r := range p.path {
		a, ok := v.(Agg)
		if !ok {
			if u, isU := v.(Unknown); isU {
				v = in.unknownField(st, u, int(r)-1)
				continue
			}
			giveUp("load through %T", v)
		}
		if int(r)-1 >= len(a.f) {
			giveUp("field index out of range")
		}
		v = a.f[int(r)-1]
	}
	return v
}

func (in *Interp) unknownField(st *State, u Unknown, i int) Val {
	switch t := u.t.Underlying().(type) {
	case *types.Struct:
		return Unknown{t.Field(i).Type()}
	case *types.Array:
		return Unknown{t.Elem()}
	}
	giveUp("field of unknown %v", u.t)
	return nil
}

func (in *Interp) store(st *State, p Ptr, v Val) {
	if p.obj < len(st.base) {
		in.noteGlobalWrite(st, p)
	} else if in.initDone {
		st.hpos[p.obj-len(st.base)] = in.here()
	}
	if p.path == "" {
		st.setObj(p.obj, v)
		return
	}
	rs := []rune(p.path)
	var set func(cur Val, i int) Val
	set = func(cur Val, i int) Val {
		if i == len(rs) {
			return v
		}
		if u, isU := cur.(Unknown); isU {
			cur = in.expandUnknown(u)
		}
		a, ok := cur.(Agg)
		if !ok {
			giveUp("store through %T", cur)
		}
		n := Agg{append([]Val(nil), a.f...)}
		k := int(rs[i]) - 1
		n.f[k] = set(n.f[k], i+1)
		return n
	}
	st.setObj(p.obj, set(st.obj(p.obj), 0))
}

func (in *Interp) expandUnknown(u Unknown) Val {
	switch t := u.t.Underlying().(type) {
	case *types.Struct:
		a := Agg{make([]Val, t.NumFields())}
		for i := range a.f {
			a.f[i] = Unknown{t.Field(i).Type()}
		}
		return a
	case *types.Array:
		a := Agg{make([]Val, t.Len())}
		for i := range a.f {
			a.f[i] = Unknown{t.Elem()}
		}
		return a
	}
	giveUp("cannot expand unknown %v", u.t)
	return nil
}
