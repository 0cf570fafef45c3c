package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// BytesV is a byte slice with the contents of a string.
type BytesV struct{ s Str }

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var nonASCII = func() Charset {
	var c Charset
	c.add(symLongS)
	c.add(symKelvin)
	c.add(symOther)
	return c
}()

// from is the automaton started in another state.
func (d *DFA) from(q int32) *DFA {
	return memoDFA(fmt.Sprintf("from %d %d", d.id, q), func() *DFA {
		if q == 0 {
			return d
		}
		n := &nfa{}
		off := n.embed(d)
		return n.determinize([]int{off + int(q)})
	})
}

// dropPrefix: the words left after removing the first k characters (of words at least that long).
func dropPrefix(d *DFA, k int) *DFA {
	if k == 0 {
		return d
	}
	return memoDFA(fmt.Sprintf("drop %d %d", d.id, k), func() *DFA {
		cur := map[int32]bool{0: true}
		for i := 0; i < k; i++ {
			nx := map[int32]bool{}
			for q := range cur {
				for _, e := range d.edges(q) {
					nx[e.to] = true
				}
			}
			cur = nx
		}
		n := &nfa{}
		off := n.embed(d)
		var start []int
		for q := range cur {
			start = append(start, off+int(q))
		}
		sort.Ints(start)
		return n.determinize(start)
	})
}

// dropSuffix: the words left after removing the last k characters.
func dropSuffix(d *DFA, k int) *DFA {
	if k == 0 {
		return d
	}
	return memoDFA(fmt.Sprintf("chop %d %d", d.id, k), func() *DFA {
		cur := make([]bool, len(d.acc))
		copy(cur, d.acc)
		for i := 0; i < k; i++ {
			nx := make([]bool, len(cur))
			for q := range cur {
				for _, e := range d.edges(int32(q)) {
					if cur[e.to] {
						nx[q] = true
					}
				}
			}
			cur = nx
		}
		n := *d
		dfaCount++
		n.id = dfaCount
		n.acc = cur
		n.live, n.finite = nil, 0
		return n.minimize()
	})
}

// takePrefix: the first k characters of the words at least that long.
func takePrefix(d *DFA, k int) *DFA {
	parts := []*DFA{}
	for i := 0; i < k; i++ {
		parts = append(parts, patDFA(`(?s:.)`))
	}
	if k == 0 {
		return dfaLit("")
	}
	any := concatDFA(parts...)
	return infix(d, dfaLit(""), any, dfaAny)
}

// errIface makes a standard library error value.
func (in *Interp) errIface(kind string, msg Str, wrapped ...Val) Val {
	return Iface{t: in.w.errorStringT, v: &ErrV{kind: kind, msg: msg, wrapped: wrapped, at: in.here()}}
}

// anyStr is an unconstrained string.
func (st *State) anyStr(name string) Str {
	return Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, name)}}}
}

func (st *State) langStr(d *DFA, name string) Str {
	s, _ := st.opqStr(d, name)
	return s
}

func (in *Interp) errMethod(st *State, e *ErrV, name string, ctx *callCtx) []Ret {
	switch name {
	case "Error", "String":
		return ret1(st, e.msg)
	case "Unwrap":
		if len(e.wrapped) == 1 {
			return ret1(st, e.wrapped[0])
		}
		return ret1(st, Nil{})
	}
	return in.unknownCall(st, "error method "+name, nil, ctx)
}

func (in *Interp) opaqueMethod(st *State, o Opaque, m *types.Func, args []Val, ctx *callCtx) []Ret {
	if m.Name() == "Error" && len(args) == 0 {
		return ret1(st, st.anyStr("error text"))
	}
	if strings.HasPrefix(o.tag, "os.Stdout") || strings.HasPrefix(o.tag, "os.Stderr") || strings.HasPrefix(o.tag, "writer") {
		if m.Name() == "Write" || m.Name() == "WriteString" {
			return in.writeTo(st, o, bytesStr(args[0]), ctx)
		}
	}
	return in.unknownCall(st, "method "+m.FullName(), args, ctx)
}

func bytesStr(v Val) Str {
	switch x := v.(type) {
	case BytesV:
		return x.s
	case Str:
		return x
	case Nil:
		return Str{}
	}
	giveUp("bytes from %T", v)
	return Str{}
}

func (in *Interp) writeTo(st *State, o Opaque, s Str, ctx *callCtx) []Ret {
	in.event(st, "write "+o.tag, ctx.pos, s)
	n := linS(st.newInt(0, inf, "written"))
	if ctx.rt == nil {
		return ret1(st, Tuple{})
	}
	return ret1(st, Tuple{n, Nil{}})
}

// builtin functions of the language
func (in *Interp) builtin(st *State, b *ssa.Builtin, args []Val, ctx *callCtx) []Ret {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Str:
			return ret1(st, st.strLen(v))
		case BytesV:
			return ret1(st, st.strLen(v.s))
		case Slice:
			if b.Name() == "cap" {
				return ret1(st, linC(int64(v.cp)))
			}
			return ret1(st, linC(int64(v.n)))
		case SumSlice:
			return ret1(st, v.n)
		case Nil:
			return ret1(st, linC(0))
		case MapRef:
			mv := st.obj(v.obj).(MapV)
			if mv.approx {
				return ret1(st, linS(st.newInt(0, inf, "len")))
			}
			return ret1(st, linC(int64(len(mv.keys))))
		case Ptr:
			if a, ok := in.load(st, v).(Agg); ok {
				return ret1(st, linC(int64(len(a.f))))
			}
		case Agg:
			return ret1(st, linC(int64(len(v.f))))
		case Opaque:
			return ret1(st, linS(st.newInt(0, inf, "len")))
		}
		giveUp("len of %T", args[0])
	case "append":
		return in.appendTo(st, args[0], args[1], ctx)
	case "copy":
		switch d := args[0].(type) {
		case Slice:
			if s, ok := args[1].(Slice); ok {
				n := d.n
				if s.n < n {
					n = s.n
				}
				src := in.elems(st, s)
				for i := 0; i < n; i++ {
					in.store(st, d.arr.field(d.off+i), src[i])
				}
				return ret1(st, linC(int64(n)))
			}
		case Nil:
			return ret1(st, linC(0))
		}
		giveUp("copy into %T from %T", args[0], args[1])
	case "delete":
		m, ok := args[0].(MapRef)
		if !ok {
			return ret1(st, Tuple{})
		}
		if m.obj < len(st.base) {
			in.noteGlobalWrite(st, Ptr{obj: m.obj})
		}
		mv := st.obj(m.obj).(MapV)
		var out []Ret
		for _, w := range in.findKey(st, mv, args[1]) {
			if w.i >= 0 {
				n := MapV{approx: mv.approx}
				for i := range mv.keys {
					if i != w.i {
						n.keys = append(n.keys, mv.keys[i])
						n.vals = append(n.vals, mv.vals[i])
					}
				}
				w.st.setObj(m.obj, n)
			}
			out = append(out, Ret{st: w.st, v: Tuple{}})
		}
		return out
	case "print", "println":
		in.event(st, "write os.Stderr", ctx.pos)
		return ret1(st, Tuple{})
	case "close":
		in.event(st, "chan", ctx.pos)
		return ret1(st, Tuple{})
	case "recover":
		if p := st.panicking; p != nil {
			st.panicking = nil
			v := p.val
			if v == nil {
				v = Iface{v: Opaque{tag: "panic value"}}
			}
			if _, ok := v.(Iface); !ok {
				v = Iface{v: Opaque{tag: "panic value"}}
			}
			return ret1(st, v)
		}
		return ret1(st, Nil{})
	case "min", "max":
		cur := []Ret{{st: st, v: args[0]}}
		for _, a := range args[1:] {
			var nx []Ret
			for _, c := range cur {
				x, ok1 := c.v.(Lin)
				y, ok2 := a.(Lin)
				if !ok1 || !ok2 {
					giveUp("min of %T", c.v)
				}
				for _, w := range c.st.forkCmp(x.minus(y), opLE) {
					if w.b == (b.Name() == "min") {
						nx = append(nx, Ret{st: w.st, v: x})
					} else {
						nx = append(nx, Ret{st: w.st, v: y})
					}
				}
			}
			cur = nx
		}
		return cur
	case "clear":
		if m, ok := args[0].(MapRef); ok {
			if m.obj < len(st.base) {
				in.noteGlobalWrite(st, Ptr{obj: m.obj})
			}
			st.setObj(m.obj, MapV{})
			return ret1(st, Tuple{})
		}
		giveUp("clear of %T", args[0])
	case "ssa:wrapnilchk":
		if _, ok := args[0].(Nil); ok {
			return []Ret{{st: st, panic: &PanicInfo{msg: "value method called using nil pointer", pos: ctx.pos}}}
		}
		return ret1(st, args[0])
	}
	giveUp("builtin %s", b.Name())
	return nil
}

// elems lists the elements of a slice of known length.
func (in *Interp) elems(st *State, v Val) []Val {
	switch s := v.(type) {
	case Nil:
		return nil
	case Slice:
		a, ok := in.load(st, s.arr).(Agg)
		if !ok {
			giveUp("slice of %T", in.load(st, s.arr))
		}
		out := make([]Val, s.n)
		copy(out, a.f[s.off:s.off+s.n])
		return out
	}
	giveUp("elements of %T", v)
	return nil
}

func (in *Interp) appendTo(st *State, dst, src Val, ctx *callCtx) []Ret {
	et := ctx.rt.Underlying().(*types.Slice).Elem()
	if isByteSlice(ctx.rt) {
		d, ok1 := asBytes(in, st, dst)
		s, ok2 := asBytes(in, st, src)
		if ok1 && ok2 {
			return ret1(st, BytesV{Str{append(d.it[:len(d.it):len(d.it)], s.it...)}})
		}
	}
	sumOf := func(v Val) (Val, Lin, bool) {
		switch s := v.(type) {
		case SumSlice:
			return s.elem, s.n, true
		case Nil:
			return nil, Lin{}, true
		case Slice:
			return Unknown{et}, linC(int64(s.n)), true
		case Opaque:
			return Unknown{et}, linS(st.newInt(0, inf, "len")), true
		}
		return nil, Lin{}, false
	}
	_, d1 := dst.(SumSlice)
	_, s1 := src.(SumSlice)
	_, d2 := dst.(Opaque)
	_, s2 := src.(Opaque)
	if d1 || s1 || d2 || s2 {
		e1, n1, ok1 := sumOf(dst)
		e2, n2, ok2 := sumOf(src)
		if !ok1 || !ok2 {
			giveUp("append of %T to %T", src, dst)
		}
		e := Val(Unknown{et})
		if e1 == nil || e2 == nil {
			e = e1
			if e == nil {
				e = e2
			}
		} else if t1, ok := e1.(tmplStr); ok {
			if t2, ok := e2.(tmplStr); ok {
				e = tmplStr{t1.lang.Or(t2.lang)}
			} else if sl, ok := src.(Slice); ok {
				all := t1.lang
				good := true
				for _, x := range in.elems(st, sl) {
					if s, ok := x.(Str); ok {
						all = all.Or(st.strDFA(s))
					} else {
						good = false
					}
				}
				if good {
					e = tmplStr{all}
				}
			}
		}
		return ret1(st, SumSlice{elem: e, n: n1.plus(n2)})
	}
	if s, ok := src.(Str); ok {
		src = BytesV{s}
	}
	se := in.elems(st, src)
	if d, ok := dst.(Slice); ok && d.cp-d.n >= len(se) {
		for i, x := range se {
			in.store(st, d.arr.field(d.off+d.n+i), x)
		}
		d.n += len(se)
		return ret1(st, d)
	}
	de := in.elems(st, dst)
	if len(se) == 0 {
		return ret1(st, dst)
	}
	all := append(append([]Val(nil), de...), se...)
	n := len(all)
	cp := n
	if len(de) > 0 {
		cp = n * 2 // growth leaves spare room
	}
	for i := n; i < cp; i++ {
		all = append(all, in.zeroVal(et))
	}
	o := in.newObj(st, Agg{all}, types.NewArray(et, int64(cp)))
	return ret1(st, Slice{arr: Ptr{obj: o}, n: n, cp: cp})
}

func asBytes(in *Interp, st *State, v Val) (Str, bool) {
	switch x := v.(type) {
	case BytesV:
		return x.s, true
	case Str:
		return x, true
	case Nil:
		return Str{}, true
	case Slice:
		var s Str
		for _, e := range in.elems(st, x) {
			l, ok := e.(Lin)
			if !ok {
				return Str{}, false
			}
			it, ok := in.byteItem(st, l)
			if !ok {
				return Str{}, false
			}
			s.it = append(s.it, it)
		}
		return s, true
	}
	return Str{}, false
}

// byteItem: a byte value as a string item.
func (in *Interp) byteItem(st *State, l Lin) (Item, bool) {
	l = st.norm(l)
	if l.isConst() {
		return Item{k: iLit, b: byte(l.c)}, true
	}
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 48 && st.syms[l.t[0].s].kind == kCell {
		return Item{k: iCell, s: l.t[0].s}, true
	}
	lo, hi := st.bounds(l)
	if lo >= 0 && hi < 128 {
		c := st.newCell(csRange(byte(lo), byte(hi)), "byte")
		st.assumeRange(linS(c).plusC(48).minus(l), 0, 0)
		return Item{k: iCell, s: c}, true
	}
	return Item{}, false
}
