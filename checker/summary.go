package main

// Joining the outcomes of a call: used where correlations between the input and the result do not
// matter (absence of panics for arbitrary input), so that the number of states stays small.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type memoRet struct{}

// callSummary interprets a call and, when it has many outcomes, joins them by shape.
func (in *Interp) callSummary(st *State, fn *ssa.Function, args, bind []Val) []Ret {
	pre := st.clone()
	rs := in.call(st, fn, args, bind)
	return in.joinRets(pre, rs, fn.Signature.Results(), fn)
}

// joinRets joins many outcomes of a call by shape.
func (in *Interp) joinRets(pre *State, rs []Ret, res *types.Tuple, fn *ssa.Function) []Ret {
	if len(rs) <= in.sumLimit {
		return rs
	}
	groups := map[string][]Ret{}
	var order []string
	for _, r := range rs {
		k := shapeSig(r)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], r)
	}
	var out []Ret
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		if g[0].panic != nil {
			// keep one representative per panic site
			seen := map[string]bool{}
			for _, r := range g {
				if s := r.panic.pos + r.panic.msg; !seen[s] {
					seen[s] = true
					out = append(out, r)
				}
			}
			continue
		}
		sts := make([]*State, len(g))
		for i := range g {
			sts[i] = g[i].st
		}
		n, j := in.joinStates(pre, sts, fn)
		var v Val
		switch res.Len() {
		case 0:
			v = Tuple{}
		case 1:
			v = j.join(g, func(r Ret) Val { return r.v }, res.At(0).Type(), 0)
		default:
			t := make(Tuple, res.Len())
			for i := range t {
				i := i
				t[i] = j.join(g, func(r Ret) Val { return r.v.(Tuple)[i] }, res.At(i).Type(), 0)
			}
			v = t
		}
		out = append(out, Ret{st: n, v: v})
	}
	return out
}

func shapeSig(r Ret) string {
	if r.panic != nil {
		return "panic"
	}
	var sig func(v Val) string
	sig = func(v Val) string {
		switch x := v.(type) {
		case bool:
			return fmt.Sprint(x)
		case Nil:
			return "nil"
		case Tuple:
			s := ""
			for _, e := range x {
				s += sig(e) + ","
			}
			return s
		case Iface:
			return ifaceSig(x)
		case Ptr, Opaque, *Closure:
			return "set"
		}
		return "v"
	}
	return sig(r.v)
}

// ifaceSig: the dynamic type of an interface value. What code may tell apart about an error (its
// type, its identity, what it wraps) is part of it.
func ifaceSig(x Iface) string {
	if e, ok := x.v.(*ErrV); ok {
		k := "error"
		if e.kind == "strconv" || e.kind == "time.Parse" {
			k = e.kind
		}
		s := "set:" + k + e.id + "["
		for _, w := range e.wrapped {
			if i, ok := w.(Iface); ok {
				s += ifaceSig(i)
			}
			s += ","
		}
		return s + "]"
	}
	if x.t == nil {
		return "set"
	}
	return "set:" + x.t.String()
}

type joiner struct {
	in   *Interp
	dst  *State
	nobj int
	nsym int
	memo map[string]Val
}

// joinStates is the least upper bound (up to the precision of the domain) of several descendants of
// a state: symbols and objects of the ancestor keep their identity.
func (in *Interp) joinStates(pre *State, sts []*State, fn *ssa.Function) (*State, *joiner) {
	n := pre.clone()
	j := &joiner{in: in, dst: n, nobj: len(pre.base) + len(pre.heap), nsym: len(pre.syms), memo: map[string]Val{}}
	rs := make([]Ret, len(sts))
	for i := range sts {
		rs[i].st = sts[i]
		if n.vague == "" {
			n.vague = sts[i].vague
		}
	}
	for s := range pre.syms {
		si := pre.syms[s]
		if si.isSub {
			continue
		}
		same := true
		for _, o := range sts {
			if o.syms[s] != si {
				same = false
				break
			}
		}
		if same {
			continue
		}
		c := *si
		switch si.kind {
		case kCell:
			var cs Charset
			for _, o := range sts {
				cs = cs.or(o.syms[s].cs)
			}
			c.cs = cs
		case kInt:
			lo, hi := inf, -inf
			for _, o := range sts {
				if l := o.syms[s].lo; l < lo {
					lo = l
				}
				if h := o.syms[s].hi; h > hi {
					hi = h
				}
			}
			c.lo, c.hi = lo, hi
		case kOpq:
			var L *DFA
			for _, o := range sts {
				d := o.strDFA(Str{[]Item{{k: iOpq, s: SymID(s)}}})
				if L == nil {
					L = d
				} else if L != d {
					L = L.Or(d)
				}
				if len(L.acc) > 300 {
					L = si.lang
					break
				}
			}
			c.lang = L
		}
		n.syms[s] = &c
	}
	for i := range pre.heap {
		for _, r := range rs {
			if !shallowSame(r.st.heap[i], pre.heap[i]) {
				if n.htyp[i] == nil {
					giveUp("joining writes to an untyped object in %s", fn)
				}
				i := i
				n.heap[i] = j.join(rs, func(r Ret) Val { return r.st.heap[i] }, n.htyp[i], 0)
				break
			}
		}
	}
	wrote := map[string]bool{}
	evs := map[string]bool{}
	for _, o := range sts {
		for _, w := range o.wrote {
			wrote[w] = true
		}
		for k, v := range o.mod {
			if old, ok := n.mod[k]; !ok || !shallowSame(old, v) {
				giveUp("joining writes to package state in %s", fn)
			}
		}
		if len(o.events) > len(pre.events) {
			for _, e := range o.events[len(pre.events):] {
				k := e.kind + "@" + e.pos
				if !evs[k] {
					evs[k] = true
					n.events = append(n.events[:len(n.events):len(n.events)], e)
				}
			}
		}
	}
	n.wrote = sortedKeys(wrote)
	return n, j
}

// keepable: the value only refers to things the ancestor knows.
func (j *joiner) keepable(v Val, depth int) bool {
	switch x := v.(type) {
	case Str:
		for _, it := range x.it {
			if it.k != iLit && int(it.s) >= j.nsym {
				return false
			}
		}
		return true
	case Lin:
		for _, t := range x.t {
			if int(t.s) >= j.nsym {
				return false
			}
		}
		return true
	case bool, Nil, *ssa.Builtin, RegexpV:
		return true
	case Unknown:
		return true
	case Ptr:
		return x.obj < j.nobj
	case Slice:
		return x.arr.obj < j.nobj
	case MapRef:
		return x.obj < j.nobj
	case BytesV:
		return j.keepable(x.s, depth+1)
	case Iface:
		if e, ok := x.v.(*ErrV); ok {
			return e.id != ""
		}
		return depth < 6 && j.keepable(x.v, depth+1)
	case Agg:
		if depth > 6 {
			return false
		}
		for _, f := range x.f {
			if !j.keepable(f, depth+1) {
				return false
			}
		}
		return true
	case *Closure:
		for _, f := range x.b {
			if !j.keepable(f, depth+1) {
				return false
			}
		}
		return true
	case Opaque:
		return true
	}
	return false
}

// mergeKey: items at the same block with equal keys may be joined.
func (f *fnInfo) mergeKey(it *item) (string, bool) {
	if !it.atHead || len(it.defers) > 0 || it.panicking != nil || it.recovered {
		return "", false
	}
	if !f.inLoop[it.b] {
		return "", true
	}
	k := ""
	for h, body := range f.loops {
		if body[it.b] {
			lr := it.loops[h]
			if lr == nil || lr.havoc {
				return "", false
			}
		}
	}
	return k, true
}

type neverSame struct{}

// mergeItems joins work items waiting at the same block outside of loops.
func (in *Interp) mergeItems(pre *State, fn *ssa.Function, inf *fnInfo, its []*item) []*item {
	if len(its) <= in.mergeLimit {
		return its
	}
	b := its[0].b
	live := inf.liveIn(fn, b)
	key := func(it *item, coarse bool) string {
		s := ""
		for _, k := range live {
			switch x := it.env[k].(type) {
			case bool:
				if !coarse {
					s += fmt.Sprintf("%d%v,", k, x)
				}
			case Nil:
				s += fmt.Sprintf("%dn,", k)
			case Iface:
				s += fmt.Sprintf("%d%s,", k, ifaceSig(x))
			case Unknown:
				s += fmt.Sprintf("%du,", k)
			}
		}
		return s
	}
	group := func(coarse bool) (map[string][]*item, []string) {
		m := map[string][]*item{}
		var o []string
		for _, it := range its {
			k := key(it, coarse)
			if m[k] == nil {
				o = append(o, k)
			}
			m[k] = append(m[k], it)
		}
		return m, o
	}
	m, order := group(false)
	if len(order) > 4*in.mergeLimit {
		m, order = group(true)
	}
	var out []*item
	for _, k := range order {
		g := m[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		sts := make([]*State, len(g))
		for i := range g {
			sts[i] = g[i].st
		}
		n, j := in.joinStates(pre, sts, fn)
		r := *g[0]
		r.st = n
		r.env = make([]Val, inf.n)
		rs := make([]Ret, len(g))
		for i := range g {
			rs[i] = Ret{st: g[i].st, v: Tuple(g[i].env)}
		}
		for _, s := range live {
			s := s
			r.env[s] = j.join(rs, func(r Ret) Val { return r.v.(Tuple)[s] }, inf.typ[s], 0)
		}
		r.loops = nil
		for h, body := range inf.loops {
			if !body[b] {
				continue
			}
			// objects made since the function was entered have new identities: they count as changed
			lr := &loopRec{header: h}
			for _, it := range g {
				if f := it.loops[h].forks; f > lr.forks {
					lr.forks = f
				}
			}
			lr.entry = append([]Val(nil), g[0].loops[h].entry...)
			for k := range lr.entry {
				same := k < len(pre.heap)
				for _, it := range g {
					if same && !shallowSame(lr.entry[k], it.loops[h].entry[k]) {
						same = false
					}
				}
				if !same {
					lr.entry[k] = neverSame{}
				}
			}
			for len(lr.entry) < len(n.heap) {
				lr.entry = append(lr.entry, neverSame{})
			}
			if r.loops == nil {
				r.loops = map[*ssa.BasicBlock]*loopRec{}
			}
			r.loops[h] = lr
		}
		out = append(out, &r)
	}
	return out
}

// liveIn: slots whose value may be used from the block (after its phis) on.
func (f *fnInfo) liveIn(fn *ssa.Function, b *ssa.BasicBlock) []int {
	if f.live == nil {
		f.live = map[*ssa.BasicBlock][]int{}
		in := map[*ssa.BasicBlock]map[int]bool{}
		for _, b := range fn.Blocks {
			in[b] = map[int]bool{}
		}
		use := func(m map[int]bool, v ssa.Value) {
			if v == nil {
				return
			}
			if k, ok := f.idx[v]; ok {
				m[k] = true
			}
		}
		for changed := true; changed; {
			changed = false
			for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
				b := fn.Blocks[bi]
				m := map[int]bool{}
				for _, s := range b.Succs {
					for k := range in[s] {
						m[k] = true
					}
					pi := 0
					for k, p := range s.Preds {
						if p == b {
							pi = k
						}
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						delete(m, f.idx[ph])
						_ = pi
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						for k, p := range s.Preds {
							if p == b {
								use(m, ph.Edges[k])
							}
						}
					}
				}
				for k := len(b.Instrs) - 1; k >= 0; k-- {
					ins := b.Instrs[k]
					if _, ok := ins.(*ssa.Phi); ok {
						continue // phis are live at the point after them when used later
					}
					if v, ok := ins.(ssa.Value); ok {
						delete(m, f.idx[v])
					}
					for _, op := range ins.Operands(nil) {
						if *op != nil {
							use(m, *op)
						}
					}
				}
				if len(m) != len(in[b]) {
					in[b] = m
					changed = true
				}
			}
		}
		for b, m := range in {
			var l []int
			for k := range m {
				l = append(l, k)
			}
			sort.Ints(l)
			f.live[b] = l
		}
	}
	return f.live[b]
}

// boxAround is a language of texts that have, for each length, the characters of the given ones at
// each position; nil when their lengths are not known.
func boxAround(rs []Ret, vals []Val) *DFA {
	boxes := map[int][]Charset{}
	for i, v := range vals {
		s, ok := v.(Str)
		if !ok {
			return nil
		}
		it := rs[i].st.flatten(s.it)
		if hasOpq(it) {
			return nil
		}
		b := boxes[len(it)]
		if b == nil {
			b = make([]Charset, len(it))
			boxes[len(it)] = b
		}
		for k, x := range it {
			b[k] = b[k].or(rs[i].st.itemCS(x))
		}
	}
	var ks []int
	for k := range boxes {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var d *DFA
	for _, k := range ks {
		if b := dfaBox(boxes[k]); d == nil {
			d = b
		} else {
			d = d.Or(b)
		}
	}
	return d
}

// join abstracts the values of several outcomes into one value of the destination state.
func (j *joiner) join(rs []Ret, get func(Ret) Val, t types.Type, depth int) Val {
	vals := make([]Val, len(rs))
	for i, r := range rs {
		vals[i] = get(r)
	}
	if depth > 8 {
		return Unknown{t}
	}
	same := true
	for _, v := range vals[1:] {
		if !shallowSame(v, vals[0]) {
			same = false
			break
		}
	}
	if same && j.keepable(vals[0], 0) {
		return vals[0]
	}
	switch vals[0].(type) {
	case bool:
		for _, v := range vals {
			if v != vals[0] {
				return Unknown{t}
			}
		}
		return vals[0]
	case Lin:
		ls := make([]Lin, len(vals))
		for i, v := range vals {
			l, ok := v.(Lin)
			if !ok {
				return Unknown{t}
			}
			ls[i] = l
		}
		return j.joinLin(rs, ls)
	case Str:
		if len(vals) > 24 {
			if d := boxAround(rs, vals); d != nil {
				s, _ := j.dst.opqStr(d, "joined")
				return s
			}
		}
		var L *DFA
		for i, v := range vals {
			s, ok := v.(Str)
			if !ok {
				return Unknown{t}
			}
			d := rs[i].st.strDFA(s)
			if L == nil {
				L = d
			} else {
				L = L.Or(d)
			}
			if len(L.acc) > 300 {
				return j.dst.anyStr("joined")
			}
		}
		s, _ := j.dst.opqStr(L, "joined")
		return s
	case Nil:
		for _, v := range vals {
			if _, ok := v.(Nil); !ok {
				return Unknown{t}
			}
		}
		return Nil{}
	case Iface:
		i0, sig := vals[0].(Iface), ""
		for k, v := range vals {
			i, ok := v.(Iface)
			if !ok {
				return Unknown{t}
			}
			if s := ifaceSig(i); k == 0 {
				sig = s
			} else if s != sig {
				sig = "mixed"
			}
		}
		if sig == "mixed" || i0.t == nil {
			return Iface{v: Opaque{tag: "joined"}}
		}
		e0, isErr := i0.v.(*ErrV)
		if !isErr {
			return Iface{t: i0.t, v: j.join(rs, func(r Ret) Val { return get(r).(Iface).v }, i0.t, depth+1)}
		}
		e := &ErrV{kind: e0.kind, id: e0.id, msg: j.dst.anyStr("error text"), wrapped: make([]Val, len(e0.wrapped))}
		for k := range e0.wrapped {
			k := k
			e.wrapped[k] = j.join(rs, func(r Ret) Val { return get(r).(Iface).v.(*ErrV).wrapped[k] }, types.Universe.Lookup("error").Type(), depth+1)
		}
		for _, v := range vals {
			if v.(Iface).v.(*ErrV).kind != e.kind {
				e.kind = "joined"
			}
		}
		return Iface{t: i0.t, v: e}
	case Ptr:
		same := true
		for _, v := range vals {
			p, ok := v.(Ptr)
			if !ok {
				return Unknown{t}
			}
			if p != vals[0].(Ptr) {
				same = false
			}
		}
		if same && vals[0].(Ptr).obj < j.nobj {
			return vals[0]
		}
		for _, v := range vals {
			if v.(Ptr).obj < j.nobj {
				return Unknown{t}
			}
		}
		key := ""
		for _, v := range vals {
			key += fmt.Sprint(v, ";")
		}
		if m, ok := j.memo[key]; ok {
			return m
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return Unknown{t}
		}
		obj := j.in.newObj(j.dst, Unknown{pt.Elem()}, pt.Elem())
		p := Ptr{obj: obj}
		j.memo[key] = p
		c := j.join(rs, func(r Ret) Val { return j.in.load(r.st, get(r).(Ptr)) }, pt.Elem(), depth+1)
		j.dst.setObj(obj, c)
		return p
	case Agg:
		a := Agg{make([]Val, len(vals[0].(Agg).f))}
		for _, v := range vals {
			b, ok := v.(Agg)
			if !ok || len(b.f) != len(a.f) {
				return Unknown{t}
			}
		}
		for i := range a.f {
			i := i
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			default:
				return Unknown{t}
			}
			a.f[i] = j.join(rs, func(r Ret) Val { return get(r).(Agg).f[i] }, ft, depth+1)
		}
		return a
	case Slice, SumSlice:
		return j.joinSlices(rs, vals, get, t, depth)
	case *Closure:
		c0 := vals[0].(*Closure)
		for _, v := range vals {
			c, ok := v.(*Closure)
			if !ok || c.fn != c0.fn || c0.model != nil || c.model != nil || len(c.b) != len(c0.b) || c.fn == nil || len(c.fn.FreeVars) != len(c.b) {
				return Unknown{t}
			}
		}
		n := &Closure{fn: c0.fn, b: make([]Val, len(c0.b))}
		for i := range n.b {
			i := i
			n.b[i] = j.join(rs, func(r Ret) Val { return get(r).(*Closure).b[i] }, c0.fn.FreeVars[i].Type(), depth+1)
		}
		return n
	case *TimeV:
		return &TimeV{opaque: true, id: j.dst.newInt(-inf, inf, "instant"), zone: "UTC"}
	}
	return Unknown{t}
}

// joinLin: quantities that agree in every joined state stay one quantity.
func (j *joiner) joinLin(rs []Ret, ls []Lin) Lin {
	key := "lin:"
	lo, hi := inf, -inf
	for i, l := range ls {
		l = rs[i].st.norm(l)
		key += l.key() + ";"
		a, b := rs[i].st.bounds(l)
		if a < lo {
			lo = a
		}
		if b > hi {
			hi = b
		}
	}
	if lo == hi {
		return linC(lo)
	}
	if m, ok := j.memo[key]; ok {
		return m.(Lin)
	}
	r := linS(j.dst.newInt(lo, hi, "joined"))
	j.memo[key] = r
	return r
}

func (j *joiner) joinSlices(rs []Ret, vals []Val, get func(Ret) Val, t types.Type, depth int) Val {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return Unknown{t}
	}
	sameLen := true
	n0 := -1
	key := "slice:"
	lens := make([]Lin, len(vals))
	sum := false
	for i, v := range vals {
		switch s := v.(type) {
		case Slice:
			if n0 < 0 {
				n0 = s.n
			}
			sameLen = sameLen && s.n == n0
			key += fmt.Sprint(s, ";")
			lens[i] = linC(int64(s.n))
		case SumSlice:
			sameLen = false
			sum = true
			lens[i] = s.n
			key += fmt.Sprintf("%v,%v;", s.elem, rs[i].st.norm(s.n).key())
		case Nil:
			if n0 < 0 {
				n0 = 0
			}
			sameLen = sameLen && n0 == 0
			key += "nil;"
		default:
			return Unknown{t}
		}
	}
	if _, isNil := vals[0].(Nil); isNil && sameLen {
		return Nil{}
	}
	_ = sum
	if m, ok := j.memo[key]; ok {
		return m
	}
	elem := func(r Ret, s Slice, i int) Val {
		return j.in.load(r.st, s.arr.field(s.off+i))
	}
	if sameLen {
		a := make([]Val, n0)
		for i := range a {
			i := i
			a[i] = j.join(rs, func(r Ret) Val { return elem(r, get(r).(Slice), i) }, sl.Elem(), depth+1)
		}
		obj := j.in.newObj(j.dst, Agg{a}, types.NewArray(sl.Elem(), int64(n0)))
		v := Slice{arr: Ptr{obj: obj}, n: n0, cp: n0}
		j.memo[key] = v
		return v
	}
	var L *DFA
	strs := true
	or := func(d *DFA) {
		if L == nil {
			L = d
		} else {
			L = L.Or(d)
		}
		if len(L.acc) > 300 {
			L = dfaAny
		}
	}
	for i, v := range vals {
		switch s := v.(type) {
		case Slice:
			for k := 0; k < s.n && strs; k++ {
				e, ok := elem(rs[i], s, k).(Str)
				if !ok {
					strs = false
					break
				}
				or(rs[i].st.strDFA(e))
			}
		case SumSlice:
			if t, ok := s.elem.(tmplStr); ok {
				or(t.lang)
			} else {
				strs = false
			}
		}
	}
	var ev Val = Unknown{sl.Elem()}
	if strs && L != nil {
		ev = tmplStr{L}
	}
	r := SumSlice{elem: ev, n: j.joinLin(rs, lens)}
	j.memo[key] = r
	return r
}
