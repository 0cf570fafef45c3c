package main

// The abstract domain: symbols, linear forms, facts and abstract states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type SymID int32

const (
	kCell = iota // one character (byte) out of a set
	kInt         // an integer in an interval
	kOpq         // a string of a regular language
)

const inf = int64(1) << 60
const infinity = inf

// SymInfo is immutable; refinement replaces it.
type SymInfo struct {
	kind   uint8
	cs     Charset // kCell
	lo, hi int64   // kInt
	lang   *DFA    // kOpq
	sub    []Item  // kOpq: replaced by these items
	isSub  bool
	name   string
	grp    *DecGroup // kCell: digit of a rendered number
	gidx   int
	lenSym SymID // kOpq: symbol of its length (0: none yet)
	src    SymID // derived by a mapping of characters from this symbol (0: none)
	fmap   *caseMap
	tag    interface{} // provenance (e.g. *TimeV for Unix seconds, *FmtTag for formatted times)
}

// DecGroup: the w digits of the decimal rendering of a non-negative number.
type DecGroup struct {
	lin  Lin
	w    int
	syms []SymID
}

type Term struct {
	s SymID
	k int64
}

// Lin is an integer linear form.
type Lin struct {
	c int64
	t []Term // sorted by symbol, non-zero coefficients
}

func linC(c int64) Lin      { return Lin{c: c} }
func linS(s SymID) Lin      { return Lin{t: []Term{{s, 1}}} }
func (l Lin) isConst() bool { return len(l.t) == 0 }

const coefMax = int64(1) << 55

func (a Lin) add(b Lin, k int64) (Lin, bool) { // a + k*b
	mul := func(x int64) (int64, bool) {
		if x == 0 || k == 0 {
			return 0, true
		}
		r := x * k
		if r/k != x || r > coefMax || r < -coefMax {
			return 0, false
		}
		return r, true
	}
	bc, ok := mul(b.c)
	if !ok {
		return Lin{}, false
	}
	out := Lin{c: a.c + bc}
	if out.c > coefMax || out.c < -coefMax {
		return Lin{}, false
	}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		if j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s {
			out.t = append(out.t, a.t[i])
			i++
			continue
		}
		m, ok := mul(b.t[j].k)
		if !ok {
			return Lin{}, false
		}
		if i < len(a.t) && a.t[i].s == b.t[j].s {
			s := a.t[i].k + m
			if s != 0 {
				out.t = append(out.t, Term{a.t[i].s, s})
			}
			i++
			j++
			continue
		}
		if m != 0 {
			out.t = append(out.t, Term{b.t[j].s, m})
		}
		j++
	}
	return out, true
}

func (a Lin) plus(b Lin) Lin    { return must(a.add(b, 1)) }
func (a Lin) minus(b Lin) Lin   { return must(a.add(b, -1)) }
func (a Lin) scale(k int64) Lin { return must(Lin{}.add(a, k)) }
func (a Lin) plusC(c int64) Lin { a.c += c; return a }
func must(l Lin, ok bool) Lin {
	if !ok {
		giveUp("integer coefficient too large")
	}
	return l
}

func (a Lin) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", a.c)
	for _, t := range a.t {
		fmt.Fprintf(&sb, "+%d*%d", t.k, t.s)
	}
	return sb.String()
}

func sameTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type resSet [7]uint64 // residues modulo 400

func (r *resSet) has(i int64) bool { return r[i>>6]&(1<<(uint(i)&63)) != 0 }
func (r *resSet) add(i int64)      { r[i>>6] |= 1 << (uint(i) & 63) }

func resAll() *resSet {
	var r resSet
	for i := int64(0); i < 400; i++ {
		r.add(i)
	}
	return &r
}

// Fact bounds a primitive linear combination of symbols.
type Fact struct {
	t      []Term // first coefficient positive, gcd 1
	lo, hi int64
	res    *resSet // residues of the combination modulo 400 (nil: all)
}

type Event struct {
	kind string
	args []Val
	pos  string
}

// State is one abstract state: a set of concrete program states.
type State struct {
	heap   []Val // objects from heapBase on
	base   []Val // frozen objects (after initialisation)
	mod    map[int]Val
	syms   []*SymInfo
	facts  []*Fact
	events []Event
	notes  []string
	dead   bool
	wrote  []string     // writes to frozen objects
	htyp   []types.Type // types of the heap objects
	hpos   []*prov      // where the heap objects were last written

	panicking *PanicInfo
	vague     string // while confirming: what is not known exactly on this path
}

// exactRun: a single input is being interpreted to confirm a violation; what the models do not know
// about it must not be taken for a difference.
var exactRun bool

// exactly runs f as a confirmation.
func exactly(f func()) {
	old := exactRun
	exactRun = true
	defer func() { exactRun = old }()
	f()
}

// vagueAt notes that a path depends on something that is not known exactly.
func (d *DFA) oneText() bool {
	bs, ok := d.Boxes(1)
	if !ok || len(bs) != 1 {
		return false
	}
	for _, c := range bs[0] {
		if c.count() != 1 {
			return false
		}
	}
	return true
}

func (st *State) vagueAt(what string) {
	if exactRun && st.vague == "" {
		st.vague = what
	}
}

// harmless: unknown values that nothing decisive depends on, or that vary from run to run.
var harmless = map[string]bool{"error text": true, "written": true, "cap": true, "accuracy": true, "local time": true, "zone offset": true,
	"local instant": true, "JSON": true, "level": true, "feature": true, "time text": true, "local index": true, "result with error": true, "fields of local time": true}

func newState() *State { return &State{syms: []*SymInfo{{kind: kInt, lo: 0, hi: 0, name: "zero"}}} }

func (st *State) clone() *State {
	n := *st
	n.heap = append(make([]Val, 0, len(st.heap)+8), st.heap...)
	n.htyp = append(make([]types.Type, 0, len(st.htyp)+8), st.htyp...)
	n.hpos = append(make([]*prov, 0, len(st.hpos)+8), st.hpos...)
	n.syms = append(make([]*SymInfo, 0, len(st.syms)+8), st.syms...)
	n.facts = append([]*Fact(nil), st.facts...)
	n.events = st.events[:len(st.events):len(st.events)]
	n.notes = st.notes[:len(st.notes):len(st.notes)]
	n.wrote = st.wrote[:len(st.wrote):len(st.wrote)]
	if st.mod != nil {
		n.mod = make(map[int]Val, len(st.mod))
		for k, v := range st.mod {
			n.mod[k] = v
		}
	}
	return &n
}

func (st *State) freeze() {
	st.base = append(append([]Val(nil), st.base...), st.heap...)
	for k, v := range st.mod {
		st.base[k] = v
	}
	st.mod = nil
	st.heap = nil
	st.htyp = nil
	st.hpos = nil
}

func (st *State) alloc(v Val) int {
	st.heap = append(st.heap, v)
	st.htyp = append(st.htyp, nil)
	st.hpos = append(st.hpos, nil)
	return len(st.base) + len(st.heap) - 1
}

func (st *State) obj(i int) Val {
	if i < len(st.base) {
		if st.mod != nil {
			if v, ok := st.mod[i]; ok {
				return v
			}
		}
		return st.base[i]
	}
	return st.heap[i-len(st.base)]
}

func (st *State) setObj(i int, v Val) {
	if i < len(st.base) {
		if st.mod == nil {
			st.mod = map[int]Val{}
		}
		st.mod[i] = v
		return
	}
	st.heap[i-len(st.base)] = v
}

// ---------- symbols ----------

func (st *State) newSym(si *SymInfo) SymID {
	st.syms = append(st.syms, si)
	if exactRun && st.vague == "" && !harmless[si.name] {
		switch si.kind {
		case kInt:
			if si.lo < si.hi {
				st.vague = si.name
			}
		case kCell:
			if si.cs.count() != 1 {
				st.vague = si.name
			}
		case kOpq:
			if !si.lang.oneText() {
				st.vague = si.name
			}
		}
	}
	return SymID(len(st.syms) - 1)
}
func (st *State) newCell(cs Charset, name string) SymID {
	return st.newSym(&SymInfo{kind: kCell, cs: cs, name: name})
}
func (st *State) newInt(lo, hi int64, name string) SymID {
	return st.newSym(&SymInfo{kind: kInt, lo: lo, hi: hi, name: name})
}
func (st *State) newOpq(lang *DFA, name string) SymID {
	return st.newSym(&SymInfo{kind: kOpq, lang: lang, name: name})
}

func (st *State) symBounds(s SymID) (int64, int64) {
	si := st.syms[s]
	if si.kind == kCell {
		return int64(si.cs.first()) - 48, int64(si.cs.max()) - 48
	}
	return si.lo, si.hi
}

func (st *State) setCS(s SymID, cs Charset) bool {
	si := st.syms[s]
	if si.cs == cs {
		return true
	}
	n := *si
	n.cs = cs
	st.syms[s] = &n
	if cs.empty() {
		st.dead = true
		return false
	}
	if si.fmap != nil && !st.setCS(si.src, st.syms[si.src].cs.and(si.fmap.preCS(cs))) {
		return false
	}
	if si.grp != nil {
		// the leading digits of a rendered number bound the number
		g := si.grp
		pre := int64(0)
		p10 := int64(1)
		for i := 0; i < g.w; i++ {
			p10 *= 10
		}
		for i := 0; i < g.w; i++ {
			lo, hi := st.symBounds(g.syms[i])
			p10 /= 10
			if lo != hi {
				l := pre + lo*p10
				h := pre + hi*p10 + (p10 - 1)
				return st.assumeRange(g.lin, l, h)
			}
			pre += lo * p10
		}
		return st.assumeRange(g.lin, pre, pre)
	}
	return true
}

// ---------- linear forms ----------

// norm substitutes symbols with a single value.
func (st *State) norm(l Lin) Lin {
	need := false
	for _, t := range l.t {
		lo, hi := st.symBounds(t.s)
		if lo == hi {
			need = true
			break
		}
	}
	if !need {
		return l
	}
	out := Lin{c: l.c}
	for _, t := range l.t {
		lo, hi := st.symBounds(t.s)
		if lo == hi {
			out.c += t.k * lo
		} else {
			out.t = append(out.t, t)
		}
	}
	return out
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// prim returns l.t = k * p with p primitive (first coefficient positive).
func prim(t []Term) (p []Term, k int64) {
	g := int64(0)
	for _, x := range t {
		g = gcd(g, x.k)
	}
	if t[0].k < 0 {
		g = -g
	}
	p = make([]Term, len(t))
	for i, x := range t {
		p[i] = Term{x.s, x.k / g}
	}
	return p, g
}

func (st *State) findFact(p []Term) int {
	for i, f := range st.facts {
		if sameTerms(f.t, p) {
			return i
		}
	}
	return -1
}

func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	return a + b
}
func satMul(a, k int64) int64 {
	if k == 0 || a == 0 {
		return 0
	}
	if a >= inf || a <= -inf {
		if (a > 0) == (k > 0) {
			return inf
		}
		return -inf
	}
	r := a * k
	if r/k != a || r > inf || r < -inf {
		if (a > 0) == (k > 0) {
			return inf
		}
		return -inf
	}
	return r
}

func (st *State) bounds(l Lin) (int64, int64) {
	l = st.norm(l)
	if l.isConst() {
		return l.c, l.c
	}
	lo, hi := int64(0), int64(0)
	for _, t := range l.t {
		a, b := st.symBounds(t.s)
		a, b = satMul(a, t.k), satMul(b, t.k)
		if a > b {
			a, b = b, a
		}
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	p, k := prim(l.t)
	if i := st.findFact(p); i >= 0 {
		a, b := satMul(st.facts[i].lo, k), satMul(st.facts[i].hi, k)
		if a > b {
			a, b = b, a
		}
		if a > lo {
			lo = a
		}
		if b < hi {
			hi = b
		}
	}
	return satAdd(lo, l.c), satAdd(hi, l.c)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// assumeRange constrains lo <= l <= hi; false when that is impossible.
func (st *State) assumeRange(l Lin, lo, hi int64) bool {
	if st.dead {
		return false
	}
	l = st.norm(l)
	if l.isConst() {
		if l.c < lo || l.c > hi {
			st.dead = true
		}
		return !st.dead
	}
	blo, bhi := st.bounds(l)
	if blo >= lo && bhi <= hi {
		return true
	}
	if blo > hi || bhi < lo {
		st.dead = true
		return false
	}
	// p in [a,b] with l = k*p + c
	p, k := prim(l.t)
	a, b := satAdd(lo, -l.c), satAdd(hi, -l.c)
	var pa, pb int64
	if k > 0 {
		pa, pb = divLo(a, k), divHi(b, k)
	} else {
		pa, pb = divLo(-b, -k), divHi(-a, -k)
	}
	if len(p) == 1 { // coefficient is 1
		if !st.refineSym(p[0].s, pa, pb) {
			return false
		}
		return st.propagate()
	}
	i := st.findFact(p)
	if i < 0 {
		st.facts = append(st.facts, &Fact{t: p, lo: pa, hi: pb})
	} else {
		f := *st.facts[i]
		if pa > f.lo {
			f.lo = pa
		}
		if pb < f.hi {
			f.hi = pb
		}
		st.facts[i] = &f
		if f.lo > f.hi {
			st.dead = true
			return false
		}
	}
	if !st.combine(p) {
		return false
	}
	if i := st.findFact(p); i >= 0 && st.facts[i].lo == st.facts[i].hi && !st.shareRes() {
		return false
	}
	return st.propagate()
}

// combine adds and subtracts a fact and the others: a relation that contradicts or tightens a third
// one follows (transitivity of orders).
func (st *State) combine(p []Term) bool {
	i := st.findFact(p)
	if i < 0 || len(st.facts) > 40 {
		return true
	}
	f := st.facts[i]
	for j := 0; j < len(st.facts); j++ {
		g := st.facts[j]
		if j == i || !shareTerm(f.t, g.t) {
			continue
		}
		for _, k := range []int64{1, -1} {
			sum, ok := Lin{t: f.t}.add(Lin{t: g.t}, k)
			if !ok || len(sum.t) >= len(f.t)+len(g.t) || len(sum.t) == 0 {
				continue
			}
			lo, hi := satAdd(f.lo, satMul(g.lo, k)), satAdd(f.hi, satMul(g.hi, k))
			if k < 0 {
				lo, hi = satAdd(f.lo, satMul(g.hi, k)), satAdd(f.hi, satMul(g.lo, k))
			}
			blo, bhi := st.bounds(sum)
			if lo > bhi || hi < blo {
				st.dead = true
				return false
			}
			if lo <= blo && hi >= bhi {
				continue
			}
			q, m := prim(sum.t)
			if h := st.findFact(q); h >= 0 {
				n := *st.facts[h]
				a, b := divLo(lo, m), divHi(hi, m)
				if m < 0 {
					a, b = divLo(-hi, -m), divHi(-lo, -m)
				}
				if a > n.lo {
					n.lo = a
				}
				if b < n.hi {
					n.hi = b
				}
				st.facts[h] = &n
			}
		}
	}
	return true
}

// closureContradicts closes the relations under addition where terms cancel (chains of orders longer
// than combine follows), and tells whether they contradict each other.
func (st *State) closureContradicts() bool {
	if st.dead {
		return true
	}
	if len(st.facts) < 3 {
		return false
	}
	c := st.clone()
	for round := 0; round < 3; round++ {
		n := len(c.facts)
		changed := false
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				f, g := c.facts[i], c.facts[j]
				if !shareTerm(f.t, g.t) {
					continue
				}
				for _, k := range []int64{1, -1} {
					sum, ok := Lin{t: f.t}.add(Lin{t: g.t}, k)
					if !ok || len(sum.t) == 0 || len(sum.t) > len(f.t) && len(sum.t) > len(g.t) {
						continue
					}
					lo, hi := satAdd(f.lo, satMul(g.lo, k)), satAdd(f.hi, satMul(g.hi, k))
					if k < 0 {
						lo, hi = satAdd(f.lo, satMul(g.hi, k)), satAdd(f.hi, satMul(g.lo, k))
					}
					blo, bhi := c.bounds(sum)
					if lo > bhi || hi < blo {
						return true
					}
					if lo <= blo && hi >= bhi {
						continue
					}
					if len(c.facts) > 150 {
						return false
					}
					q, m := prim(sum.t)
					a, b := divLo(lo, m), divHi(hi, m)
					if m < 0 {
						a, b = divLo(-hi, -m), divHi(-lo, -m)
					}
					changed = true
					if h := c.findFact(q); h >= 0 {
						n := *c.facts[h]
						n.lo, n.hi = max(n.lo, a), min(n.hi, b)
						if n.lo > n.hi {
							return true
						}
						c.facts[h] = &n
					} else {
						c.facts = append(c.facts, &Fact{t: q, lo: a, hi: b})
					}
				}
			}
		}
		if !changed {
			return false
		}
	}
	return false
}

func shareTerm(a, b []Term) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].s == b[j].s:
			return true
		case a[i].s < b[j].s:
			i++
		default:
			j++
		}
	}
	return false
}

func divLo(a, k int64) int64 {
	if a <= -inf {
		return -inf
	}
	if a >= inf {
		return inf
	}
	return ceilDiv(a, k)
}
func divHi(a, k int64) int64 {
	if a >= inf {
		return inf
	}
	if a <= -inf {
		return -inf
	}
	return floorDiv(a, k)
}

func (st *State) refineSym(s SymID, lo, hi int64) bool {
	si := st.syms[s]
	if si.kind == kCell {
		var cs Charset
		si.cs.each(func(c int) {
			if v := int64(c) - 48; v >= lo && v <= hi {
				cs.add(c)
			}
		})
		return st.setCS(s, cs)
	}
	n := *si
	if lo > n.lo {
		n.lo = lo
	}
	if hi < n.hi {
		n.hi = hi
	}
	if n.lo > n.hi {
		st.dead = true
		return false
	}
	if n.lo != si.lo || n.hi != si.hi {
		st.syms[s] = &n
	}
	return true
}

// propagate restores consistency between facts and symbols.
func (st *State) propagate() bool {
	if propagations++; propagations&0xfff == 0 {
		outOfTime()
	}
	for round := 0; round < 50; round++ {
		changed := false
		for i := 0; i < len(st.facts); i++ {
			f := st.facts[i]
			// substitute fixed symbols
			l := st.norm(Lin{t: f.t})
			if len(l.t) != len(f.t) {
				changed = true
				st.facts = append(st.facts[:i:i], st.facts[i+1:]...)
				i--
				if f.res != nil {
					if !st.assumeRes(l, f.res) {
						return false
					}
				}
				if l.isConst() {
					if l.c < f.lo || l.c > f.hi {
						st.dead = true
						return false
					}
					continue
				}
				if !st.assumeRange(l, f.lo, f.hi) {
					return false
				}
				continue
			}
			// bounds consistency
			for _, t := range f.t {
				olo, ohi := int64(0), int64(0)
				for _, u := range f.t {
					if u.s == t.s {
						continue
					}
					a, b := st.symBounds(u.s)
					a, b = satMul(a, u.k), satMul(b, u.k)
					if a > b {
						a, b = b, a
					}
					olo, ohi = satAdd(olo, a), satAdd(ohi, b)
				}
				// t.k * s in [f.lo - ohi, f.hi - olo]
				a, b := satAdd(f.lo, -ohi), satAdd(f.hi, -olo)
				var sa, sb int64
				if t.k > 0 {
					sa, sb = divLo(a, t.k), divHi(b, t.k)
				} else {
					sa, sb = divLo(-b, -t.k), divHi(-a, -t.k)
				}
				x, y := st.symBounds(t.s)
				if sa > x || sb < y {
					before := st.syms[t.s]
					if !st.refineSym(t.s, sa, sb) {
						return false
					}
					if st.syms[t.s] != before {
						changed = true
					}
				}
			}
		}
		if !changed {
			return !st.dead
		}
	}
	return !st.dead
}

// assumeRes constrains (l mod 400) (mathematical residue) to a set.
func (st *State) assumeRes(l Lin, rs *resSet) bool {
	if st.dead {
		return false
	}
	l = st.norm(l)
	if l.isConst() {
		if !rs.has(((l.c % 400) + 400) % 400) {
			st.dead = true
		}
		return !st.dead
	}
	p, k := prim(l.t)
	// allowed residues of p: those r with (k*r + c) mod 400 in rs
	i := st.findFact(p)
	var old *resSet
	var f Fact
	if i >= 0 {
		f = *st.facts[i]
		old = f.res
	} else {
		lo, hi := int64(0), int64(0)
		for _, t := range p {
			a, b := st.symBounds(t.s)
			a, b = satMul(a, t.k), satMul(b, t.k)
			if a > b {
				a, b = b, a
			}
			lo, hi = satAdd(lo, a), satAdd(hi, b)
		}
		f = Fact{t: p, lo: lo, hi: hi}
	}
	if old == nil {
		old = resAll()
	}
	var n resSet
	any := false
	for r := int64(0); r < 400; r++ {
		if old.has(r) && rs.has((((k%400)*r+l.c)%400+400)%400) {
			n.add(r)
			any = true
		}
	}
	if !any {
		st.dead = true
		return false
	}
	f.res = &n
	// small explicit ranges: check directly
	if f.hi-f.lo < 400 && f.lo > -inf && f.hi < inf {
		for f.lo <= f.hi && !n.has(((f.lo%400)+400)%400) {
			f.lo++
		}
		for f.hi >= f.lo && !n.has(((f.hi%400)+400)%400) {
			f.hi--
		}
		if f.lo > f.hi {
			st.dead = true
			return false
		}
	}
	if i >= 0 {
		st.facts[i] = &f
	} else {
		st.facts = append(st.facts, &f)
	}
	if !st.shareRes() {
		return false
	}
	return st.propagate()
}

// shareRes carries residues over equalities between linear forms.
func (st *State) shareRes() bool {
	if len(st.facts) > 40 || sharing {
		return true
	}
	sharing = true
	defer func() { sharing = false }()
	for round := 0; round < 4; round++ {
		more, ok := st.shareOnce()
		if !ok {
			return false
		}
		if !more {
			break
		}
	}
	return true
}

// sharing: residues are being shared between related facts already.
var sharing bool

func (st *State) shareOnce() (changed, ok bool) {
	if len(st.facts) > 40 {
		return false, true
	}
	for i := 0; i < len(st.facts); i++ {
		e := st.facts[i]
		if e.lo != e.hi {
			continue
		}
		for j := 0; j < len(st.facts); j++ {
			f := st.facts[j]
			if i == j || f.res == nil || !shareTerm(e.t, f.t) {
				continue
			}
			for _, k := range []int64{1, -1} {
				q, ok := Lin{t: f.t}.add(Lin{t: e.t}, k)
				if !ok || len(q.t) > len(f.t) || len(q.t) == 0 {
					continue
				}
				q = q.plusC(-k * e.lo) // equal to f's form
				if q2 := st.norm(q); !q2.isConst() {
					if h := st.findFact(mustPrim(q2.t)); h >= 0 && st.facts[h].res != nil {
						_, m := prim(q2.t)
						same := true
						for r := int64(0); r < 400; r++ {
							if st.facts[h].res.has(r) && !f.res.has((((m%400)*r+q2.c)%400+400)%400) {
								same = false
							}
						}
						if same {
							continue
						}
					}
				}
				changed = true
				if !st.assumeRes(q, f.res) {
					return changed, false
				}
			}
		}
	}
	return changed, true
}

func mustPrim(t []Term) []Term { p, _ := prim(t); return p }

// residues returns the possible residues of l modulo m (m divides 400).
func (st *State) residues(l Lin, m int64) []int64 {
	l = st.norm(l)
	if l.isConst() {
		return []int64{((l.c % m) + m) % m}
	}
	p, k := prim(l.t)
	// residues of p from the digits
	cur := map[int64]bool{0: true}
	for _, t := range p {
		nx := map[int64]bool{}
		lo, hi := st.symBounds(t.s)
		var vals []int64
		if hi-lo > 2000 || lo <= -inf || hi >= inf {
			for v := int64(0); v < 400; v++ {
				vals = append(vals, v)
			}
		} else if st.syms[t.s].kind == kCell {
			st.syms[t.s].cs.each(func(c int) { vals = append(vals, int64(c)-48) })
		} else {
			for v := lo; v <= hi; v++ {
				vals = append(vals, v)
			}
		}
		for r := range cur {
			for _, v := range vals {
				nx[(((r+(t.k%400)*(v%400))%400)+400)%400] = true
			}
		}
		cur = nx
	}
	var rs *resSet
	lo, hi := -inf, inf
	if i := st.findFact(p); i >= 0 {
		rs = st.facts[i].res
		lo, hi = st.facts[i].lo, st.facts[i].hi
	}
	if lo > -inf && hi < inf && hi-lo < 399 {
		nx := map[int64]bool{}
		for v := lo; v <= hi; v++ {
			r := ((v % 400) + 400) % 400
			if cur[r] {
				nx[r] = true
			}
		}
		cur = nx
	}
	out := map[int64]bool{}
	for r := range cur {
		if rs != nil && !rs.has(r) {
			continue
		}
		out[((((k%400)*r+l.c)%m)+m)%m] = true
	}
	var o []int64
	for r := range out {
		o = append(o, r)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// eqLin: is a == b certain?
func (st *State) eqLin(a, b Lin) bool {
	d, ok := a.add(b, -1)
	if !ok {
		return false
	}
	lo, hi := st.bounds(d)
	return lo == 0 && hi == 0
}

func leapRes() (leap, common *resSet) {
	leap, common = &resSet{}, &resSet{}
	for r := int64(0); r < 400; r++ {
		if r%4 == 0 && r%100 != 0 || r == 0 {
			leap.add(r)
		} else {
			common.add(r)
		}
	}
	return
}

var resLeap, resCommon = leapRes()

// ---------- forking helpers ----------

type cmpOp int

const (
	opLT cmpOp = iota
	opLE
	opGT
	opGE
	opEQ
	opNE
)

func (op cmpOp) not() cmpOp { return [...]cmpOp{opGE, opGT, opLE, opLT, opNE, opEQ}[op] }

// decide returns 1, 0 or -1 (unknown) for "l op 0".
func (st *State) decide(l Lin, op cmpOp) int {
	lo, hi := st.bounds(l)
	switch op {
	case opLT:
		if hi < 0 {
			return 1
		}
		if lo >= 0 {
			return 0
		}
	case opLE:
		if hi <= 0 {
			return 1
		}
		if lo > 0 {
			return 0
		}
	case opGT:
		if lo > 0 {
			return 1
		}
		if hi <= 0 {
			return 0
		}
	case opGE:
		if lo >= 0 {
			return 1
		}
		if hi < 0 {
			return 0
		}
	case opEQ, opNE:
		r := -1
		if lo == 0 && hi == 0 {
			r = 1
		} else if lo > 0 || hi < 0 {
			r = 0
		} else if l2 := st.norm(l); len(l2.t) > 0 {
			// holes in a character set
			if len(l2.t) == 1 && st.syms[l2.t[0].s].kind == kCell {
				k := l2.t[0].k
				if l2.c%k != 0 {
					r = 0
				} else {
					v := -l2.c/k + 48
					if v < 0 || v > 127 || !st.syms[l2.t[0].s].cs.has(int(v)) {
						r = 0
					}
				}
			} else {
				p, k := prim(l2.t)
				if l2.c%k != 0 {
					r = 0
				} else if i := st.findFact(p); i >= 0 && st.facts[i].res != nil {
					v := -l2.c / k
					if !st.facts[i].res.has(((v % 400) + 400) % 400) {
						r = 0
					}
				}
			}
		}
		if r >= 0 && op == opNE {
			return 1 - r
		}
		return r
	}
	return -1
}

// assume constrains "l op 0"; opNE may split, so the result is a list of feasible states (st consumed).
func (st *State) assume(l Lin, op cmpOp) []*State {
	one := func(lo, hi int64) []*State {
		if st.assumeRange(l, lo, hi) {
			return []*State{st}
		}
		return nil
	}
	switch op {
	case opLT:
		return one(-inf, -1)
	case opLE:
		return one(-inf, 0)
	case opGT:
		return one(1, inf)
	case opGE:
		return one(0, inf)
	case opEQ:
		return one(0, 0)
	}
	// NE
	switch st.decide(l, opNE) {
	case 1:
		return []*State{st}
	case 0:
		return nil
	}
	l = st.norm(l)
	if len(l.t) == 1 && st.syms[l.t[0].s].kind == kCell {
		v := -l.c/l.t[0].k + 48
		var one Charset
		one.add(int(v))
		if st.setCS(l.t[0].s, st.syms[l.t[0].s].cs.minus(one)) && st.propagate() {
			return []*State{st}
		}
		return nil
	}
	lo, hi := st.bounds(l)
	if lo == 0 {
		return one(1, inf)
	}
	if hi == 0 {
		return one(-inf, -1)
	}
	b := st.clone()
	var out []*State
	if st.assumeRange(l, -inf, -1) {
		out = append(out, st)
	}
	if b.assumeRange(l, 1, inf) {
		out = append(out, b)
	}
	return out
}

type boolWorld struct {
	st *State
	b  bool
}

// forkCmp splits st on "l op 0".
func (st *State) forkCmp(l Lin, op cmpOp) []boolWorld {
	switch st.decide(l, op) {
	case 1:
		return []boolWorld{{st, true}}
	case 0:
		return []boolWorld{{st, false}}
	}
	var out []boolWorld
	o := st.clone()
	for _, s := range st.assume(l, op) {
		out = append(out, boolWorld{s, true})
	}
	for _, s := range o.assume(l, op.not()) {
		out = append(out, boolWorld{s, false})
	}
	return out
}

// valuesOf enumerates the values of a linear form when there are at most max of them.
func (st *State) splitValues(l Lin, max int64) ([]*State, bool) {
	l = st.norm(l)
	if l.isConst() {
		return []*State{st}, true
	}
	lo, hi := st.bounds(l)
	if lo <= -inf || hi >= inf || hi-lo >= max {
		return nil, false
	}
	var out []*State
	for v := lo; v <= hi; v++ {
		n := st.clone()
		if n.decide(l.plusC(-v), opEQ) != 0 && n.assumeRange(l, v, v) {
			out = append(out, n)
		}
	}
	return out, true
}

// ---------- concretisation (for witnesses and for discarding empty states) ----------

// solve looks for an assignment of the given symbols (and all symbols sharing facts with them).
// Returns found, exhausted (true: the search was complete).
func (st *State) solve(want []SymID, budget int) (map[SymID]int64, bool, bool) {
	// connected components through facts
	assign := map[SymID]int64{}
	inFact := map[SymID][]*Fact{}
	for _, f := range st.facts {
		for _, t := range f.t {
			inFact[t.s] = append(inFact[t.s], f)
		}
	}
	done := map[SymID]bool{}
	all := append([]SymID(nil), want...)
	for _, f := range st.facts {
		for _, t := range f.t {
			all = append(all, t.s)
		}
	}
	complete := true
	for _, s0 := range all {
		if done[s0] || st.syms[s0].kind == kOpq {
			continue
		}
		// component
		var comp []SymID
		facts := map[*Fact]bool{}
		st2 := []SymID{s0}
		done[s0] = true
		for len(st2) > 0 {
			s := st2[len(st2)-1]
			st2 = st2[:len(st2)-1]
			comp = append(comp, s)
			for _, f := range inFact[s] {
				facts[f] = true
				for _, t := range f.t {
					if !done[t.s] {
						done[t.s] = true
						st2 = append(st2, t.s)
					}
				}
			}
		}
		// symbols with unbounded ranges: give up on the component unless it is alone
		var doms [][]int64
		skip := false
		for _, s := range comp {
			var d []int64
			if st.syms[s].kind == kCell {
				st.syms[s].cs.each(func(c int) { d = append(d, int64(c)-48) })
				// prefer digits, in an order that avoids zero first
				sort.SliceStable(d, func(i, j int) bool { return pref(d[i]) < pref(d[j]) })
			} else {
				lo, hi := st.symBounds(s)
				if hi-lo > 4000 || lo <= -inf || hi >= inf {
					skip = true
					break
				}
				for v := lo; v <= hi; v++ {
					d = append(d, v)
				}
			}
			doms = append(doms, d)
		}
		if skip {
			for _, s := range comp {
				if st.syms[s].kind == kCell {
					assign[s] = int64(st.syms[s].cs.first()) - 48
				}
			}
			if len(facts) > 0 {
				complete = false
			}
			continue
		}
		// order: symbols with large coefficients first
		idx := make([]int, len(comp))
		for i := range idx {
			idx[i] = i
		}
		weight := func(s SymID) int64 {
			w := int64(0)
			for f := range facts {
				for _, t := range f.t {
					if t.s == s {
						k := t.k
						if k < 0 {
							k = -k
						}
						if k > w {
							w = k
						}
					}
				}
			}
			return w
		}
		sort.SliceStable(idx, func(i, j int) bool { return weight(comp[idx[i]]) > weight(comp[idx[j]]) })
		val := map[SymID]int64{}
		nodes := 0
		var rec func(i int) int // 1 found, 0 none, -1 budget
		check := func() bool {
			for f := range facts {
				lo, hi := int64(0), int64(0)
				full := true
				for _, t := range f.t {
					if v, ok := val[t.s]; ok {
						lo, hi = satAdd(lo, t.k*v), satAdd(hi, t.k*v)
						continue
					}
					full = false
					a, b := st.symBounds(t.s)
					a, b = satMul(a, t.k), satMul(b, t.k)
					if a > b {
						a, b = b, a
					}
					lo, hi = satAdd(lo, a), satAdd(hi, b)
				}
				if lo > f.hi || hi < f.lo {
					return false
				}
				if full && f.res != nil && !f.res.has(((lo%400)+400)%400) {
					return false
				}
			}
			return true
		}
		rec = func(i int) int {
			if i == len(idx) {
				return 1
			}
			for _, v := range doms[idx[i]] {
				nodes++
				if nodes > budget {
					return -1
				}
				val[comp[idx[i]]] = v
				if check() {
					if r := rec(i + 1); r != 0 {
						return r
					}
				}
				delete(val, comp[idx[i]])
			}
			return 0
		}
		switch rec(0) {
		case 0:
			return nil, false, true
		case -1:
			complete = false
			for _, s := range comp {
				if st.syms[s].kind == kCell {
					assign[s] = int64(st.syms[s].cs.first()) - 48
				}
			}
		default:
			for s, v := range val {
				assign[s] = v
			}
		}
	}
	return assign, true, complete
}

func pref(v int64) int64 {
	if v == 0 {
		return 5
	}
	if v > 0 && v < 5 {
		return v
	}
	return v + 10
}

// feasible: false only when the state is certainly empty.
func (st *State) feasible() bool {
	if st.dead {
		return false
	}
	_, ok, _ := st.solve(nil, 60000)
	return ok
}

// witness renders one concrete instance of a string.
func (st *State) witness(s Str) string { return st.witnesses(s)[0] }

// witnesses renders one concrete instance of several strings.
func (st *State) witnesses(ss ...Str) []string {
	var want []SymID
	for _, s := range ss {
		for _, it := range st.flatten(s.it) {
			if it.k == iCell {
				want = append(want, it.s)
			}
		}
	}
	as, _, _ := st.solve(want, 60000)
	var out []string
	for _, s := range ss {
		out = append(out, st.renderWith(st.flatten(s.it), as))
	}
	return out
}

func (st *State) renderWith(items []Item, as map[SymID]int64) string {
	var sb strings.Builder
	for _, it := range items {
		switch it.k {
		case iLit:
			sb.WriteByte(it.b)
		case iCell:
			if v, ok := as[it.s]; ok {
				sb.WriteByte(byte(v + 48))
			} else {
				sb.WriteByte(byte(st.syms[it.s].cs.first()))
			}
		case iOpq:
			w, _ := st.syms[it.s].lang.Witness()
			sb.WriteString(w)
		}
	}
	return sb.String()
}

// show renders the abstract string as a pattern.
func (st *State) show(s Str) string {
	var sb strings.Builder
	for _, it := range st.flatten(s.it) {
		switch it.k {
		case iLit:
			sb.WriteByte(it.b)
		case iCell:
			sb.WriteString(st.syms[it.s].cs.String())
		case iOpq:
			w, _ := st.syms[it.s].lang.Witness()
			fmt.Fprintf(&sb, "«%s…»", w)
		}
	}
	return sb.String()
}
