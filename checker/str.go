package main

// Operations on abstract strings. Every operation returns a partition of the incoming state.

import (
	"fmt"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"
)

type valWorld struct {
	st *State
	v  Val
}

func (st *State) flatten(it []Item) []Item {
	need := false
	for _, x := range it {
		if x.k == iOpq && st.syms[x.s].isSub {
			need = true
			break
		}
	}
	if !need {
		return it
	}
	var out []Item
	for _, x := range it {
		if x.k == iOpq && st.syms[x.s].isSub {
			out = append(out, st.flatten(st.syms[x.s].sub)...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func (st *State) flat(s Str) Str { return Str{st.flatten(s.it)} }

func hasOpq(it []Item) bool {
	for _, x := range it {
		if x.k == iOpq {
			return true
		}
	}
	return false
}

// constStr returns the string when it is fully known.
func (st *State) constStr(s Str) (string, bool) {
	it := st.flatten(s.it)
	b := make([]byte, 0, len(it))
	for _, x := range it {
		switch x.k {
		case iLit:
			b = append(b, x.b)
		case iCell:
			cs := st.syms[x.s].cs
			if cs.count() != 1 {
				return "", false
			}
			b = append(b, byte(cs.first()))
		default:
			return "", false
		}
	}
	return string(b), true
}

func (st *State) itemCS(x Item) Charset {
	var c Charset
	switch x.k {
	case iLit:
		if x.b >= 128 {
			c.add(symOther)
		} else {
			c.add(int(x.b))
		}
	case iCell:
		return st.syms[x.s].cs
	}
	return c
}

// strLen is the length in bytes.
func (st *State) strLen(s Str) Lin {
	n := Lin{}
	for _, x := range st.flatten(s.it) {
		if x.k == iOpq {
			n = n.plus(linS(st.lenSymOf(x.s)))
		} else {
			n.c++
		}
	}
	return n
}

func (st *State) lenSymOf(s SymID) SymID {
	si := st.syms[s]
	if si.lenSym != 0 {
		return si.lenSym
	}
	lo, hi := opqLenBounds(si.lang)
	l := st.newInt(lo, hi, "len")
	n := *st.syms[s]
	n.lenSym = l
	st.syms[s] = &n
	return l
}

func opqLenBounds(d *DFA) (int64, int64) {
	lo, hi := d.LenBounds()
	if hi < 0 {
		return int64(lo), inf
	}
	u := d.Used()
	if u.has(symOther) {
		return int64(lo), int64(hi) * 4
	}
	if u.has(symKelvin) || u.has(symLongS) {
		return int64(lo), int64(hi) * 3
	}
	return int64(lo), int64(hi)
}

// setLang narrows an opaque segment; it is expanded when only one shape of cells remains.
func (st *State) setLang(s SymID, d *DFA) bool {
	si := st.syms[s]
	if si.lang == d {
		return true
	}
	if d.Empty() {
		st.dead = true
		return false
	}
	n := *si
	n.lang = d
	st.syms[s] = &n
	if !st.narrowSource(&n) {
		return false
	}
	if d.Finite() {
		if b, ok := d.Boxes(1); ok && len(b) == 1 {
			return st.substitute(s, b[0])
		}
	}
	if n.lenSym != 0 {
		lo, hi := opqLenBounds(d)
		return st.assumeRange(linS(n.lenSym), lo, hi)
	}
	return true
}

// substitute replaces an opaque segment by cells.
func (st *State) substitute(s SymID, box []Charset) bool {
	si := st.syms[s]
	var items []Item
	for _, cs := range box {
		if cs.count() == 1 {
			f := cs.first()
			if f < 128 {
				items = append(items, Item{k: iLit, b: byte(f)})
				continue
			}
			if f != symOther {
				for _, b := range []byte(string(symRune(f))) {
					items = append(items, Item{k: iLit, b: b})
				}
				continue
			}
		}
		if cs.max() >= 128 {
			// mixed widths: keep as a one-rune opaque segment
			items = append(items, Item{k: iOpq, s: st.newOpq(dfaBox([]Charset{cs}), si.name)})
			continue
		}
		items = append(items, Item{k: iCell, s: st.newCell(cs, si.name)})
	}
	n := *st.syms[s]
	n.isSub = true
	n.sub = items
	n.lang = dfaBox(box)
	st.syms[s] = &n
	if !st.narrowSource(&n) {
		return false
	}
	if n.lenSym != 0 && !hasOpq(items) {
		return st.assumeRange(linS(n.lenSym), int64(len(items)), int64(len(items)))
	}
	return true
}

const expandLimit = 700

// expand turns every finitely describable opaque segment of s into cells (a partition of st).
func (st *State) expand(s Str) []*State {
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		done := true
		for _, x := range w.flatten(s.it) {
			if x.k != iOpq {
				continue
			}
			si := w.syms[x.s]
			if si.tag != nil || !si.lang.Finite() {
				continue
			}
			if u := si.lang.Used(); u.has(symOther) || u.has(symKelvin) || u.has(symLongS) {
				if lo, hi := si.lang.LenBounds(); lo == 1 && hi == 1 {
					continue
				}
			}
			boxes, ok := si.lang.Boxes(expandLimit)
			if !ok {
				continue
			}
			done = false
			for i, b := range boxes {
				n := w
				if i < len(boxes)-1 {
					n = w.clone()
				}
				if n.substitute(x.s, b) {
					work = append(work, n)
				}
			}
			break
		}
		if done {
			out = append(out, w)
		}
	}
	return out
}

// strDFA over-approximates the language of a string by independent items.
func (st *State) strDFA(s Str) *DFA {
	it := st.flatten(s.it)
	var parts []*DFA
	var box []Charset
	flush := func() {
		if len(box) > 0 {
			parts = append(parts, dfaBox(box))
			box = nil
		}
	}
	for i := 0; i < len(it); i++ {
		x := it[i]
		if x.k == iOpq {
			flush()
			parts = append(parts, st.syms[x.s].lang)
			continue
		}
		if x.k == iLit && x.b >= 128 {
			r, n := decodeLit(it[i:])
			var c Charset
			c.add(runeSym(r))
			box = append(box, c)
			i += n - 1
			continue
		}
		box = append(box, st.itemCS(x))
	}
	flush()
	if len(parts) == 0 {
		return dfaLit("")
	}
	return concatDFA(parts...)
}

func decodeLit(it []Item) (rune, int) {
	var b []byte
	for i := 0; i < len(it) && i < 4 && it[i].k == iLit; i++ {
		b = append(b, it[i].b)
	}
	return utf8.DecodeRune(b)
}

// inLang partitions st by membership of s in the language of d.
func (st *State) inLang(s Str, d *DFA) []boolWorld {
	it := st.flatten(s.it)
	nOpq := 0
	for _, x := range it {
		if x.k == iOpq {
			nOpq++
		}
	}
	if nOpq == 0 {
		return st.cellsInLang(it, 0, 0, d)
	}
	if nOpq == 1 && len(it) == 1 {
		o := it[0].s
		L := st.syms[o].lang
		in, out := L.And(d), L.Minus(d)
		if out.Empty() {
			return []boolWorld{{st, true}}
		}
		if in.Empty() {
			return []boolWorld{{st, false}}
		}
		var ws []boolWorld
		b := st.clone()
		if st.setLang(o, in) {
			ws = append(ws, boolWorld{st, true})
		}
		if b.setLang(o, out) {
			ws = append(ws, boolWorld{b, false})
		}
		return ws
	}
	L := st.strDFA(Str{it})
	if L.Minus(d).Empty() {
		return []boolWorld{{st, true}}
	}
	if L.And(d).Empty() {
		return []boolWorld{{st, false}}
	}
	b := st.clone()
	if nOpq == 1 {
		// refine the segment when everything around it is literal
		var pre, post string
		k, ok := -1, true
		for i, x := range it {
			switch {
			case x.k == iOpq:
				k = i
			case x.k == iLit && k < 0:
				pre += string([]byte{x.b})
			case x.k == iLit:
				post += string([]byte{x.b})
			default:
				ok = false
			}
		}
		if ok && utf8.ValidString(pre) && utf8.ValidString(post) {
			o := it[k].s
			var ws []boolWorld
			qt := infix(d, dfaLit(pre), dfaAny, dfaLit(post))
			if st.setLang(o, st.syms[o].lang.And(qt)) {
				ws = append(ws, boolWorld{st, true})
			}
			if b.setLang(o, b.syms[o].lang.Minus(qt)) {
				ws = append(ws, boolWorld{b, false})
			}
			return ws
		}
	}
	return []boolWorld{{st, true}, {b, false}}
}

// cellsInLang runs the automaton over cells, splitting a cell only where the verdict depends on it.
func (st *State) cellsInLang(it []Item, i int, q int32, d *DFA) []boolWorld {
	type key struct {
		i int
		q int32
	}
	memo := map[key]int8{} // 1 true 2 false 3 mixed
	var eval func(i int, q int32) int8
	step := func(i int, q int32) (int, []dedge) { // next index and edges with restricted sets
		x := it[i]
		if x.k == iLit {
			c := int(x.b)
			n := 1
			if x.b >= 128 {
				var r rune
				r, n = decodeLit(it[i:])
				c = runeSym(r)
			}
			var cs Charset
			cs.add(c)
			return i + n, []dedge{{cs, d.tr[q][c]}}
		}
		cs := st.syms[x.s].cs
		var es []dedge
		pos := map[int32]int{}
		cs.each(func(c int) {
			t := d.tr[q][c]
			j, ok := pos[t]
			if !ok {
				j = len(es)
				pos[t] = j
				es = append(es, dedge{to: t})
			}
			es[j].cs.add(c)
		})
		return i + 1, es
	}
	eval = func(i int, q int32) int8 {
		if i >= len(it) {
			if d.acc[q] {
				return 1
			}
			return 2
		}
		k := key{i, q}
		if v, ok := memo[k]; ok {
			return v
		}
		n, es := step(i, q)
		v := int8(0)
		for _, e := range es {
			v |= eval(n, e.to)
		}
		memo[k] = v
		return v
	}
	switch eval(i, q) {
	case 1:
		return []boolWorld{{st, true}}
	case 2:
		return []boolWorld{{st, false}}
	}
	for i < len(it) {
		n, es := step(i, q)
		if len(es) == 1 {
			i, q = n, es[0].to
			continue
		}
		// group by verdict; mixed targets separately
		type grp struct {
			cs Charset
			v  int8
			to int32
		}
		var gs []grp
		for _, e := range es {
			v := eval(n, e.to)
			found := false
			if v != 3 {
				for j := range gs {
					if gs[j].v == v {
						gs[j].cs = gs[j].cs.or(e.cs)
						found = true
					}
				}
			}
			if !found {
				gs = append(gs, grp{e.cs, v, e.to})
			}
		}
		// mixed targets whose residual languages agree on the remaining cells need not be split,
		// but exact splitting is cheap enough here
		var out []boolWorld
		for j, g := range gs {
			w := st
			if j < len(gs)-1 {
				w = st.clone()
			}
			if !w.setCS(it[i].s, g.cs) || !w.propagate() {
				continue
			}
			switch g.v {
			case 1:
				out = append(out, boolWorld{w, true})
			case 2:
				out = append(out, boolWorld{w, false})
			default:
				out = append(out, w.cellsInLang(it, n, g.to, d)...)
			}
		}
		return out
	}
	return []boolWorld{{st, d.acc[q]}}
}

func dfaPrefix(p string) *DFA {
	return memoDFA("^"+p, func() *DFA { return concatDFA(dfaLit(p), dfaAny) })
}
func dfaSuffix(p string) *DFA {
	return memoDFA("$"+p, func() *DFA { return concatDFA(dfaAny, dfaLit(p)) })
}
func dfaContains(p string) *DFA {
	return memoDFA("*"+p, func() *DFA { return concatDFA(dfaAny, dfaLit(p), dfaAny) })
}
func dfaWord(p string) *DFA { return memoDFA("="+p, func() *DFA { return dfaLit(p) }) }

var memoDFAs = map[string]*DFA{}

func memoDFA(k string, f func() *DFA) *DFA {
	if d, ok := memoDFAs[k]; ok {
		return d
	}
	d := f()
	memoDFAs[k] = d
	return d
}

// eqStr partitions st by a == b.
func (st *State) eqStr(a, b Str) []boolWorld {
	a, b = st.flat(a), st.flat(b)
	if c, ok := st.constStr(b); ok {
		return st.inLang(a, dfaWord(c))
	}
	if c, ok := st.constStr(a); ok {
		return st.inLang(b, dfaWord(c))
	}
	same := len(a.it) == len(b.it)
	if same {
		for i := range a.it {
			if a.it[i] != b.it[i] {
				same = false
				break
			}
		}
	}
	if same {
		return []boolWorld{{st, true}}
	}
	if hasOpq(a.it) || hasOpq(b.it) {
		if st.strDFA(a).And(st.strDFA(b)).Empty() {
			return []boolWorld{{st, false}}
		}
		n := st.clone()
		return []boolWorld{{n, true}, {st, false}}
	}
	if len(a.it) != len(b.it) {
		return []boolWorld{{st, false}}
	}
	var out []boolWorld
	for _, w := range st.cmpStr(a, b) {
		out = append(out, boolWorld{w.st, w.c == 0})
	}
	return out
}

type cmpWorld struct {
	st *State
	c  int
}

func (st *State) isDigitCell(x Item) bool {
	cs := st.itemCS(x)
	return !cs.empty() && cs.minus(csDigit).empty()
}

func (st *State) itemLin(x Item) Lin { // code - 48
	if x.k == iLit {
		return linC(int64(x.b) - 48)
	}
	return linS(x.s)
}

// cmpStr compares lexicographically (cells only).
func (st *State) cmpStr(a, b Str) []cmpWorld {
	a, b = st.flat(a), st.flat(b)
	if hasOpq(a.it) || hasOpq(b.it) {
		x, y := st.clone(), st.clone()
		return []cmpWorld{{x, -1}, {st, 0}, {y, 1}}
	}
	var rec func(st *State, i, j int) []cmpWorld
	rec = func(st *State, i, j int) []cmpWorld {
		if i == len(a.it) || j == len(b.it) {
			switch {
			case i < len(a.it):
				return []cmpWorld{{st, 1}}
			case j < len(b.it):
				return []cmpWorld{{st, -1}}
			}
			return []cmpWorld{{st, 0}}
		}
		// a run of digits on both sides compares numerically
		n := 0
		la, lb := Lin{}, Lin{}
		for i+n < len(a.it) && j+n < len(b.it) && n < 9 && st.isDigitCell(a.it[i+n]) && st.isDigitCell(b.it[j+n]) {
			la = la.scale(10).plus(st.itemLin(a.it[i+n]))
			lb = lb.scale(10).plus(st.itemLin(b.it[j+n]))
			n++
		}
		if n == 0 {
			la, lb = st.itemLin(a.it[i]), st.itemLin(b.it[j])
			n = 1
		} else {
			la, lb = st.mergeGroups(a.it[i:i+n], la), st.mergeGroups(b.it[j:j+n], lb)
		}
		var out []cmpWorld
		for _, w := range st.fork3(la.minus(lb)) {
			if w.c != 0 {
				out = append(out, w)
				continue
			}
			out = append(out, rec(w.st, i+n, j+n)...)
		}
		return out
	}
	return rec(st, 0, 0)
}

// fork3 splits on the sign of a linear form.
func (st *State) fork3(d Lin) []cmpWorld {
	var out []cmpWorld
	for _, w := range st.forkCmp(d, opLT) {
		if w.b {
			out = append(out, cmpWorld{w.st, -1})
			continue
		}
		for _, x := range w.st.forkCmp(d, opEQ) {
			if x.b {
				out = append(out, cmpWorld{x.st, 0})
			} else {
				out = append(out, cmpWorld{x.st, 1})
			}
		}
	}
	return out
}

// mergeGroups: the value of a run of digit items, recognising complete renderings.
func (st *State) mergeGroups(it []Item, plain Lin) Lin {
	out := Lin{}
	for i := 0; i < len(it); i++ {
		if it[i].k == iCell {
			si := st.syms[it[i].s]
			if si.grp != nil && si.gidx == 0 && i+si.grp.w <= len(it) {
				all := true
				for k := 0; k < si.grp.w; k++ {
					if it[i+k].k != iCell || it[i+k].s != si.grp.syms[k] {
						all = false
						break
					}
				}
				if all {
					p := int64(1)
					for k := 0; k < si.grp.w; k++ {
						p *= 10
					}
					out = out.scale(p).plus(si.grp.lin)
					i += si.grp.w - 1
					continue
				}
			}
		}
		out = out.scale(10).plus(st.itemLin(it[i]))
	}
	return out
}

// matchAt partitions st on "it[pos:] starts with sub" (cells only).
func (st *State) matchAt(it []Item, pos int, sub string) []boolWorld {
	if pos+len(sub) > len(it) {
		return []boolWorld{{st, false}}
	}
	var out []boolWorld
	cur := st
	for k := 0; k < len(sub); k++ {
		x := it[pos+k]
		var one Charset
		if sub[k] < 128 {
			one.add(int(sub[k]))
		}
		if x.k == iLit {
			if x.b == sub[k] {
				continue
			}
			return append(out, boolWorld{cur, false})
		}
		cs := cur.syms[x.s].cs
		yes, no := cs.and(one), cs.minus(one)
		if yes.empty() {
			return append(out, boolWorld{cur, false})
		}
		if no.empty() {
			continue
		}
		o := cur.clone()
		if o.setCS(x.s, no) && o.propagate() {
			out = append(out, boolWorld{o, false})
		}
		if !cur.setCS(x.s, yes) || !cur.propagate() {
			return out
		}
	}
	return append(out, boolWorld{cur, true})
}

type idxWorld struct {
	st *State
	i  int
}

// findFrom: first occurrence of sub at or after pos (cells only); -1 when absent.
func (st *State) findFrom(it []Item, pos int, sub string) []idxWorld {
	var out []idxWorld
	cur := []*State{st}
	for p := pos; p+len(sub) <= len(it); p++ {
		var next []*State
		for _, s := range cur {
			for _, w := range s.matchAt(it, p, sub) {
				if w.b {
					out = append(out, idxWorld{w.st, p})
				} else {
					next = append(next, w.st)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return out
		}
	}
	for _, s := range cur {
		out = append(out, idxWorld{s, -1})
	}
	return out
}

func (st *State) findLast(it []Item, sub string) []idxWorld {
	var out []idxWorld
	cur := []*State{st}
	for p := len(it) - len(sub); p >= 0; p-- {
		var next []*State
		for _, s := range cur {
			for _, w := range s.matchAt(it, p, sub) {
				if w.b {
					out = append(out, idxWorld{w.st, p})
				} else {
					next = append(next, w.st)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return out
		}
	}
	for _, s := range cur {
		out = append(out, idxWorld{s, -1})
	}
	return out
}

type listWorld struct {
	st   *State
	list []Str
	sum  *SumSlice // summary instead of a list
}

func strList(l []Str) []Val {
	out := make([]Val, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

// splitStr models strings.SplitN(s, sep, n).
func (st *State) splitStr(s Str, sep string, n int) []listWorld {
	if n == 0 {
		return []listWorld{{st: st}}
	}
	if sep == "" {
		giveUp("split into characters")
	}
	var out []listWorld
	for _, w := range st.expand(s) {
		it := w.flatten(s.it)
		opq := 0
		atomic := true
		for _, x := range it {
			if x.k == iOpq {
				opq++
				if !w.syms[x.s].lang.Used().and(csOf(sep)).empty() {
					atomic = false
				}
			}
		}
		if opq == 0 || atomic {
			out = append(out, w.splitCells(it, 0, sep, n)...)
			continue
		}
		if len(it) == 1 && n < 0 {
			o := it[0].s
			exact, more := splitLang(w.syms[o].lang, sep, 3)
			total := len(exact)
			if more != nil {
				total++
			}
			for _, e := range exact {
				x := w.clone()
				if !x.setLang(o, e.Lang) {
					continue
				}
				var l []Str
				if e.K == 0 {
					l = []Str{{[]Item{{k: iOpq, s: o}}}}
				} else {
					ok := true
					for _, p := range e.Pieces {
						q, good := x.opqStr(p, "piece")
						ok = ok && good
						l = append(l, q)
					}
					if !ok {
						continue
					}
				}
				out = append(out, listWorld{st: x, list: l})
			}
			if more != nil {
				x := w.clone()
				if x.setLang(o, more.Lang) {
					ln := x.newInt(int64(more.K+1), inf, "count")
					out = append(out, listWorld{st: x, sum: &SumSlice{elem: tmplStr{more.Pieces[0]}, n: linS(ln)}})
				}
			}
			continue
		}
		ln := w.newInt(1, inf, "count")
		out = append(out, listWorld{st: w, sum: &SumSlice{elem: tmplStr{dfaAny}, n: linS(ln)}})
	}
	return out
}

// tmplStr: a template for "some string of this language"; instantiated afresh on each read.
type tmplStr struct{ lang *DFA }

// opqStr makes an abstract string of the given language.
func (st *State) opqStr(d *DFA, name string) (Str, bool) {
	if d.Empty() {
		st.dead = true
		return Str{}, false
	}
	o := st.newOpq(d, name)
	if d.Finite() {
		if b, ok := d.Boxes(1); ok && len(b) == 1 {
			st.substitute(o, b[0])
		}
	}
	return Str{[]Item{{k: iOpq, s: o}}}, true
}

func (st *State) splitCells(it []Item, from int, sep string, n int) []listWorld {
	if n == 1 {
		return []listWorld{{st: st, list: []Str{{it[from:]}}}}
	}
	var out []listWorld
	for _, w := range st.findFrom2(it, from, sep) {
		if w.i < 0 {
			out = append(out, listWorld{st: w.st, list: []Str{{it[from:]}}})
			continue
		}
		for _, r := range w.st.splitCells(it, w.i+len(sep), sep, n-1) {
			l := append([]Str{{it[from:w.i]}}, r.list...)
			out = append(out, listWorld{st: r.st, list: l})
		}
	}
	return out
}

// findFrom2 is findFrom on strings whose opaque segments cannot contain characters of sub.
func (st *State) findFrom2(it []Item, pos int, sub string) []idxWorld {
	var out []idxWorld
	cur := []*State{st}
	for p := pos; p+len(sub) <= len(it); p++ {
		blocked := false
		for k := 0; k < len(sub); k++ {
			if it[p+k].k == iOpq {
				blocked = true
			}
		}
		if blocked {
			continue
		}
		var next []*State
		for _, s := range cur {
			for _, w := range s.matchAt(it, p, sub) {
				if w.b {
					out = append(out, idxWorld{w.st, p})
				} else {
					next = append(next, w.st)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return out
		}
	}
	for _, s := range cur {
		out = append(out, idxWorld{s, -1})
	}
	return out
}

// ---------- numbers in strings ----------

var dfaInteger = patDFA(`[+-]?[0-9]+`)

type intWorld struct {
	st  *State
	lin Lin
	err bool
}

// parseInt models strconv.ParseInt(s, 10, bits).
func (st *State) parseInt(s Str, bits int, unsigned bool) []intWorld {
	lang := dfaInteger
	if unsigned {
		lang = patDFA(`[0-9]+`)
	}
	var out []intWorld
	for _, e := range st.expand(s) {
		for _, w := range e.inLang(s, lang) {
			if !w.b {
				out = append(out, intWorld{st: w.st, err: true})
				continue
			}
			for _, x := range w.st.expand(s) {
				it := x.flatten(s.it)
				if hasOpq(it) {
					out = append(out, x.parseOpaque(s)...)
					continue
				}
				out = append(out, x.parseDigits(it, bits, unsigned)...)
			}
		}
	}
	return out
}

// parseOpaque: a number of unknown length, split by its number of significant digits.
func (st *State) parseOpaque(s Str) []intWorld {
	var out []intWorld
	number := func(x *State, lo, hi int64) {
		d := x.strDFA(s)
		for k := 4; k > 0 && lo == 0; k-- {
			if d.Minus(patDFA(fmt.Sprintf(`[+-]?0*[1-9][0-9]{%d,}`, k-1))).Empty() {
				lo = pow10(k - 1)
			}
		}
		a, b := -hi, hi
		if d.Minus(patDFA(`[+]?[0-9]+`)).Empty() {
			a = lo
		} else if d.Minus(patDFA(`-[0-9]+`)).Empty() {
			b = -lo
		}
		out = append(out, intWorld{st: x, lin: linS(x.newInt(a, b, "number"))})
	}
	for _, a := range st.inLang(s, patDFA(`[+-]?0*[0-9]{0,4}`)) {
		if a.b {
			number(a.st, 0, 9999)
			continue
		}
		for _, b := range a.st.inLang(s, patDFA(`[+-]?0*[0-9]{0,9}`)) {
			if b.b {
				number(b.st, 10000, 999999999)
				continue
			}
			n := b.st.clone()
			number(b.st, 1000000000, inf)
			out = append(out, intWorld{st: n, err: true})
		}
	}
	return out
}

func (st *State) parseDigits(it []Item, bits int, unsigned bool) []intWorld {
	var out []intWorld
	type start struct {
		st  *State
		neg bool
		off int
	}
	var starts []start
	cs := st.itemCS(it[0])
	for _, c := range []byte{'-', '+'} {
		if cs.has(int(c)) {
			n := st.clone()
			if it[0].k == iLit || n.setCS(it[0].s, csOf(string(c))) && n.propagate() {
				starts = append(starts, start{n, c == '-', 1})
			}
		}
	}
	if d := cs.and(csDigit); !d.empty() {
		n := st
		if it[0].k == iLit || n.setCS(it[0].s, d) && n.propagate() {
			starts = append(starts, start{n, false, 0})
		}
	}
	for _, s := range starts {
		digits := it[s.off:]
		// leading zeros do not count
		k := 0
		for k < len(digits)-1 && digits[k].k == iLit && digits[k].b == '0' {
			k++
		}
		if len(digits)-k > 15 {
			a, b := int64(0), inf
			if s.neg {
				a, b = -inf, 0
			}
			v := s.st.newInt(a, b, "number")
			n := s.st.clone()
			out = append(out, intWorld{st: s.st, lin: linS(v)}, intWorld{st: n, err: true})
			continue
		}
		l := s.st.mergeGroups(digits, Lin{})
		if s.neg {
			l = l.scale(-1)
		}
		lim := inf
		low := -inf
		if bits > 0 && bits < 60 {
			lim = int64(1)<<uint(bits-1) - 1
			low = -lim - 1
			if unsigned {
				lim = int64(1)<<uint(bits) - 1
				low = 0
			}
		}
		if bits > 0 && bits < 60 {
			for _, w := range s.st.forkCmp(l.plusC(-lim), opGT) {
				if w.b {
					out = append(out, intWorld{st: w.st, err: true})
					continue
				}
				for _, w2 := range w.st.forkCmp(l.plusC(-low), opLT) {
					out = append(out, intWorld{st: w2.st, lin: l, err: w2.b})
				}
			}
			continue
		}
		out = append(out, intWorld{st: s.st, lin: s.st.norm(l)})
	}
	return out
}

type strWorld struct {
	st *State
	s  Str
}

// render models the decimal rendering of an integer, zero- or space-padded to a width.
func (st *State) render(l Lin, width int, pad byte, plus bool) []strWorld {
	l = st.norm(l)
	var out []strWorld
	for _, w := range st.forkCmp(l, opLT) {
		sign := ""
		v := l
		if w.b {
			sign, v = "-", l.scale(-1)
		} else if plus {
			sign = "+"
		}
		wd := width - len(sign)
		if pad == ' ' {
			wd = width
		}
		for _, r := range w.st.renderNat(v, func() int {
			if pad == '0' {
				return wd
			}
			return 0
		}()) {
			s := r.s
			if sign != "" {
				s = Str{append([]Item{{k: iLit, b: sign[0]}}, s.it...)}
			}
			if pad == ' ' {
				for len(s.it) < width && !hasOpq(s.it) {
					s = Str{append([]Item{{k: iLit, b: ' '}}, s.it...)}
				}
			}
			out = append(out, strWorld{r.st, s})
		}
	}
	return out
}

func pow10(n int) int64 {
	p := int64(1)
	for i := 0; i < n; i++ {
		p *= 10
	}
	return p
}

func decLen(v int64) int {
	n := 1
	for v >= 10 {
		v /= 10
		n++
	}
	return n
}

// coarseRender keeps the cases of a small number's text together (set where
// calls are summarised).
var coarseRender bool

// renderNat renders a non-negative number with at least width digits.
func (st *State) renderNat(l Lin, width int) []strWorld {
	l = st.norm(l)
	if l.isConst() {
		s := itoa(l.c)
		for len(s) < width {
			s = "0" + s
		}
		return []strWorld{{st, lit(s)}}
	}
	if out, ok := st.renderDirect(l, width); ok {
		return out
	}
	lo, hi := st.bounds(l)
	if hi >= pow10(9) {
		// unbounded: an opaque decimal
		var ws []strWorld
		d := patDFA(`[1-9][0-9]*|0`)
		if width > 1 {
			d = patDFA(`0*[0-9]{` + itoa(int64(width)) + `}|[1-9][0-9]{` + itoa(int64(width)) + `,}`)
			if width > 0 {
				d = d.And(patDFA(`[0-9]{` + itoa(int64(width)) + `}|[1-9][0-9]{` + itoa(int64(width)) + `,}`))
			}
		}
		o := st.newOpq(d, "decimal")
		n := *st.syms[o]
		n.tag = &DecTag{l}
		st.syms[o] = &n
		return append(ws, strWorld{st, Str{[]Item{{k: iOpq, s: o}}}})
	}
	if hi-lo < 40 && !coarseRender {
		vs, ok := st.splitValues(l, 40)
		if ok {
			var out []strWorld
			for _, w := range vs {
				// a relation may fix the value although no single unknown is fixed
				if a, b := w.bounds(l); a == b {
					out = append(out, w.renderNat(linC(a), width)...)
				} else {
					out = append(out, w.renderSpread(l, width)...)
				}
			}
			return out
		}
	}
	return st.renderSpread(l, width)
}

// renderSpread splits by the number of digits.
func (st *State) renderSpread(l Lin, width int) []strWorld {
	lo, hi := st.bounds(l)
	if lo < 0 {
		lo = 0
	}
	n0, n1 := decLen(lo), decLen(hi)
	if n0 < width {
		n0 = width
	}
	if n1 < n0 {
		n1 = n0
	}
	var out []strWorld
	for n := n0; n <= n1; n++ {
		w := st
		if n < n1 {
			w = st.clone()
		}
		a := pow10(n - 1)
		if n <= width {
			a = 0
		}
		if n == 1 {
			a = 0
		}
		if !w.assumeRange(l, a, pow10(n)-1) {
			continue
		}
		out = append(out, strWorld{w, w.groupStr(l, n)})
	}
	return out
}

type DecTag struct{ lin Lin }

func (st *State) groupStr(l Lin, n int) Str {
	g := &DecGroup{lin: l, w: n}
	lo, hi := st.bounds(l)
	var items []Item
	fixed := true
	for i := 0; i < n; i++ {
		p := pow10(n - 1 - i)
		cs := csDigit
		if fixed {
			a, b := lo/p%10, hi/p%10
			if lo >= 0 && lo/p/10 == hi/p/10 && a <= b {
				cs = csRange(byte('0'+a), byte('0'+b))
			}
			if a != b {
				fixed = false
			}
		}
		s := st.newSym(&SymInfo{kind: kCell, cs: cs, name: "digit", grp: g, gidx: i})
		g.syms = append(g.syms, s)
		items = append(items, Item{k: iCell, s: s})
	}
	return Str{items}
}

// renderDirect renders a positional form in which every digit is itself a cell.
func (st *State) renderDirect(l Lin, width int) ([]strWorld, bool) {
	var pos [19]Item
	var used [19]bool
	maxp := -1
	for _, t := range l.t {
		si := st.syms[t.s]
		if si.kind != kCell || !si.cs.minus(csDigit).empty() {
			return nil, false
		}
		p := 0
		k := t.k
		for k >= 10 && k%10 == 0 {
			k /= 10
			p++
		}
		if k != 1 || used[p] {
			return nil, false
		}
		used[p] = true
		pos[p] = Item{k: iCell, s: t.s}
		if p > maxp {
			maxp = p
		}
	}
	if l.c < 0 {
		return nil, false
	}
	c := l.c
	for p := 0; c > 0; p++ {
		if d := c % 10; d != 0 {
			if p > 17 || used[p] {
				return nil, false
			}
			used[p] = true
			pos[p] = Item{k: iLit, b: byte('0' + d)}
			if p > maxp {
				maxp = p
			}
		}
		c /= 10
	}
	for p := 0; p <= maxp; p++ {
		if !used[p] {
			pos[p] = Item{k: iLit, b: '0'}
		}
	}
	n := maxp + 1
	build := func(n int) Str {
		w := n
		if w < width {
			w = width
		}
		if w == 0 {
			w = 1
		}
		it := make([]Item, w)
		for i := range it {
			p := w - 1 - i
			if p < n {
				it[i] = pos[p]
			} else {
				it[i] = Item{k: iLit, b: '0'}
			}
		}
		return Str{it}
	}
	if n <= width || n == 1 {
		return []strWorld{{st, build(n)}}, true
	}
	lead := pos[maxp]
	if lead.k == iLit {
		return []strWorld{{st, build(n)}}, true
	}
	cs := st.syms[lead.s].cs
	zero := csOf("0")
	var out []strWorld
	if cs.has('0') {
		z := st
		if cs.count() > 1 {
			z = st.clone()
		}
		if z.setCS(lead.s, zero) && z.propagate() {
			out = append(out, z.renderNat(l, width)...)
		}
	}
	if nz := cs.minus(zero); !nz.empty() {
		if st.setCS(lead.s, nz) && st.propagate() {
			out = append(out, strWorld{st, build(n)})
		}
	}
	return out, true
}

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	var b []byte
	for v > 0 {
		b = append([]byte{byte('0' + v%10)}, b...)
		v /= 10
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

// ---------- case mapping ----------

func (st *State) mapCase(s Str, f func(rune) rune, upper bool) Str {
	it := st.flatten(s.it)
	var out []Item
	for i := 0; i < len(it); i++ {
		x := it[i]
		switch x.k {
		case iLit:
			r, n := rune(x.b), 1
			if x.b >= 128 {
				r, n = decodeLit(it[i:])
				if r == utf8.RuneError {
					out = append(out, x)
					continue
				}
			}
			for _, b := range []byte(string(f(r))) {
				out = append(out, Item{k: iLit, b: b})
			}
			i += n - 1
		case iCell:
			cs := st.syms[x.s].cs
			var m Charset
			change := false
			cs.each(func(c int) {
				r := f(rune(c))
				m.add(runeSym(r))
				if r != rune(c) {
					change = true
				}
			})
			if !change {
				out = append(out, x)
			} else if m.count() == 1 {
				out = append(out, Item{k: iLit, b: byte(m.first())})
			} else {
				c := st.newCell(m, "case")
				n := *st.syms[c]
				n.src, n.fmap = x.s, &caseMap{f, upper}
				st.syms[c] = &n
				out = append(out, Item{k: iCell, s: c})
			}
		case iOpq:
			d := mapDFA(st.syms[x.s].lang, f, upper)
			if d == st.syms[x.s].lang {
				out = append(out, x)
			} else {
				c := st.newOpq(d, "case")
				n := *st.syms[c]
				n.src, n.fmap = x.s, &caseMap{f, upper}
				st.syms[c] = &n
				out = append(out, Item{k: iOpq, s: c})
			}
		}
	}
	return Str{out}
}

// caseMap relates a string to the one it was derived from, character by character.
type caseMap struct {
	f     func(rune) rune
	upper bool
}

func (m *caseMap) preCS(cs Charset) Charset {
	var out Charset
	for c := 0; c < nSym; c++ {
		if c == symOther {
			if cs.has(symOther) || m.upper && cs.has('I') || !m.upper && cs.has('i') {
				out.add(c)
			}
			continue
		}
		if cs.has(runeSym(m.f(symRune(c)))) {
			out.add(c)
		}
	}
	return out
}

func (m *caseMap) preimage(d *DFA) *DFA {
	n := &nfa{}
	off := n.embed(d)
	for q := range d.acc {
		for j := range n.mv[off+q] {
			e := &n.mv[off+q][j]
			e.cs = m.preCS(e.cs)
		}
	}
	return n.determinize([]int{off})
}

// narrowSource: what is learned of a derived string is learned of its source.
func (st *State) narrowSource(si *SymInfo) bool {
	if si.fmap == nil {
		return true
	}
	src := st.syms[si.src]
	if src.isSub {
		return true
	}
	if len(si.lang.acc) > 400 || len(src.lang.acc) > 400 {
		return true
	}
	return st.setLang(si.src, src.lang.And(si.fmap.preimage(si.lang)))
}

func mapDFA(d *DFA, f func(rune) rune, upper bool) *DFA {
	n := &nfa{}
	off := n.embed(d)
	for q := range d.acc {
		for j := range n.mv[off+q] {
			e := &n.mv[off+q][j]
			var m Charset
			e.cs.each(func(c int) {
				if c == symOther {
					m.add(symOther)
					if upper {
						m.add('I')
					} else {
						m.add('i')
					}
					return
				}
				m.add(runeSym(f(symRune(c))))
			})
			e.cs = m
		}
	}
	r := n.determinize([]int{off})
	if eq, _ := dfaEqual(r, d); eq {
		return d
	}
	return r
}

var toUpper, toLower = unicode.ToUpper, unicode.ToLower

// ---------- regular expression matching with captures ----------

type capWorld struct {
	st    *State
	match bool
	caps  []int // -1: unset (cells only)
	s     Str
	// when the string cannot be laid out as cells:
	langs []*DFA
	unset []bool
}

// findSubmatch models FindStringSubmatchIndex.
func (st *State) findSubmatch(s Str, re *RegexInfo) []capWorld {
	var out []capWorld
	for _, w := range st.inLang(s, re.DFA()) {
		if !w.b {
			out = append(out, capWorld{st: w.st, s: s})
			continue
		}
		for _, x := range w.st.expand(s) {
			it := x.flatten(s.it)
			if !hasOpq(it) && asciiItems(it) {
				out = append(out, x.backtrack(it, re)...)
				continue
			}
			if c, ok := x.constStr(Str{it}); ok {
				// a constant with non-ASCII characters: cells per byte do not apply
				out = append(out, x.constSubmatch(c, re)...)
				continue
			}
			if pw, ok := x.backtrackOpq(it, re); ok {
				out = append(out, pw...)
				continue
			}
			cw := capWorld{st: x, match: true, s: Str{it}}
			L := x.strDFA(Str{it})
			for g := 0; g <= re.NumCap; g++ {
				if g == 0 {
					cw.langs = append(cw.langs, nil)
					cw.unset = append(cw.unset, false)
					continue
				}
				d, un := re.captureLang(L, g)
				cw.langs = append(cw.langs, d)
				cw.unset = append(cw.unset, un)
			}
			out = append(out, cw)
		}
	}
	return out
}

func asciiItems(it []Item) bool {
	for _, x := range it {
		if x.k == iLit && x.b >= 128 {
			return false
		}
	}
	return true
}

func (st *State) constSubmatch(c string, re *RegexInfo) []capWorld {
	// positions in bytes; items are bytes
	it := lit(c).it
	return st.backtrackBytes(it, re)
}

// backtrackOpq handles strings with one-rune opaque segments only (non-ASCII alternatives).
func (st *State) backtrackOpq(it []Item, re *RegexInfo) ([]capWorld, bool) { return nil, false }

func (st *State) backtrack(it []Item, re *RegexInfo) []capWorld { return st.backtrackBytes(it, re) }

type btRes struct {
	st *State
	ok bool
	cp []int
}

// backtrackBytes runs the leftmost-first backtracking search, partitioning cells as needed.
func (st *State) backtrackBytes(it []Item, re *RegexInfo) []capWorld {
	p := re.Prog
	type pk struct {
		pc  uint32
		pos int
	}
	steps := 0
	ctxAt := func(st *State, pos int) (int, bool) {
		if pos == 0 {
			return ctxBegin, true
		}
		cs := st.itemCS(it[pos-1])
		r := -1
		cs.each(func(c int) {
			k := symCtx(c)
			if r == -1 {
				r = k
			} else if r != k {
				r = -2
			}
		})
		return r, r >= 0
	}
	var run func(st *State, pc uint32, pos int, caps []int, on map[pk]bool) []btRes
	run = func(st *State, pc uint32, pos int, caps []int, on map[pk]bool) []btRes {
		steps++
		if steps > 400000 {
			giveUp("matching %q: too many steps", re.Pattern)
		}
		for {
			i := &p.Inst[pc]
			switch i.Op {
			case syntax.InstFail:
				return []btRes{{st: st}}
			case syntax.InstMatch:
				caps = append([]int(nil), caps...)
				caps[1] = pos
				return []btRes{{st, true, caps}}
			case syntax.InstNop:
				pc = i.Out
			case syntax.InstCapture:
				caps = append([]int(nil), caps...)
				if int(i.Arg) < len(caps) {
					caps[i.Arg] = pos
				}
				pc = i.Out
			case syntax.InstEmptyWidth:
				next := []int{-1}
				if pos < len(it) {
					next = nil
					st.itemCS(it[pos]).each(func(c int) { next = append(next, c) })
				}
				ctx, known := ctxAt(st, pos)
				verdict := -1
				for _, c := range next {
					v := 0
					if !known {
						// only text anchors are independent of the previous character
						if syntax.EmptyOp(i.Arg)&^(syntax.EmptyEndText|syntax.EmptyEndLine|syntax.EmptyBeginText) != 0 {
							giveUp("matching %q: anchor depends on several characters", re.Pattern)
						}
						ctx = ctxOther
					}
					if syntax.EmptyOp(i.Arg)&^gapFlags(ctx, c) == 0 {
						v = 1
					}
					if verdict == -1 {
						verdict = v
					} else if verdict != v {
						giveUp("matching %q: anchor depends on several characters", re.Pattern)
					}
				}
				if verdict == 0 {
					return []btRes{{st: st}}
				}
				pc = i.Out
			case syntax.InstAlt, syntax.InstAltMatch:
				k := pk{pc, pos}
				if on[k] {
					return []btRes{{st: st}}
				}
				on2 := map[pk]bool{k: true}
				for a := range on {
					if a.pos == pos {
						on2[a] = true
					}
				}
				var out []btRes
				for _, r := range run(st, i.Out, pos, caps, on2) {
					if r.ok {
						out = append(out, r)
						continue
					}
					out = append(out, run(r.st, i.Arg, pos, caps, on2)...)
				}
				return out
			default:
				if pos >= len(it) {
					return []btRes{{st: st}}
				}
				x := it[pos]
				set := instSet(i)
				if x.k == iLit {
					if x.b >= 128 {
						r, n := decodeLit(it[pos:])
						if !set.has(runeSym(r)) {
							return []btRes{{st: st}}
						}
						pos += n
						pc = i.Out
						continue
					}
					if !set.has(int(x.b)) {
						return []btRes{{st: st}}
					}
					pos++
					pc = i.Out
					continue
				}
				cs := st.syms[x.s].cs
				yes, no := cs.and(set), cs.minus(set)
				if yes.empty() {
					return []btRes{{st: st}}
				}
				if no.empty() {
					pos++
					pc = i.Out
					continue
				}
				var out []btRes
				o := st.clone()
				if o.setCS(x.s, no) && o.propagate() {
					out = append(out, btRes{st: o})
				}
				if st.setCS(x.s, yes) && st.propagate() {
					out = append(out, run(st, i.Out, pos+1, caps, nil)...)
				}
				return out
			}
		}
	}
	var out []capWorld
	cur := []*State{st}
	for pos := 0; pos <= len(it) && len(cur) > 0; pos++ {
		if pos > 0 && pos < len(it) && it[pos].k == iLit && it[pos].b >= 128 && it[pos].b&0xC0 == 0x80 {
			continue
		}
		var next []*State
		for _, s := range cur {
			caps := make([]int, 2*(re.NumCap+1))
			for i := range caps {
				caps[i] = -1
			}
			caps[0] = pos
			for _, r := range run(s, uint32(p.Start), pos, caps, nil) {
				if r.ok {
					cp := append([]int(nil), r.cp...)
					out = append(out, capWorld{st: r.st, match: true, caps: cp, s: Str{it}})
				} else {
					next = append(next, r.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, capWorld{st: s, s: Str{it}})
	}
	return out
}
