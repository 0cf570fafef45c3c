package main

// Regular languages over an alphabet of rune classes: the 128 ASCII characters, the two non-ASCII
// runes that case-fold to ASCII letters (U+017F and U+212A), and "any other rune".

import (
	"fmt"
	"math/bits"
	"os"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	symLongS  = 128
	symKelvin = 129
	symOther  = 130
	nSym      = 131
)

// Charset is a set of alphabet symbols.
type Charset [3]uint64

func (c Charset) has(s int) bool        { return c[s>>6]&(1<<(uint(s)&63)) != 0 }
func (c *Charset) add(s int)            { c[s>>6] |= 1 << (uint(s) & 63) }
func (c Charset) and(d Charset) Charset { return Charset{c[0] & d[0], c[1] & d[1], c[2] & d[2]} }
func (c Charset) or(d Charset) Charset  { return Charset{c[0] | d[0], c[1] | d[1], c[2] | d[2]} }
func (c Charset) minus(d Charset) Charset {
	return Charset{c[0] &^ d[0], c[1] &^ d[1], c[2] &^ d[2]}
}
func (c Charset) empty() bool { return c[0]|c[1]|c[2] == 0 }
func (c Charset) count() int {
	return bits.OnesCount64(c[0]) + bits.OnesCount64(c[1]) + bits.OnesCount64(c[2])
}
func (c Charset) first() int {
	for i := 0; i < 3; i++ {
		if c[i] != 0 {
			return i*64 + bits.TrailingZeros64(c[i])
		}
	}
	return -1
}
func (c Charset) each(f func(int)) {
	for i := 0; i < 3; i++ {
		w := c[i]
		for w != 0 {
			b := bits.TrailingZeros64(w)
			f(i*64 + b)
			w &^= 1 << uint(b)
		}
	}
}
func (c Charset) max() int {
	for i := 2; i >= 0; i-- {
		if c[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(c[i])
		}
	}
	return -1
}

func csOf(s string) Charset {
	var c Charset
	for i := 0; i < len(s); i++ {
		c.add(int(s[i]))
	}
	return c
}
func csRange(lo, hi byte) Charset {
	var c Charset
	for i := int(lo); i <= int(hi); i++ {
		c.add(i)
	}
	return c
}

var csDigit = csRange('0', '9')
var csAll = func() Charset {
	var c Charset
	for i := 0; i < nSym; i++ {
		c.add(i)
	}
	return c
}()

func symRune(s int) rune {
	switch s {
	case symLongS:
		return 'ſ'
	case symKelvin:
		return 'K'
	case symOther:
		return 'é'
	}
	return rune(s)
}

func runeSym(r rune) int {
	switch {
	case r < 128:
		return int(r)
	case r == 'ſ':
		return symLongS
	case r == 'K':
		return symKelvin
	}
	return symOther
}

func (c Charset) String() string {
	if c.count() == 1 {
		return string(symRune(c.first()))
	}
	if c == csDigit {
		return `\d`
	}
	if c == csAll {
		return "."
	}
	var sb strings.Builder
	sb.WriteByte('[')
	neg := c.has(symOther)
	if neg {
		sb.WriteByte('^')
		c = csAll.minus(c)
	}
	for s := 0; s < nSym; s++ {
		if c.has(s) {
			e := s
			for e+1 < 128 && c.has(e+1) {
				e++
			}
			if e-s >= 3 {
				fmt.Fprintf(&sb, "%s-%s", printRune(symRune(s)), printRune(symRune(e)))
				s = e
			} else {
				sb.WriteString(printRune(symRune(s)))
			}
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

func printRune(r rune) string {
	if r < 32 || r == 127 {
		return fmt.Sprintf(`\x%02x`, r)
	}
	return string(r)
}

// DFA: total automaton; state 0 is the start.
type DFA struct {
	acc []bool
	tr  [][nSym]int32
	// caches
	trimmed bool
	live    []bool // co-reachable
	finite  int8   // 0 unknown 1 yes 2 no
	id      int
	cls     [nSym]uint8 // symbol classes
	reps    []int
}

var dfaCount int

func newDFA() *DFA { dfaCount++; return &DFA{id: dfaCount} }

func (d *DFA) addState(acc bool) int32 {
	if len(d.acc) > 200_000 || memHigh.Load() {
		giveUp("automaton too large")
	}
	d.acc = append(d.acc, acc)
	d.tr = append(d.tr, [nSym]int32{})
	return int32(len(d.acc) - 1)
}

// ---------- regular expressions ----------

type RegexInfo struct {
	Pattern string
	Prog    *syntax.Prog
	Re      *syntax.Regexp
	NumCap  int
	Names   []string
	dfa     *DFA
	err     string
}

var regexCache = map[string]*RegexInfo{}

func compileRegex(pat string) *RegexInfo {
	if r, ok := regexCache[pat]; ok {
		return r
	}
	r := &RegexInfo{Pattern: pat}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		r.err = err.Error()
	} else {
		r.NumCap = re.MaxCap()
		r.Names = re.CapNames()
		r.Re = re.Simplify()
		p, err := syntax.Compile(r.Re)
		if err != nil {
			r.err = err.Error()
		}
		r.Prog = p
	}
	regexCache[pat] = r
	return r
}

type undecidedErr struct{ msg string }

// asUndecided reads what ended a unit of work: the analysis gave up, or met code it was not written for.
func asUndecided(e interface{}) (undecidedErr, bool) {
	if u, ok := e.(undecidedErr); ok {
		return u, true
	}
	if os.Getenv("INTERNAL") != "" {
		return undecidedErr{}, false
	}
	return undecidedErr{fmt.Sprintf("the analysis failed: %v", e)}, true
}

func (u undecidedErr) Error() string { return u.msg }

func giveUp(format string, args ...interface{}) {
	panic(undecidedErr{fmt.Sprintf(format, args...)})
}

// instSet is the set of symbols an instruction consumes.
var instSetCache = map[*syntax.Inst]Charset{}

func instSet(i *syntax.Inst) Charset {
	if c, ok := instSetCache[i]; ok {
		return c
	}
	var c Charset
	for s := 0; s < symOther; s++ {
		if i.MatchRune(symRune(s)) {
			c.add(s)
		}
	}
	switch i.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		c.add(symOther)
	case syntax.InstRune1:
		if i.Rune[0] >= 128 && runeSym(i.Rune[0]) == symOther {
			giveUp("regular expression instruction %v distinguishes non-ASCII runes", i)
		}
	case syntax.InstRune:
		// does the class cover all "other" runes, none, or some?
		if len(i.Rune) == 1 {
			if i.Rune[0] >= 128 && runeSym(i.Rune[0]) == symOther {
				giveUp("regular expression instruction %v distinguishes non-ASCII runes", i)
			}
			break
		}
		covers := false
		partial := false
		for k := 0; k+1 < len(i.Rune); k += 2 {
			lo, hi := i.Rune[k], i.Rune[k+1]
			if hi < 128 {
				continue
			}
			if (lo == 'ſ' || lo == 'K') && lo == hi {
				continue
			}
			if lo <= 128 && hi == 0x10FFFF {
				covers = true
				continue
			}
			partial = true
		}
		if partial && !covers {
			// ranges that together cover everything but the two folding runes
			covers = true
			for _, r := range []rune{0x80, 0xe9, 0x17e, 0x180, 0x2129, 0x212b, 0xfffd, 0x10ffff} {
				if !i.MatchRune(r) {
					covers = false
				}
			}
			if !covers {
				giveUp("regular expression class %v distinguishes non-ASCII runes", i)
			}
		}
		if covers {
			c.add(symOther)
		}
	}
	instSetCache[i] = c
	return c
}

func isWordSym(s int) bool {
	return s == '_' || s >= '0' && s <= '9' || s >= 'a' && s <= 'z' || s >= 'A' && s <= 'Z'
}

// context of a position: what precedes it
const (
	ctxBegin = iota
	ctxNL
	ctxWord
	ctxOther
)

func symCtx(s int) int {
	switch {
	case s == '\n':
		return ctxNL
	case isWordSym(s):
		return ctxWord
	}
	return ctxOther
}

// emptyFlags of the gap between a context and the next symbol (-1: end of text)
func gapFlags(ctx int, next int) syntax.EmptyOp {
	var f syntax.EmptyOp
	if ctx == ctxBegin {
		f |= syntax.EmptyBeginText | syntax.EmptyBeginLine
	}
	if ctx == ctxNL {
		f |= syntax.EmptyBeginLine
	}
	if next == -1 {
		f |= syntax.EmptyEndText | syntax.EmptyEndLine
	}
	if next == '\n' {
		f |= syntax.EmptyEndLine
	}
	w1 := ctx == ctxWord
	w2 := next >= 0 && isWordSym(next)
	if w1 != w2 {
		f |= syntax.EmptyWordBoundary
	} else {
		f |= syntax.EmptyNoWordBoundary
	}
	return f
}

func closure(p *syntax.Prog, pcs []uint32, flags syntax.EmptyOp) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	var visit func(pc uint32)
	visit = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(i.Out)
			visit(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^flags == 0 {
				visit(i.Out)
			}
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		visit(pc)
	}
	return out
}

// DFA of "regexp.MatchString(s)": the strings in which the expression matches somewhere.
func (r *RegexInfo) DFA() *DFA {
	if r.dfa != nil {
		return r.dfa
	}
	if r.err != "" {
		giveUp("regular expression %q does not compile: %s", r.Pattern, r.err)
	}
	p := r.Prog
	d := newDFA()
	type key = string
	mk := func(pcs []uint32, ctx int) key {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d:", ctx)
		for _, x := range pcs {
			fmt.Fprintf(&sb, "%d,", x)
		}
		return sb.String()
	}
	useCtx := false
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth {
			e := syntax.EmptyOp(p.Inst[i].Arg)
			if e&(syntax.EmptyBeginLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				useCtx = true
			}
		}
	}
	normCtx := func(c int) int {
		if !useCtx && c != ctxBegin {
			return ctxOther
		}
		return c
	}
	type item struct {
		pcs []uint32
		ctx int
	}
	idx := map[key]int32{}
	var work []item
	sink := int32(-1)
	get := func(pcs []uint32, ctx int) int32 {
		sort.Slice(pcs, func(i, j int) bool { return pcs[i] < pcs[j] })
		k := mk(pcs, ctx)
		if s, ok := idx[k]; ok {
			return s
		}
		// accept at end?
		acc := false
		for _, pc := range closure(p, pcs, gapFlags(ctx, -1)) {
			if p.Inst[pc].Op == syntax.InstMatch {
				acc = true
			}
		}
		s := d.addState(acc)
		idx[k] = s
		for int(s) >= len(work) {
			work = append(work, item{})
		}
		work[s] = item{pcs, ctx}
		return s
	}
	getSink := func() int32 {
		if sink < 0 {
			sink = d.addState(true)
			for int(sink) >= len(work) {
				work = append(work, item{})
			}
			for c := 0; c < nSym; c++ {
				d.tr[sink][c] = sink
			}
		}
		return sink
	}
	get([]uint32{uint32(p.Start)}, ctxBegin)
	for i := 0; i < len(work); i++ {
		if int32(i) == sink {
			continue
		}
		it := work[i]
		// closures depend on next symbol only through flags; cache by flags
		cache := map[syntax.EmptyOp][]uint32{}
		for c := 0; c < nSym; c++ {
			fl := gapFlags(it.ctx, c)
			cl, ok := cache[fl]
			if !ok {
				cl = closure(p, it.pcs, fl)
				cache[fl] = cl
			}
			matched := false
			set := map[uint32]bool{uint32(p.Start): true} // unanchored restart
			for _, pc := range cl {
				in := &p.Inst[pc]
				if in.Op == syntax.InstMatch {
					matched = true
					break
				}
				if instSet(in).has(c) {
					set[in.Out] = true
				}
			}
			var t int32
			if matched {
				t = getSink()
			} else {
				var pcs []uint32
				for pc := range set {
					pcs = append(pcs, pc)
				}
				t = get(pcs, normCtx(symCtx(c)))
			}
			d.tr[i][c] = t
		}
		if len(work) > 20000 {
			giveUp("regular expression %q: automaton too large", r.Pattern)
		}
	}
	r.dfa = d.minimize()
	return r.dfa
}

// classes groups the symbols that no transition of the automaton tells apart.
func (d *DFA) classes() ([nSym]uint8, []int) {
	if d.reps != nil {
		return d.cls, d.reps
	}
	var cls [nSym]uint8
	var reps []int
	h := make([]uint64, nSym)
	for q := range d.tr {
		row := &d.tr[q]
		for c := 0; c < nSym; c++ {
			h[c] = (h[c] ^ uint64(row[c]+1)) * 0x9E3779B97F4A7C15
			h[c] ^= h[c] >> 29
		}
	}
	m := map[uint64]uint8{}
	for c := 0; c < nSym; c++ {
		id, ok := m[h[c]]
		if ok {
			// confirm: never trust a hash
			r := reps[id]
			for q := range d.tr {
				if d.tr[q][c] != d.tr[q][r] {
					ok = false
					break
				}
			}
		}
		if !ok {
			id = uint8(len(reps))
			m[h[c]] = id
			reps = append(reps, c)
		}
		cls[c] = id
	}
	d.cls, d.reps = cls, reps
	return cls, reps
}

// intern table of minimal automata in canonical numbering: equal languages are equal pointers.
var interned = map[string]*DFA{}

// minimize by partition refinement (Moore)
func (d *DFA) minimize() *DFA {
	n := len(d.acc)
	d.reps = nil
	clsOf, syms := d.classes()
	// restrict to reachable
	reach := make([]bool, n)
	st := []int32{0}
	reach[0] = true
	for len(st) > 0 {
		q := st[len(st)-1]
		st = st[:len(st)-1]
		for _, c := range syms {
			t := d.tr[q][c]
			if !reach[t] {
				reach[t] = true
				st = append(st, t)
			}
		}
	}
	cls := make([]int32, n)
	for i := range cls {
		if d.acc[i] {
			cls[i] = 1
		}
	}
	num := 0
	buf := make([]byte, 0, len(syms)*4+4)
	for {
		m := make(map[string]int32, num+1)
		next := make([]int32, n)
		for q := 0; q < n; q++ {
			if !reach[q] {
				continue
			}
			buf = buf[:0]
			put := func(v int32) { buf = append(buf, byte(v), byte(v>>8), byte(v>>16)) }
			put(cls[q])
			row := &d.tr[q]
			for _, c := range syms {
				put(cls[row[c]])
			}
			id, ok := m[string(buf)]
			if !ok {
				id = int32(len(m))
				m[string(buf)] = id
			}
			next[q] = id
		}
		cls = next
		if len(m) == num {
			break
		}
		num = len(m)
	}
	// renumber by BFS from the start for canonical form
	order := make(map[int32]int32, num)
	var reps []int32
	var acc []bool
	add := func(q int32) int32 {
		if id, ok := order[cls[q]]; ok {
			return id
		}
		id := int32(len(acc))
		acc = append(acc, d.acc[q])
		order[cls[q]] = id
		reps = append(reps, q)
		return id
	}
	// the order of symbols matters for the canonical form: representatives are the smallest symbols
	add(0)
	var rows [][]int32
	for i := 0; i < len(reps); i++ {
		row := make([]int32, len(syms))
		for k, c := range syms {
			row[k] = add(d.tr[reps[i]][c])
		}
		rows = append(rows, row)
	}
	key := make([]byte, 0, len(rows)*(len(syms)*3+1)+nSym)
	// symbol classes of the minimal automaton
	col := map[string]uint8{}
	var full [nSym]uint8
	var cb []byte
	symCls := make([]uint8, len(syms))
	for k := range syms {
		cb = cb[:0]
		for i := range rows {
			v := rows[i][k]
			cb = append(cb, byte(v), byte(v>>8), byte(v>>16))
		}
		id, ok := col[string(cb)]
		if !ok {
			id = uint8(len(col))
			col[string(cb)] = id
			key = append(key, cb...)
		}
		symCls[k] = id
	}
	for c := 0; c < nSym; c++ {
		full[c] = symCls[clsOf[c]]
	}
	key = append(key, full[:]...)
	for _, x := range acc {
		if x {
			key = append(key, 1)
		} else {
			key = append(key, 0)
		}
	}
	if r, ok := interned[string(key)]; ok {
		return r
	}
	r := newDFA()
	for i := range rows {
		r.addState(acc[i])
		row := &r.tr[i]
		for c := 0; c < nSym; c++ {
			row[c] = rows[i][clsOf[c]]
		}
	}
	interned[string(key)] = r
	return r
}

func product(a, b *DFA, f func(x, y bool) bool) *DFA {
	d := newDFA()
	ca, _ := a.classes()
	cb, _ := b.classes()
	var joint [nSym]uint16
	var reps []int
	jm := map[[2]uint8]uint16{}
	for c := 0; c < nSym; c++ {
		k := [2]uint8{ca[c], cb[c]}
		id, ok := jm[k]
		if !ok {
			id = uint16(len(reps))
			jm[k] = id
			reps = append(reps, c)
		}
		joint[c] = id
	}
	type pair struct{ x, y int32 }
	idx := map[pair]int32{}
	var work []pair
	get := func(p pair) int32 {
		if s, ok := idx[p]; ok {
			return s
		}
		s := d.addState(f(a.acc[p.x], b.acc[p.y]))
		idx[p] = s
		work = append(work, p)
		return s
	}
	get(pair{0, 0})
	tgt := make([]int32, len(reps))
	for i := 0; i < len(work); i++ {
		p := work[i]
		for k, c := range reps {
			tgt[k] = get(pair{a.tr[p.x][c], b.tr[p.y][c]})
		}
		row := &d.tr[i]
		for c := 0; c < nSym; c++ {
			row[c] = tgt[joint[c]]
		}
	}
	return d.minimize()
}

type dfaPair struct {
	op   byte
	a, b int
}

var productCache = map[dfaPair]*DFA{}

func cached(op byte, a, b *DFA, f func(x, y bool) bool) *DFA {
	k := dfaPair{op, a.id, b.id}
	if r, ok := productCache[k]; ok {
		return r
	}
	r := product(a, b, f)
	productCache[k] = r
	return r
}

func (a *DFA) And(b *DFA) *DFA {
	if a == b {
		return a
	}
	return cached('&', a, b, func(x, y bool) bool { return x && y })
}
func (a *DFA) Or(b *DFA) *DFA    { return cached('|', a, b, func(x, y bool) bool { return x || y }) }
func (a *DFA) Minus(b *DFA) *DFA { return cached('-', a, b, func(x, y bool) bool { return x && !y }) }

func (d *DFA) liveStates() []bool {
	if d.live != nil {
		return d.live
	}
	n := len(d.acc)
	live := make([]bool, n)
	for i := range live {
		live[i] = d.acc[i]
	}
	_, reps := d.classes()
	for changed := true; changed; {
		changed = false
		for q := n - 1; q >= 0; q-- {
			if live[q] {
				continue
			}
			for _, c := range reps {
				if live[d.tr[q][c]] {
					live[q] = true
					changed = true
					break
				}
			}
		}
	}
	d.live = live
	return live
}

func (d *DFA) Empty() bool { return !d.liveStates()[0] }

func (d *DFA) Accepts(s string) bool {
	q := int32(0)
	for _, r := range s {
		q = d.tr[q][runeSym(r)]
	}
	return d.acc[q]
}

// Witness returns a shortest member (preferring readable characters).
func (d *DFA) Witness() (string, bool) {
	if d.Empty() {
		return "", false
	}
	type node struct {
		prev int
		sym  int
		q    int32
	}
	pref := make([]int, 0, nSym)
	for _, c := range "0123456789-/XY.,STZE?~%[]{}: springwuml+" {
		pref = append(pref, int(c))
	}
	for s := 33; s < 127; s++ {
		pref = append(pref, s)
	}
	for s := 0; s < nSym; s++ {
		pref = append(pref, s)
	}
	seen := map[int32]bool{0: true}
	q := []node{{-1, -1, 0}}
	for i := 0; i < len(q); i++ {
		if d.acc[q[i].q] {
			var rs []rune
			for j := i; q[j].prev >= 0; j = q[j].prev {
				rs = append(rs, symRune(q[j].sym))
			}
			for l, r := 0, len(rs)-1; l < r; l, r = l+1, r-1 {
				rs[l], rs[r] = rs[r], rs[l]
			}
			return string(rs), true
		}
		for _, c := range pref {
			t := d.tr[q[i].q][c]
			if !seen[t] && d.liveStates()[t] {
				seen[t] = true
				q = append(q, node{i, c, t})
			}
		}
	}
	return "", false
}

// Finite reports whether the language is finite.
func (d *DFA) Finite() bool {
	if d.finite != 0 {
		return d.finite == 1
	}
	live := d.liveStates()
	color := make([]int8, len(d.acc))
	var cyc func(q int32) bool
	cyc = func(q int32) bool {
		color[q] = 1
		for c := 0; c < nSym; c++ {
			t := d.tr[q][c]
			if !live[t] {
				continue
			}
			if color[t] == 1 || color[t] == 0 && cyc(t) {
				return true
			}
		}
		color[q] = 2
		return false
	}
	if live[0] && cyc(0) {
		d.finite = 2
		return false
	}
	d.finite = 1
	return true
}

// Boxes enumerates a finite language as disjoint sequences of charsets; nil, false beyond the limit.
func (d *DFA) Boxes(limit int) ([][]Charset, bool) {
	if !d.Finite() {
		return nil, false
	}
	live := d.liveStates()
	var out [][]Charset
	over := false
	var rec func(q int32, pre []Charset)
	rec = func(q int32, pre []Charset) {
		if over {
			return
		}
		if d.acc[q] {
			out = append(out, append([]Charset(nil), pre...))
			if len(out) > limit {
				over = true
				return
			}
		}
		for _, e := range d.edges(q) {
			if live[e.to] {
				rec(e.to, append(pre, e.cs))
			}
		}
	}
	if live[0] {
		rec(0, nil)
	}
	return out, !over
}

type dedge struct {
	cs Charset
	to int32
}

func (d *DFA) edges(q int32) []dedge {
	var out []dedge
	pos := map[int32]int{}
	for c := 0; c < nSym; c++ {
		t := d.tr[q][c]
		i, ok := pos[t]
		if !ok {
			i = len(out)
			pos[t] = i
			out = append(out, dedge{to: t})
		}
		out[i].cs.add(c)
	}
	return out
}

func (d *DFA) LenBounds() (lo, hi int) { // in runes; hi = -1 when unbounded
	// shortest
	live := d.liveStates()
	if !live[0] {
		return 0, 0
	}
	dist := map[int32]int{0: 0}
	q := []int32{0}
	lo = -1
	for i := 0; i < len(q); i++ {
		if d.acc[q[i]] && lo < 0 {
			lo = dist[q[i]]
			break
		}
		for _, e := range d.edges(q[i]) {
			if _, ok := dist[e.to]; !ok && live[e.to] {
				dist[e.to] = dist[q[i]] + 1
				q = append(q, e.to)
			}
		}
	}
	if !d.Finite() {
		return lo, -1
	}
	memo := map[int32]int{}
	var longest func(x int32) int
	longest = func(x int32) int {
		if v, ok := memo[x]; ok {
			return v
		}
		best := -1 << 20
		if d.acc[x] {
			best = 0
		}
		for _, e := range d.edges(x) {
			if live[e.to] {
				if l := longest(e.to) + 1; l > best {
					best = l
				}
			}
		}
		memo[x] = best
		return best
	}
	return lo, longest(0)
}

// Used returns the symbols occurring in some member.
func (d *DFA) Used() Charset {
	live := d.liveStates()
	var u Charset
	// reachable by construction after minimize
	for q := range d.acc {
		if !live[q] {
			continue
		}
		for c := 0; c < nSym; c++ {
			if live[d.tr[q][c]] {
				u.add(c)
			}
		}
	}
	return u
}

// ---------- nondeterministic construction helpers ----------

type nfa struct {
	eps [][]int
	mv  [][]nedge
	acc []bool
}
type nedge struct {
	cs Charset
	to int
}

func (n *nfa) add() int {
	n.eps = append(n.eps, nil)
	n.mv = append(n.mv, nil)
	n.acc = append(n.acc, false)
	return len(n.acc) - 1
}

func (n *nfa) determinize(start []int) *DFA {
	d := newDFA()
	cl := func(in []int) []int {
		seen := map[int]bool{}
		st := append([]int(nil), in...)
		for len(st) > 0 {
			q := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[q] {
				continue
			}
			seen[q] = true
			st = append(st, n.eps[q]...)
		}
		out := make([]int, 0, len(seen))
		for q := range seen {
			out = append(out, q)
		}
		sort.Ints(out)
		return out
	}
	idx := map[string]int32{}
	var work [][]int
	get := func(s []int) int32 {
		k := fmt.Sprint(s)
		if id, ok := idx[k]; ok {
			return id
		}
		acc := false
		for _, q := range s {
			if n.acc[q] {
				acc = true
			}
		}
		id := d.addState(acc)
		idx[k] = id
		work = append(work, s)
		if len(work) > 20000 {
			giveUp("automaton too large")
		}
		return id
	}
	get(cl(start))
	for i := 0; i < len(work); i++ {
		s := work[i]
		// partition the symbols by the edges that carry them
		var groups []Charset
		groups = append(groups, csAll)
		for _, q := range s {
			for _, e := range n.mv[q] {
				var ng []Charset
				for _, g := range groups {
					x, y := g.and(e.cs), g.minus(e.cs)
					if !x.empty() {
						ng = append(ng, x)
					}
					if !y.empty() {
						ng = append(ng, y)
					}
				}
				groups = ng
			}
		}
		for _, g := range groups {
			f := g.first()
			var tg []int
			for _, q := range s {
				for _, e := range n.mv[q] {
					if e.cs.has(f) {
						tg = append(tg, e.to)
					}
				}
			}
			id := get(cl(tg))
			g.each(func(c int) { d.tr[i][c] = id })
		}
	}
	return d.minimize()
}

func (n *nfa) embed(d *DFA) int { // returns offset of state 0
	off := len(n.acc)
	live := d.liveStates()
	for range d.acc {
		n.add()
	}
	for q := range d.acc {
		n.acc[off+q] = d.acc[q]
		if !live[q] {
			continue
		}
		for _, e := range d.edges(int32(q)) {
			if live[e.to] {
				n.mv[off+q] = append(n.mv[off+q], nedge{e.cs, off + int(e.to)})
			}
		}
	}
	return off
}

var concatCache = map[string]*DFA{}

func concatDFA(parts ...*DFA) *DFA {
	if len(parts) == 1 {
		return parts[0]
	}
	k := make([]byte, 0, 4*len(parts))
	for _, p := range parts {
		k = append(k, byte(p.id), byte(p.id>>8), byte(p.id>>16), byte(p.id>>24))
	}
	if d, ok := concatCache[string(k)]; ok {
		return d
	}
	d := concatDFA1(parts...)
	concatCache[string(k)] = d
	return d
}

func concatDFA1(parts ...*DFA) *DFA {
	n := &nfa{}
	var prevAcc []int
	start := -1
	for _, p := range parts {
		off := n.embed(p)
		if start < 0 {
			start = off
		}
		for _, a := range prevAcc {
			n.eps[a] = append(n.eps[a], off)
		}
		prevAcc = nil
		for q := range p.acc {
			if p.acc[q] {
				n.acc[off+q] = false
				prevAcc = append(prevAcc, off+q)
			}
		}
	}
	for _, a := range prevAcc {
		n.acc[a] = true
	}
	if start < 0 {
		return dfaLit("")
	}
	return n.determinize([]int{start})
}

func dfaLit(s string) *DFA {
	var cs []Charset
	for _, r := range s {
		var c Charset
		c.add(runeSym(r))
		cs = append(cs, c)
	}
	return dfaBox(cs)
}

var boxCache = map[string]*DFA{}

func dfaBox(cs []Charset) *DFA {
	var k strings.Builder
	for _, c := range cs {
		for _, w := range c {
			for i := 0; i < 8; i++ {
				k.WriteByte(byte(w >> (8 * uint(i))))
			}
		}
	}
	if d, ok := boxCache[k.String()]; ok {
		return d
	}
	d := newBox(cs).minimize()
	boxCache[k.String()] = d
	return d
}

func newBox(cs []Charset) *DFA {
	d := newDFA()
	for i := 0; i <= len(cs); i++ {
		d.addState(i == len(cs))
	}
	dead := d.addState(false)
	for i := 0; i <= len(cs); i++ {
		for c := 0; c < nSym; c++ {
			if i < len(cs) && cs[i].has(c) {
				d.tr[i][c] = int32(i + 1)
			} else {
				d.tr[i][c] = dead
			}
		}
	}
	for c := 0; c < nSym; c++ {
		d.tr[dead][c] = dead
	}
	return d
}

func dfaStar(cs Charset) *DFA {
	d := newDFA()
	d.addState(true)
	d.addState(false)
	for c := 0; c < nSym; c++ {
		d.tr[1][c] = 1
		if !cs.has(c) {
			d.tr[0][c] = 1
		}
	}
	return d.minimize()
}

var dfaAny = dfaStar(csAll)
var dfaNone = func() *DFA {
	d := newDFA()
	d.addState(false)
	return d.minimize()
}()

func dfaEqual(a, b *DFA) (bool, string) {
	if x := a.Minus(b); !x.Empty() {
		w, _ := x.Witness()
		return false, w
	}
	if x := b.Minus(a); !x.Empty() {
		w, _ := x.Witness()
		return false, w
	}
	return true, ""
}

// regexDFA: language of a pattern of our own.
func patDFA(pat string) *DFA { return compileRegex(`\A(?:` + pat + `)\z`).DFA() }

// splitWords: automaton tracking non-overlapping leftmost occurrences of an ASCII separator.
// Returns, for k = 0..max, the sublanguage of L with exactly k separators (k=max means "max or more"
// when more is true) and the languages of the pieces.
type splitResult struct {
	K      int // number of separators
	Lang   *DFA
	Pieces []*DFA
}

// splitLang computes the split of language L by sep for exactly k separators (k = 0..maxK), and a
// summary for more than maxK: any piece language.
func splitLang(L *DFA, sep string, maxK int) (exact []splitResult, more *splitResult) {
	k := splitKey{L.id, sep, maxK}
	if r, ok := splitCache[k]; ok {
		return r.exact, r.more
	}
	exact, more = splitLang1(L, sep, maxK)
	splitCache[k] = splitVal{exact, more}
	return
}

type splitKey struct {
	id  int
	sep string
	max int
}
type splitVal struct {
	exact []splitResult
	more  *splitResult
}

var splitCache = map[splitKey]splitVal{}

func splitLang1(L *DFA, sep string, maxK int) (exact []splitResult, more *splitResult) {
	m := len(sep)
	// KMP transition: state j = matched prefix length of sep
	next := func(j int, c int) (int, bool) {
		for {
			if j < m && c < 128 && byte(c) == sep[j] {
				j++
				if j == m {
					return 0, true
				}
				return j, false
			}
			if j == 0 {
				return 0, false
			}
			// failure function of prefix j
			f := 0
			for l := j - 1; l > 0; l-- {
				if sep[:l] == sep[j-l:j] {
					f = l
					break
				}
			}
			j = f
		}
	}
	countDFA := func(k int, orMore bool) *DFA {
		d := newDFA()
		id := func(cnt, j int) int32 { return int32(cnt*m + j) }
		for cnt := 0; cnt <= k+1; cnt++ {
			for j := 0; j < m; j++ {
				acc := cnt == k
				if orMore {
					acc = cnt >= k
				}
				d.addState(acc)
			}
		}
		for cnt := 0; cnt <= k+1; cnt++ {
			for j := 0; j < m; j++ {
				for c := 0; c < nSym; c++ {
					nj, hit := next(j, c)
					nc := cnt
					if hit && nc <= k {
						nc++
					}
					d.tr[id(cnt, j)][c] = id(nc, nj)
				}
			}
		}
		return d.minimize()
	}
	noSep := countDFA(0, false)
	sepD := dfaLit(sep)
	for k := 0; k <= maxK; k++ {
		lk := L.And(countDFA(k, false))
		if lk.Empty() {
			continue
		}
		r := splitResult{K: k, Lang: lk}
		if k == 0 {
			r.Pieces = []*DFA{lk}
		} else {
			for i := 0; i <= k; i++ {
				// { w | exists p, s: p w s in lk, p in (noSep sep)^i, s in (sep noSep)^(k-i), w noSep }
				var pre, post []*DFA
				for x := 0; x < i; x++ {
					pre = append(pre, noSep, sepD)
				}
				for x := i; x < k; x++ {
					post = append(post, sepD, noSep)
				}
				r.Pieces = append(r.Pieces, infix(lk, concat0(pre), noSep, concat0(post)))
			}
		}
		exact = append(exact, r)
	}
	lm := L.And(countDFA(maxK+1, true))
	if !lm.Empty() {
		// any piece: prefix in (anything sep)? and suffix in (sep anything)?
		opt := func(d *DFA) *DFA { return d.Or(dfaLit("")) }
		piece := infix(lm, opt(concatDFA(dfaAny, sepD)), noSep, opt(concatDFA(sepD, dfaAny)))
		more = &splitResult{K: maxK + 1, Lang: lm, Pieces: []*DFA{piece}}
	}
	return
}

func concat0(parts []*DFA) *DFA {
	if len(parts) == 0 {
		return dfaLit("")
	}
	return concatDFA(parts...)
}

// infix computes { w in W | exists p in P, s in S : p w s in L }.
func infix(L, P, W, S *DFA) *DFA {
	k := [4]int{L.id, P.id, W.id, S.id}
	if d, ok := infixCache[k]; ok {
		return d
	}
	d := infix1(L, P, W, S)
	infixCache[k] = d
	return d
}

var infixCache = map[[4]int]*DFA{}

// jointReps: one symbol for every class of symbols that neither automaton tells apart.
func jointReps(a, b *DFA) []int {
	ca, _ := a.classes()
	cb, _ := b.classes()
	seen := map[[2]uint8]bool{}
	var out []int
	for c := 0; c < nSym; c++ {
		k := [2]uint8{ca[c], cb[c]}
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

func infix1(L, P, W, S *DFA) *DFA {
	lp, ls := jointReps(L, P), jointReps(L, S)
	// states of L reachable by some p in P
	type pr struct{ a, b int32 }
	seen := map[pr]bool{{0, 0}: true}
	st := []pr{{0, 0}}
	starts := map[int32]bool{}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if P.acc[x.b] {
			starts[x.a] = true
		}
		for _, c := range lp {
			y := pr{L.tr[x.a][c], P.tr[x.b][c]}
			if !seen[y] && L.liveStates()[y.a] && P.liveStates()[y.b] {
				seen[y] = true
				st = append(st, y)
			}
		}
	}
	// states of L from which some s in S is accepted
	ends := map[int32]bool{}
	for q := range L.acc {
		if !L.liveStates()[q] {
			continue
		}
		seen := map[pr]bool{{int32(q), 0}: true}
		st := []pr{{int32(q), 0}}
		for len(st) > 0 && !ends[int32(q)] {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if L.acc[x.a] && S.acc[x.b] {
				ends[int32(q)] = true
				break
			}
			for _, c := range ls {
				y := pr{L.tr[x.a][c], S.tr[x.b][c]}
				if !seen[y] && L.liveStates()[y.a] && S.liveStates()[y.b] {
					seen[y] = true
					st = append(st, y)
				}
			}
		}
	}
	n := &nfa{}
	off := n.embed(L)
	var ss []int
	for q := range L.acc {
		n.acc[off+q] = ends[int32(q)]
	}
	for q := range starts {
		ss = append(ss, off+int(q))
	}
	if len(ss) == 0 {
		return dfaNone
	}
	sort.Ints(ss)
	return n.determinize(ss).And(W)
}

// captureLang over-approximates the words that group g can capture when the expression matches a
// member of L (matching anywhere): exact up to the priority of alternatives. Also reports whether
// the group can stay unset.
func (r *RegexInfo) captureLang(L *DFA, g int) (lang *DFA, canUnset bool) {
	p := r.Prog
	// nodes: (L state, pc, phase) phase 0 = before group, 1 = inside, 2 = after
	type node struct {
		q     int32
		pc    int32 // -1: skipping before the match, -2: after the match
		phase int8
		ctx   int8
	}
	live := L.liveStates()
	if !live[0] {
		return dfaNone, false
	}
	n := &nfa{}
	id := map[node]int{}
	var list []node
	get := func(x node) int {
		if i, ok := id[x]; ok {
			return i
		}
		i := n.add()
		id[x] = i
		list = append(list, x)
		if len(list) > 400000 {
			giveUp("capture language of %q too large", r.Pattern)
		}
		return i
	}
	type edge struct {
		from, to int
		cs       Charset
		eps      bool
	}
	var edges []edge
	start := get(node{0, -1, 0, ctxBegin})
	var finals []int
	for i := 0; i < len(list); i++ {
		x := list[i]
		if x.pc == -2 {
			if L.acc[x.q] {
				finals = append(finals, i)
			}
			for _, e := range L.edges(x.q) {
				if live[e.to] {
					edges = append(edges, edge{i, get(node{e.to, -2, x.phase, 0}), e.cs, false})
				}
			}
			continue
		}
		if x.pc == -1 {
			edges = append(edges, edge{i, get(node{x.q, int32(p.Start), 0, x.ctx}), Charset{}, true})
			for _, e := range L.edges(x.q) {
				if live[e.to] {
					for ctx := ctxNL; ctx <= ctxOther; ctx++ {
						cs := ctxSet(ctx).and(e.cs)
						if !cs.empty() {
							edges = append(edges, edge{i, get(node{e.to, -1, 0, int8(ctx)}), cs, false})
						}
					}
				}
			}
			continue
		}
		in := &p.Inst[x.pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			edges = append(edges, edge{i, get(node{x.q, int32(in.Out), x.phase, x.ctx}), Charset{}, true})
			edges = append(edges, edge{i, get(node{x.q, int32(in.Arg), x.phase, x.ctx}), Charset{}, true})
		case syntax.InstNop:
			edges = append(edges, edge{i, get(node{x.q, int32(in.Out), x.phase, x.ctx}), Charset{}, true})
		case syntax.InstCapture:
			ph := x.phase
			if int(in.Arg) == 2*g {
				ph = 1 // a later iteration restarts the group
			}
			if int(in.Arg) == 2*g+1 {
				ph = 2
			}
			edges = append(edges, edge{i, get(node{x.q, int32(in.Out), ph, x.ctx}), Charset{}, true})
		case syntax.InstEmptyWidth:
			// over-approximate the following symbol: allow when some next symbol (or the end) satisfies it
			ok := false
			op := syntax.EmptyOp(in.Arg)
			if L.acc[x.q] && op&^gapFlags(int(x.ctx), -1) == 0 {
				ok = true
			}
			for c := 0; c < nSym && !ok; c++ {
				if live[L.tr[x.q][c]] && op&^gapFlags(int(x.ctx), c) == 0 {
					ok = true
				}
			}
			if ok {
				edges = append(edges, edge{i, get(node{x.q, int32(in.Out), x.phase, x.ctx}), Charset{}, true})
			}
		case syntax.InstMatch:
			edges = append(edges, edge{i, get(node{x.q, -2, x.phase, 0}), Charset{}, true})
		case syntax.InstFail:
		default:
			set := instSet(in)
			for _, e := range L.edges(x.q) {
				cs := e.cs.and(set)
				if cs.empty() || !live[e.to] {
					continue
				}
				for ctx := ctxNL; ctx <= ctxOther; ctx++ {
					c2 := ctxSet(ctx).and(cs)
					if !c2.empty() {
						edges = append(edges, edge{i, get(node{e.to, int32(in.Out), x.phase, int8(ctx)}), c2, false})
					}
				}
			}
		}
	}
	// co-reachability
	rev := make([][]int, len(list))
	for _, e := range edges {
		rev[e.to] = append(rev[e.to], e.from)
	}
	co := make([]bool, len(list))
	st := append([]int(nil), finals...)
	for _, f := range finals {
		co[f] = true
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, y := range rev[x] {
			if !co[y] {
				co[y] = true
				st = append(st, y)
			}
		}
	}
	for _, f := range finals {
		if list[f].phase == 0 && co[f] {
			canUnset = true
		}
	}
	_ = start
	// words: from transitions entering phase 1 (fresh) to transitions leaving into phase 2
	m := &nfa{}
	for range list {
		m.add()
	}
	fin := m.add()
	m.acc[fin] = true
	var starts []int
	for _, e := range edges {
		if !co[e.to] || !co[e.from] {
			continue
		}
		a, b := list[e.from], list[e.to]
		if e.eps && a.pc >= 0 && p.Inst[a.pc].Op == syntax.InstCapture && int(p.Inst[a.pc].Arg) == 2*g {
			starts = append(starts, e.to)
			continue
		}
		if a.phase == 1 && b.phase == 2 {
			m.eps[e.from] = append(m.eps[e.from], fin)
			continue
		}
		if a.phase == 1 && b.phase == 1 {
			if e.eps {
				m.eps[e.from] = append(m.eps[e.from], e.to)
			} else {
				m.mv[e.from] = append(m.mv[e.from], nedge{e.cs, e.to})
			}
		}
	}
	if len(starts) == 0 {
		return dfaNone, canUnset
	}
	return m.determinize(starts), canUnset
}

var ctxSets [4]Charset

func ctxSet(ctx int) Charset {
	if ctxSets[ctx].empty() {
		for s := 0; s < nSym; s++ {
			if symCtx(s) == ctx {
				ctxSets[ctx].add(s)
			}
		}
	}
	return ctxSets[ctx]
}

func utf8Len(s int) (lo, hi int) {
	if s < 128 {
		return 1, 1
	}
	if s == symOther {
		return 1, 4
	}
	l := utf8.RuneLen(symRune(s))
	return l, l
}
