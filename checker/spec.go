package main

// The reference semantics of EDTF strings, in the abstract domain: what a class of strings must
// resolve to.

import (
	"fmt"
	"strings"
)

// ---------- classes of strings ----------

// cell codes of a class text: '#' any digit, '@' 1-9, '!' 0-2, '^' 0-1; everything else is itself
func codeCS(b byte) (Charset, bool) {
	switch b {
	case '#':
		return csRange('0', '9'), true
	case '@':
		return csRange('1', '9'), true
	case '!':
		return csRange('0', '2'), true
	case '^':
		return csRange('0', '1'), true
	}
	return Charset{}, false
}

func buildStr(st *State, p string) Str {
	var s Str
	for i := 0; i < len(p); i++ {
		if cs, ok := codeCS(p[i]); ok {
			s.it = append(s.it, Item{k: iCell, s: st.newCell(cs, fmt.Sprintf("c%d", i))})
			continue
		}
		s.it = append(s.it, Item{k: iLit, b: p[i]})
	}
	return s
}

const (
	sDate = iota
	sOpen
	sUnknown
)

// comp is one component of a date side.
type comp struct {
	it   []Item
	q    byte // qualifier or 0
	left bool
}

// side is one date of a string.
type side struct {
	kind    int
	neg     bool
	y, m, d *comp
	text    Str
}

const quals = "?~%"

// parseSide reads the class text of a date ("-19XX-~0#", "..", "").
func parseSide(p string, it []Item) side {
	s := side{text: Str{it}}
	switch p {
	case "":
		s.kind = sUnknown
		return s
	case "..":
		s.kind = sOpen
		return s
	}
	i := 0
	take := func(n int) *comp {
		c := &comp{}
		if strings.IndexByte(quals, p[i]) >= 0 {
			c.q, c.left = p[i], true
			i++
		}
		if n == 4 && p[i] == '-' {
			s.neg = true
			i++
		}
		c.it = it[i : i+n]
		i += n
		if i < len(p) && strings.IndexByte(quals, p[i]) >= 0 {
			c.q = p[i]
			i++
		}
		return c
	}
	s.y = take(4)
	if i < len(p) {
		if p[i] != '-' {
			panic("class text " + p)
		}
		i++
		s.m = take(2)
	}
	if i < len(p) {
		if p[i] != '-' {
			panic("class text " + p)
		}
		i++
		s.d = take(2)
	}
	if i != len(p) {
		panic("class text " + p)
	}
	return s
}

// ---------- expected dates ----------

type ymdL struct{ y, m, d Lin }

// xdate is an expected bound.
type xdate struct {
	open, unknown bool
	anyDate       bool   // the instant and the day may be any
	t             *TimeV // nil: no instant
	ymd           *ymdL
	unc, app      int64
	prec          int64
	incl          int64
}

type xrange struct {
	lo, hi xdate
	text   *Str
}

// xres is the expected outcome in one state.
type xres struct {
	st         *State
	err        string // "" success; "any" any error; otherwise the kind of error
	care       bool   // false: no expectation
	known      string // known finding that lets the outcome be an error
	start, end xrange
	level      int64
	feature    string
	twoDates   bool // an explicit interval of two dates
}

const (
	fALL     = 2
	fANY     = 4
	fDAY     = 8
	fMONTH   = 32
	fYEAR    = 64
	fDECADE  = 128
	fCENTURY = 256
	fMILLEN  = 512
)

// bounds of a date side
type sideWorld struct {
	st               *State
	err              string
	nocare           bool
	known            string
	lo, hi           ymdL
	unc, app, prec   int64
	loExist, hiExist bool
}

func isX(it Item) bool { return it.k == iLit && it.b == 'X' }

func digitsLin(st *State, it []Item) (Lin, bool) {
	var l Lin
	for _, x := range it {
		l = l.scale(10)
		switch x.k {
		case iLit:
			if x.b < '0' || x.b > '9' {
				return Lin{}, false
			}
			l = l.plusC(int64(x.b - '0'))
		case iCell:
			l = l.plus(linS(x.s))
		}
	}
	return l, true
}

func compText(c *comp) string {
	var sb strings.Builder
	for _, x := range c.it {
		if x.k == iLit {
			sb.WriteByte(x.b)
		} else {
			sb.WriteByte('#')
		}
	}
	return sb.String()
}

func (s side) flags() (unc, app int64) {
	add := func(q byte, f int64) {
		if q == '?' || q == '%' {
			unc |= f
		}
		if q == '~' || q == '%' {
			app |= f
		}
	}
	if s.y != nil {
		add(s.y.q, fYEAR)
	}
	if s.m != nil {
		if s.m.left {
			add(s.m.q, fMONTH)
		} else {
			add(s.m.q, fYEAR|fMONTH)
		}
	}
	if s.d != nil {
		if s.d.left {
			add(s.d.q, fDAY)
		} else {
			add(s.d.q, fYEAR|fMONTH|fDAY)
		}
	}
	return
}

// resolve gives the earliest and latest day a date side stands for.
func (st *State) resolve(s side) []sideWorld {
	base := sideWorld{st: st}
	base.unc, base.app = s.flags()
	nocare := []sideWorld{{st: st, nocare: true}}
	// year
	yt := compText(s.y)
	nx := 0
	for i := 3; i >= 0 && yt[i] == 'X'; i-- {
		nx++
	}
	if nx == 4 || strings.Contains(yt[:4-nx], "X") {
		return nocare
	}
	pre, _ := digitsLin(st, s.y.it[:4-nx])
	p := pow10(nx)
	ylo, yhi := pre.scale(p), pre.scale(p).plusC(p-1)
	if s.neg {
		ylo, yhi = yhi.scale(-1), ylo.scale(-1)
	}
	prec := int64(fYEAR)
	switch nx {
	case 1:
		prec = fDECADE
	case 2:
		prec = fCENTURY
	case 3:
		prec = fMILLEN
	}
	type mw struct {
		st     *State
		lo, hi int64
		err    bool
	}
	var ms []mw
	anyX := nx > 0
	mt := ""
	if s.m != nil {
		mt = compText(s.m)
	}
	switch {
	case s.m == nil:
		ms = []mw{{st, 1, 12, false}}
	case mt == "XX":
		ms = []mw{{st, 1, 12, false}}
		anyX = true
	case mt == "0X":
		ms = []mw{{st, 1, 9, false}}
		prec = fMONTH
		anyX = true
	case mt == "1X":
		ms = []mw{{st, 10, 12, false}}
		prec = fMONTH
		anyX = true
	case strings.Contains(mt, "X"):
		return nocare
	default:
		l, _ := digitsLin(st, s.m.it)
		ws, ok := st.splitValues(l, 100)
		if !ok {
			panic("month")
		}
		for _, w := range ws {
			v := w.norm(l).c
			ms = append(ms, mw{w, v, v, v < 1 || v > 12})
		}
	}
	dt := ""
	if s.d != nil {
		dt = compText(s.d)
		if dt == "XX" && mt == "XX" {
			prec = fYEAR
		} else if dt == "XX" {
			prec = fMONTH
		}
	}
	var out []sideWorld
	for _, m := range ms {
		w := base
		w.st = m.st
		w.prec = prec
		if m.err {
			w.err = "any"
			out = append(out, w)
			continue
		}
		w.lo, w.hi = ymdL{ylo, linC(m.lo), linC(1)}, ymdL{yhi, linC(m.hi), linC(1)}
		last := func(w sideWorld) []sideWorld { // the day of hi is the last of its month
			var o []sideWorld
			for _, x := range w.st.dim(w.hi.y, m.hi) {
				n := w
				n.st, n.hi.d = x.st, x.l
				o = append(o, n)
			}
			return o
		}
		// checkDay: the day exists in the month
		checkDay := func(w sideWorld, hi bool) []sideWorld {
			b := w.lo
			mm := m.lo
			if hi {
				b, mm = w.hi, m.hi
			}
			var o []sideWorld
			for _, z := range w.st.forkCmp(b.d.plusC(-1), opLT) {
				if z.b {
					n := w
					n.st, n.err = z.st, "any"
					o = append(o, n)
					continue
				}
				dims := []linWorld{{z.st, linC(31)}}
				if z.st.decide(b.d.plusC(-28), opLE) != 1 {
					dims = z.st.dim(b.y, mm)
				}
				for _, x := range dims {
					for _, c := range x.st.forkCmp(b.d.minus(x.l), opGT) {
						n := w
						n.st = c.st
						if c.b {
							n.err = "any"
						}
						o = append(o, n)
					}
				}
			}
			return o
		}
		var ws []sideWorld
		switch {
		case s.d == nil || dt == "XX":
			ws = last(w)
		case dt == "0X":
			w.hi.d = linC(9)
			ws = []sideWorld{w}
		case dt == "1X":
			w.lo.d, w.hi.d = linC(10), linC(19)
			ws = []sideWorld{w}
		case dt == "2X":
			w.lo.d, w.hi.d = linC(20), linC(29)
			ws = []sideWorld{w}
			if m.hi == 2 {
				ws = last(w)
			}
		case dt == "3X":
			w.lo.d = linC(30)
			for _, x := range last(w) {
				ws = append(ws, checkDay(x, false)...)
			}
		case strings.Contains(dt, "X"):
			out = append(out, sideWorld{st: m.st, nocare: true})
			continue
		default:
			l, _ := digitsLin(m.st, s.d.it)
			w.lo.d, w.hi.d = l, l
			for _, x := range checkDay(w, false) {
				if x.err != "" {
					ws = append(ws, x)
					continue
				}
				ws = append(ws, checkDay(x, true)...)
			}
			// with unspecified digits, some other filling may still exist
			if anyX {
				ws = s.idealise(ws, m.lo, m.hi, nx, l)
			}
		}
		out = append(out, ws...)
	}
	return out
}

// idealise treats the bounds that do not exist although another filling does.
func (s side) idealise(ws []sideWorld, mlo, mhi int64, nx int, d Lin) []sideWorld {
	var out []sideWorld
	for _, w := range ws {
		if w.err == "" {
			out = append(out, w)
			continue
		}
		vs, ok := w.st.splitValues(d, 100)
		if !ok {
			panic("day")
		}
		for _, v := range vs {
			n := w
			n.st = v
			day := v.norm(d).c
			exists := false
			for m := mlo; m <= mhi; m++ {
				if day >= 1 && (day <= monthLen(1, m) || m == 2 && day == 29 && nx > 0) {
					exists = true
				}
			}
			if exists && mlo == mhi && mlo == 2 {
				n.known = "year-x-feb-29"
			} else if exists {
				n.known = "month-x-day"
			}
			out = append(out, n)
		}
	}
	return out
}

func instant(d ymdL, sod int64) *TimeV {
	return &TimeV{y: d.y, m: d.m, d: d.d, sod: linC(sod), zone: "UTC"}
}

const endOfDay = 86399

func (w sideWorld) date(d ymdL, sod int64) xdate {
	return xdate{t: instant(d, sod), ymd: &d, unc: w.unc, app: w.app, prec: w.prec}
}

// single: the expected result of one date on its own.
func (w sideWorld) single(text *Str) []xres {
	if w.nocare {
		return []xres{{st: w.st}}
	}
	if w.err != "" {
		return []xres{{st: w.st, care: true, err: w.err, known: w.known}}
	}
	var out []xres
	same := []boolWorld{{w.st, false}}
	for _, p := range [][2]Lin{{w.lo.y, w.hi.y}, {w.lo.m, w.hi.m}, {w.lo.d, w.hi.d}} {
		var nx []boolWorld
		for _, s := range same {
			if s.b {
				nx = append(nx, s)
				continue
			}
			nx = append(nx, s.st.forkCmp(p[0].minus(p[1]), opNE)...)
		}
		same = nx
	}
	for _, s := range same {
		r := xres{st: s.st, care: true}
		r.start.text, r.end.text = text, text
		if s.b { // the bounds are different days
			r.start.lo, r.start.hi = w.date(w.lo, 0), w.date(w.lo, endOfDay)
			r.end.lo, r.end.hi = w.date(w.hi, 0), w.date(w.hi, endOfDay)
		} else {
			r.start.lo, r.start.hi = w.date(w.lo, 0), w.date(w.lo, 0)
			r.end.lo, r.end.hi = w.date(w.hi, endOfDay), w.date(w.hi, endOfDay)
		}
		out = append(out, r)
	}
	return out
}

// both: the range that covers the side, as one end of an interval.
func (w sideWorld) both(text *Str) xrange {
	return xrange{lo: w.date(w.lo, 0), hi: w.date(w.hi, endOfDay), text: text}
}

func markRange(k int, text *Str) xrange {
	d := xdate{open: k == sOpen, unknown: k == sUnknown}
	return xrange{lo: d, hi: d, text: text}
}

// interval: the expected result of left/right.
func (st *State) interval(l, r side) []xres {
	var out []xres
	end := func(st *State, s side) []sideWorld {
		if s.kind != sDate {
			return []sideWorld{{st: st}}
		}
		return st.resolve(s)
	}
	rng := func(w sideWorld, s side) xrange {
		t := s.text
		if s.kind != sDate {
			return markRange(s.kind, &t)
		}
		return w.both(&t)
	}
	for _, lw := range end(st, l) {
		for _, rw := range end(lw.st.clone(), r) {
			x := xres{st: rw.st, care: true, twoDates: l.kind == sDate && r.kind == sDate}
			switch {
			case lw.nocare || rw.nocare:
				x.care = false
			case lw.err != "" && lw.known == "" || rw.err != "" && rw.known == "":
				x.err = "any"
			case lw.err != "":
				x.err, x.known = "any", lw.known
			case rw.err != "":
				x.err, x.known = "any", rw.known
			default:
				x.start, x.end = rng(lw, l), rng(rw, r)
			}
			out = append(out, x)
		}
	}
	return out
}
