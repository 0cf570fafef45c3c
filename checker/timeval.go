package main

// Instants: civil fields plus an offset, kept symbolic.

import (
	"fmt"
	"strings"
)

// TimeV is an abstract time.Time: the civil date and second of day in a zone of the given offset.
// The second of day need not be in 0..86399 and the day need not exist until normalised.
type TimeV struct {
	y, m, d Lin
	sod     Lin // seconds since the civil midnight
	ns      Lin
	off     Lin    // seconds east of UTC of the zone the fields are in
	zone    string // "UTC", "fixed", "local"
	opaque  bool   // nothing known
	id      SymID  // opaque: identity
}

func zeroTime() *TimeV {
	return &TimeV{y: linC(1), m: linC(1), d: linC(1), zone: "UTC"}
}

func (t *TimeV) show(st *State) string {
	if t.opaque {
		return "some instant"
	}
	s := func(l Lin) string { return describe(st, l) }
	return fmt.Sprintf("%s-%s-%s+%ss(off %s)", s(t.y), s(t.m), s(t.d), s(t.sod), s(t.off))
}

type FmtTag struct {
	t      *TimeV
	layout string
}

// BigV is an arbitrary precision float: mantissa times 10^exp, exactly.
type BigV struct {
	known bool
	lin   Lin  // exact integer value
	huge  int8 // sign of a value known to be at least bigLimit in magnitude
	frac  bool
	trunc *Lin // when not known: the value truncated toward zero
}

func isLeapYear(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthLen(y, m int64) int64 {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if isLeapYear(y) {
			return 29
		}
		return 28
	}
	return 31
}

type linWorld struct {
	st *State
	l  Lin
}

// leapFork splits on y being a leap year.
func (st *State) leapFork(y Lin) []boolWorld {
	y = st.norm(y)
	if y.isConst() {
		return []boolWorld{{st, isLeapYear(y.c)}}
	}
	var out []boolWorld
	o := st.clone()
	if st.assumeRes(y, resLeap) {
		out = append(out, boolWorld{st, true})
	}
	if o.assumeRes(y, resCommon) {
		out = append(out, boolWorld{o, false})
	}
	return out
}

// dim: days in month m (1..12, split) of year y.
func (st *State) dim(y Lin, m int64) []linWorld {
	if m != 2 {
		return []linWorld{{st, linC(monthLen(1, m))}}
	}
	var out []linWorld
	for _, w := range st.leapFork(y) {
		if w.b {
			out = append(out, linWorld{w.st, linC(29)})
		} else {
			out = append(out, linWorld{w.st, linC(28)})
		}
	}
	return out
}

type timeWorld struct {
	st *State
	t  *TimeV
}

// splitMonth makes the month a constant in 1..12, carrying into the year.
func (st *State) splitMonth(t *TimeV) []timeWorld {
	ws, ok := st.splitValues(t.m, 64)
	if !ok {
		giveUp("month is not bounded")
	}
	var out []timeWorld
	for _, w := range ws {
		m := w.norm(t.m).c
		n := *t
		k := floorDiv(m-1, 12)
		n.m = linC(m - 12*k)
		n.y = t.y.plusC(k)
		out = append(out, timeWorld{w, &n})
	}
	return out
}

// normDay makes the day exist in its month.
func (st *State) normDay(t *TimeV) []timeWorld {
	var out []timeWorld
	for _, w := range st.splitMonth(t) {
		out = append(out, w.st.normDay2(w.t, 0)...)
	}
	return out
}

func (st *State) normDay2(t *TimeV, depth int) []timeWorld {
	if depth > 40 {
		giveUp("day is too far out of range")
	}
	m := t.m.c
	// certainly valid without looking at the year?
	if st.decide(t.d.plusC(-1), opGE) == 1 && st.decide(t.d.plusC(-28), opLE) == 1 {
		return []timeWorld{{st, t}}
	}
	var out []timeWorld
	for _, w := range st.forkCmp(t.d.plusC(-1), opLT) {
		if w.b {
			// previous month
			pm, py := m-1, t.y
			if pm == 0 {
				pm, py = 12, t.y.plusC(-1)
			}
			for _, x := range w.st.dim(py, pm) {
				n := *t
				n.m, n.y, n.d = linC(pm), py, t.d.plus(x.l)
				out = append(out, x.st.normDay2(&n, depth+1)...)
			}
			continue
		}
		if w.st.decide(t.d.plusC(-28), opLE) == 1 {
			out = append(out, timeWorld{w.st, t})
			continue
		}
		for _, x := range w.st.dim(t.y, m) {
			for _, z := range x.st.forkCmp(t.d.minus(x.l), opLE) {
				if z.b {
					out = append(out, timeWorld{z.st, t})
					continue
				}
				n := *t
				n.d = t.d.minus(x.l)
				n.m = linC(m + 1)
				if m == 12 {
					n.m, n.y = linC(1), t.y.plusC(1)
				}
				out = append(out, z.st.normDay2(&n, depth+1)...)
			}
		}
	}
	return out
}

// normSod brings the second of day into 0..86399 and the day into its month.
func (st *State) normSod(t *TimeV) []timeWorld {
	if t.opaque {
		return []timeWorld{{st, t}}
	}
	var out []timeWorld
	for _, w := range st.forkCmp(t.sod, opLT) {
		if w.b {
			n := *t
			n.sod, n.d = t.sod.plusC(86400), t.d.plusC(-1)
			if lo, _ := w.st.bounds(n.sod); lo < -40*86400 {
				giveUp("time of day is too far out of range")
			}
			out = append(out, w.st.normSod(&n)...)
			continue
		}
		for _, x := range w.st.forkCmp(t.sod.plusC(-86400), opGE) {
			if x.b {
				n := *t
				n.sod, n.d = t.sod.plusC(-86400), t.d.plusC(1)
				if _, hi := x.st.bounds(n.sod); hi > 40*86400 {
					giveUp("time of day is too far out of range")
				}
				out = append(out, x.st.normSod(&n)...)
				continue
			}
			out = append(out, x.st.normDay(t)...)
		}
	}
	return out
}

// toUTC rewrites the fields to offset zero (without normalising).
func (t *TimeV) toUTC() *TimeV {
	if t.opaque {
		return t
	}
	n := *t
	n.sod = t.sod.minus(t.off)
	n.off = Lin{}
	n.zone = "UTC"
	return &n
}

// utc gives the normalised UTC fields.
func (st *State) utc(t *TimeV) []timeWorld { return st.normSod(t.toUTC()) }

// cmpTime compares two instants.
func (st *State) cmpTime(a, b *TimeV) []cmpWorld {
	if a == b {
		return []cmpWorld{{st, 0}}
	}
	if a.opaque || b.opaque {
		if a.opaque && b.opaque && a.id == b.id {
			return []cmpWorld{{st, 0}}
		}
		x, y := st.clone(), st.clone()
		return []cmpWorld{{x, -1}, {y, 0}, {st, 1}}
	}
	if st.sameInstant(a, b) {
		return []cmpWorld{{st, 0}}
	}
	var out []cmpWorld
	for _, wa := range st.utc(a) {
		for _, wb := range wa.st.utc(b) {
			out = append(out, wb.st.lexCmp([]Lin{wa.t.y, wa.t.m, wa.t.d, wa.t.sod, wa.t.ns}, []Lin{wb.t.y, wb.t.m, wb.t.d, wb.t.sod, wb.t.ns})...)
		}
	}
	return out
}

func (st *State) lexCmp(a, b []Lin) []cmpWorld {
	if len(a) == 0 {
		return []cmpWorld{{st, 0}}
	}
	var out []cmpWorld
	for _, w := range st.fork3(a[0].minus(b[0])) {
		if w.c != 0 {
			out = append(out, w)
			continue
		}
		out = append(out, w.st.lexCmp(a[1:], b[1:])...)
	}
	return out
}

// sameInstant: certain equality by the fields, without case splits.
func (st *State) sameInstant(a, b *TimeV) bool {
	if a == b {
		return true
	}
	if a.opaque || b.opaque {
		return a.opaque && b.opaque && a.id == b.id
	}
	return st.eqLin(a.y, b.y) && st.eqLin(a.m, b.m) && st.eqLin(a.d, b.d) &&
		st.eqLin(a.sod.minus(a.off), b.sod.minus(b.off)) && st.eqLin(a.ns, b.ns)
}

// mustEqual decides certain equality of two instants, splitting cases where needed; it returns a
// state in which they differ, or nil.
func (st *State) differTime(a, b *TimeV) *State {
	if st.sameInstant(a, b) {
		return nil
	}
	for _, w := range st.clone().cmpTime(a, b) {
		if w.c != 0 && w.st.feasible() {
			return w.st
		}
	}
	return nil
}

func daysCivil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := floorDiv(y, 400)
	yoe := y - era*400
	mm := m + 9
	if m > 2 {
		mm = m - 3
	}
	doy := (153*mm+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func civilFromDays(z int64) (y, m, d int64) {
	z += 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

// unixOf: the Unix seconds of an instant, as a number or as a symbol that remembers the instant.
func (st *State) unixOf(t *TimeV) Lin {
	if t.opaque {
		name := "unix"
		if t.zone == "Local!" {
			name = "local instant"
		}
		s := st.newInt(-inf/4, inf/4, name)
		n := *st.syms[s]
		n.tag = t
		st.syms[s] = &n
		return linS(s)
	}
	y, m, d, sod, off := st.norm(t.y), st.norm(t.m), st.norm(t.d), st.norm(t.sod), st.norm(t.off)
	if y.isConst() && m.isConst() && d.isConst() && sod.isConst() && off.isConst() {
		mm := m.c - 1
		yy := y.c + floorDiv(mm, 12)
		mm = mm - 12*floorDiv(mm, 12)
		return linC((daysCivil(yy, mm+1, 1)+d.c-1)*86400 + sod.c - off.c)
	}
	ylo, yhi := st.bounds(y)
	lo, hi := -inf/4, inf/4
	if ylo > -1000000 && yhi < 1000000 {
		lo, hi = daysCivil(ylo-10, 1, 1)*86400, daysCivil(yhi+10, 1, 1)*86400
	}
	s := st.newInt(lo, hi, "unix")
	n := *st.syms[s]
	n.tag = t
	st.syms[s] = &n
	return linS(s)
}

// timeOfUnix recovers the instant of a number of Unix seconds.
func (st *State) timeOfUnix(l Lin, zone string) *TimeV {
	l = st.norm(l)
	if l.isConst() {
		days := floorDiv(l.c, 86400)
		y, m, d := civilFromDays(days)
		return &TimeV{y: linC(y), m: linC(m), d: linC(d), sod: linC(l.c - days*86400), zone: zone}
	}
	if len(l.t) == 1 && l.t[0].k == 1 {
		if t, ok := st.syms[l.t[0].s].tag.(*TimeV); ok {
			if t.opaque && l.c == 0 {
				n := *t
				n.zone = zone
				return &n
			}
			if !t.opaque {
				n := *t.toUTC()
				n.sod = n.sod.plusC(l.c)
				n.ns = Lin{}
				n.zone = zone
				return &n
			}
		}
		if l.c == 0 {
			return &TimeV{opaque: true, id: l.t[0].s, zone: zone}
		}
	}
	return &TimeV{opaque: true, id: st.newInt(-inf, inf, "instant"), zone: zone}
}

// forkUnix compares two numbers that involve Unix seconds; ok is false when it cannot.
func (st *State) forkUnix(a, b Lin) ([]cmpWorld, bool) {
	a, b = st.norm(a), st.norm(b)
	isU := func(l Lin) *TimeV {
		if len(l.t) == 1 && l.t[0].k == 1 {
			if t, ok := st.syms[l.t[0].s].tag.(*TimeV); ok && !t.opaque {
				return st.timeOfUnix(l, "UTC")
			}
		}
		return nil
	}
	ta, tb := isU(a), isU(b)
	if ta == nil && tb == nil {
		return nil, false
	}
	if ta == nil {
		if !a.isConst() {
			return nil, false
		}
		ta = st.timeOfUnix(a, "UTC")
	}
	if tb == nil {
		if !b.isConst() {
			return nil, false
		}
		tb = st.timeOfUnix(b, "UTC")
	}
	return st.cmpTime(ta, tb), true
}

// ---------- parsing ----------

type layoutTok struct {
	lit string
	std string
}

var stdToks = []string{"2006", "January", "Jan", "Monday", "Mon", "MST", "Z07:00:00", "Z070000", "Z07:00", "Z0700", "Z07",
	"-07:00:00", "-070000", "-07:00", "-0700", "-07", "01", "02", "03", "04", "05", "06", "002", "15", "PM", "pm", "_2006", "__2", "_2", "1", "2", "3", "4", "5"}

func layoutToks(layout string) []layoutTok {
	var out []layoutTok
	cur := ""
	for i := 0; i < len(layout); {
		found := ""
		for _, s := range stdToks {
			if strings.HasPrefix(layout[i:], s) {
				if s == "Jan" && strings.HasPrefix(layout[i:], "January") {
					continue
				}
				if len(s) > len(found) {
					found = s
				}
			}
		}
		if found == "_2006" {
			cur += "_"
			i++
			continue
		}
		if (layout[i] == '.' || layout[i] == ',') && i+1 < len(layout) && (layout[i+1] == '0' || layout[i+1] == '9') {
			giveUp("time layout %q", layout)
		}
		if found == "" {
			cur += layout[i : i+1]
			i++
			continue
		}
		out = append(out, layoutTok{lit: cur, std: found})
		cur = ""
		i += len(found)
	}
	return append(out, layoutTok{lit: cur})
}

type parseWorld struct {
	st  *State
	t   *TimeV
	err string
}

type tparse struct {
	y, mo, d, h, mi, s, off Lin
	hasMo, hasD, hasOff     bool
	z                       bool
}

// parseTime models time.Parse.
func (st *State) parseTime(layout string, s Str) []parseWorld {
	toks := layoutToks(layout)
	var out []parseWorld
	for _, w := range st.expand(s) {
		it := w.flatten(s.it)
		if hasOpq(it) {
			n := w.clone()
			out = append(out, parseWorld{st: w, t: &TimeV{opaque: true, id: w.newInt(-inf, inf, "instant"), zone: "local"}},
				parseWorld{st: n, err: "cannot parse"})
			continue
		}
		out = append(out, w.parseToks(toks, it, tparse{})...)
	}
	return out
}

func (st *State) parseToks(toks []layoutTok, it []Item, p tparse) []parseWorld {
	fail := func(st *State, e string) parseWorld { return parseWorld{st: st, err: e} }
	tk := toks[0]
	// literal text (a space matches any number of spaces: not modelled beyond one)
	if tk.lit != "" {
		if strings.Contains(tk.lit, " ") {
			giveUp("time layout with spaces")
		}
		var out []parseWorld
		for _, w := range st.matchAt(it, 0, tk.lit) {
			if !w.b {
				out = append(out, fail(w.st, "literal"))
				continue
			}
			t2 := append([]layoutTok{{std: tk.std}}, toks[1:]...)
			out = append(out, w.st.parseToks(t2, it[len(tk.lit):], p)...)
		}
		return out
	}
	if tk.std == "" {
		if len(it) > 0 {
			return []parseWorld{fail(st, "extra text")}
		}
		return st.finishParse(p)
	}
	// digits reads n digits at position k
	digits := func(st *State, k, n int, then func(st *State, v Lin) []parseWorld) []parseWorld {
		if k+n > len(it) {
			return []parseWorld{fail(st, "too short")}
		}
		var box []Charset
		for i := 0; i < n; i++ {
			box = append(box, csDigit)
		}
		var out []parseWorld
		for _, w := range st.inLang(Str{it[k : k+n]}, dfaBox(box)) {
			if !w.b {
				out = append(out, fail(w.st, "digits"))
				continue
			}
			out = append(out, then(w.st, w.st.mergeGroups(it[k:k+n], Lin{}))...)
		}
		return out
	}
	ranged := func(st *State, v Lin, lo, hi int64, what string, then func(st *State) []parseWorld) []parseWorld {
		var out []parseWorld
		for _, w := range st.forkCmp(v.plusC(-lo), opLT) {
			if w.b {
				out = append(out, fail(w.st, what))
				continue
			}
			for _, x := range w.st.forkCmp(v.plusC(-hi), opGT) {
				if x.b {
					out = append(out, fail(x.st, what))
					continue
				}
				out = append(out, then(x.st)...)
			}
		}
		return out
	}
	rest := toks[1:]
	switch tk.std {
	case "2006":
		return digits(st, 0, 4, func(st *State, v Lin) []parseWorld {
			q := p
			q.y = v
			return st.parseToks(rest, it[4:], q)
		})
	case "01":
		return digits(st, 0, 2, func(st *State, v Lin) []parseWorld {
			return ranged(st, v, 1, 12, "month out of range", func(st *State) []parseWorld {
				q := p
				q.mo, q.hasMo = v, true
				return st.parseToks(rest, it[2:], q)
			})
		})
	case "02":
		return digits(st, 0, 2, func(st *State, v Lin) []parseWorld {
			q := p
			q.d, q.hasD = v, true
			return st.parseToks(rest, it[2:], q)
		})
	case "1", "2", "15":
		// one or two digits
		if len(it) == 0 {
			return []parseWorld{fail(st, "too short")}
		}
		set := func(st *State, v Lin, n int) []parseWorld {
			q := p
			switch tk.std {
			case "1":
				return ranged(st, v, 1, 12, "month out of range", func(st *State) []parseWorld {
					q.mo, q.hasMo = v, true
					return st.parseToks(rest, it[n:], q)
				})
			case "2":
				q.d, q.hasD = v, true
				return st.parseToks(rest, it[n:], q)
			}
			return ranged(st, v, 0, 23, "hour out of range", func(st *State) []parseWorld {
				q.h = v
				return st.parseToks(rest, it[n:], q)
			})
		}
		return digits(st, 0, 1, func(st *State, v Lin) []parseWorld {
			if len(it) == 1 {
				return set(st, v, 1)
			}
			var out []parseWorld
			for _, w := range st.inLang(Str{it[1:2]}, dfaBox([]Charset{csDigit})) {
				if w.b {
					out = append(out, set(w.st, w.st.mergeGroups(it[0:2], Lin{}), 2)...)
				} else {
					out = append(out, set(w.st, v, 1)...)
				}
			}
			return out
		})
	case "04":
		return digits(st, 0, 2, func(st *State, v Lin) []parseWorld {
			return ranged(st, v, 0, 59, "minute out of range", func(st *State) []parseWorld {
				q := p
				q.mi = v
				return st.parseToks(rest, it[2:], q)
			})
		})
	case "05":
		return digits(st, 0, 2, func(st *State, v Lin) []parseWorld {
			return ranged(st, v, 0, 59, "second out of range", func(st *State) []parseWorld {
				q := p
				q.s = v
				if len(it) >= 4 {
					if !st.itemCS(it[2]).and(csOf(".,")).empty() {
						giveUp("fractional seconds")
					}
				}
				return st.parseToks(rest, it[2:], q)
			})
		})
	case "-07:00", "-07", "-0700", "Z07:00", "Z07", "Z0700":
		var out []parseWorld
		base := []*State{st}
		if tk.std[0] == 'Z' {
			base = nil
			for _, w := range st.matchAt(it, 0, "Z") {
				if !w.b {
					base = append(base, w.st)
					continue
				}
				q := p
				q.z = true
				out = append(out, w.st.parseToks(rest, it[1:], q)...)
			}
		}
		for _, st := range base {
			need := 3
			if strings.HasSuffix(tk.std, ":00") {
				need = 6
			} else if strings.HasSuffix(tk.std, "0700") {
				need = 5
			}
			if len(it) < need {
				out = append(out, fail(st, "too short"))
				continue
			}
			signs := st.inLang(Str{it[0:1]}, dfaBox([]Charset{csOf("+-")}))
			for _, w := range signs {
				if !w.b {
					out = append(out, fail(w.st, "zone"))
					continue
				}
				for _, w2 := range w.st.inLang(Str{it[0:1]}, dfaWord("-")) {
					neg := w2.b
					zdone := func(st *State, hh, mm Lin) []parseWorld {
						return ranged(st, hh, 0, 24, "zone hour", func(st *State) []parseWorld {
							return ranged(st, mm, 0, 60, "zone minute", func(st *State) []parseWorld {
								q := p
								q.hasOff = true
								q.off = hh.scale(3600).plus(mm.scale(60))
								if neg {
									q.off = q.off.scale(-1)
								}
								return st.parseToks(rest, it[need:], q)
							})
						})
					}
					out = append(out, digits(w2.st, 1, 2, func(st *State, hh Lin) []parseWorld {
						switch need {
						case 3:
							return zdone(st, hh, Lin{})
						case 5:
							return digits(st, 3, 2, func(st *State, mm Lin) []parseWorld { return zdone(st, hh, mm) })
						}
						var o []parseWorld
						for _, c := range st.matchAt(it, 3, ":") {
							if !c.b {
								o = append(o, fail(c.st, "zone"))
								continue
							}
							o = append(o, digits(c.st, 4, 2, func(st *State, mm Lin) []parseWorld { return zdone(st, hh, mm) })...)
						}
						return o
					})...)
				}
			}
		}
		return out
	}
	giveUp("time layout element %q", tk.std)
	return nil
}

func (st *State) finishParse(p tparse) []parseWorld {
	if !p.hasMo {
		p.mo = linC(1)
	}
	if !p.hasD {
		p.d = linC(1)
	}
	var out []parseWorld
	mk := func(st *State) parseWorld {
		t := &TimeV{y: p.y, m: p.mo, d: p.d, sod: p.h.scale(3600).plus(p.mi.scale(60)).plus(p.s), zone: "UTC"}
		if p.hasOff {
			t.off = p.off
			t.zone = "local" // a fixed zone, or the local one when the offsets agree
		}
		return parseWorld{st: st, t: t}
	}
	for _, w := range st.forkCmp(p.d.plusC(-1), opLT) {
		if w.b {
			out = append(out, parseWorld{st: w.st, err: "day out of range"})
			continue
		}
		if w.st.decide(p.d.plusC(-28), opLE) == 1 {
			out = append(out, mk(w.st))
			continue
		}
		ms, ok := w.st.splitValues(p.mo, 20)
		if !ok {
			giveUp("month is not bounded")
		}
		for _, x := range ms {
			for _, dw := range x.dim(p.y, x.norm(p.mo).c) {
				for _, z := range dw.st.forkCmp(p.d.minus(dw.l), opGT) {
					if z.b {
						out = append(out, parseWorld{st: z.st, err: "day out of range"})
					} else {
						out = append(out, mk(z.st))
					}
				}
			}
		}
	}
	return out
}

// ---------- formatting ----------

func (st *State) formatTime(t *TimeV, layout string) []strWorld {
	if t.opaque || layout == "2006-01-02T15:04:05Z07:00" || t.zone == "local" {
		o := st.newOpq(patDFA(`-?[0-9]{4,}-[0-9][0-9]-[0-9][0-9]T[0-9][0-9]:[0-9][0-9]:[0-9][0-9](Z|[+-][0-9][0-9]:[0-9][0-9])`), "time text")
		if layout != "2006-01-02T15:04:05Z07:00" {
			n := *st.syms[o]
			n.lang = dfaAny
			st.syms[o] = &n
		}
		n := *st.syms[o]
		n.tag = &FmtTag{t, layout}
		st.syms[o] = &n
		return []strWorld{{st, Str{[]Item{{k: iOpq, s: o}}}}}
	}
	type pw struct {
		st *State
		s  Str
		t  *TimeV
	}
	var cur []pw
	for _, w := range st.normSod(t) {
		cur = append(cur, pw{w.st, Str{}, w.t})
	}
	for _, tk := range layoutToks(layout) {
		var next []pw
		for _, c := range cur {
			s := Str{append(append([]Item(nil), c.s.it...), lit(tk.lit).it...)}
			var l Lin
			width := 2
			st := c.st
			hms := func() (h, m, sec Lin) {
				sod := st.norm(c.t.sod)
				if sod.isConst() {
					return linC(sod.c / 3600), linC(sod.c / 60 % 60), linC(sod.c % 60)
				}
				hs := st.newInt(0, 23, "hour")
				ms := st.newInt(0, 59, "minute")
				ss := st.newInt(0, 59, "second")
				st.assumeRange(linS(hs).scale(3600).plus(linS(ms).scale(60)).plus(linS(ss)).minus(sod), 0, 0)
				return linS(hs), linS(ms), linS(ss)
			}
			switch tk.std {
			case "":
				next = append(next, pw{c.st, s, c.t})
				continue
			case "2006":
				l, width = c.t.y, 4
			case "01":
				l = c.t.m
			case "1":
				l, width = c.t.m, 0
			case "02":
				l = c.t.d
			case "2":
				l, width = c.t.d, 0
			case "15":
				l, _, _ = hms()
			case "04":
				_, l, _ = hms()
			case "05":
				_, _, l = hms()
			case "Z07:00", "Z07", "Z0700":
				if c.t.zone == "UTC" {
					next = append(next, pw{c.st, Str{append(s.it, Item{k: iLit, b: 'Z'})}, c.t})
					continue
				}
				giveUp("formatting zone")
			default:
				giveUp("formatting time with %q", layout)
			}
			for _, neg := range st.forkCmp(l, opLT) {
				v := l
				pre := s
				if neg.b {
					v = l.scale(-1)
					pre = Str{append(append([]Item(nil), s.it...), Item{k: iLit, b: '-'})}
				}
				for _, r := range neg.st.renderNat(v, width) {
					next = append(next, pw{r.st, Str{append(append([]Item(nil), pre.it...), r.s.it...)}, c.t})
				}
			}
		}
		cur = next
	}
	var out []strWorld
	for _, c := range cur {
		out = append(out, strWorld{c.st, c.s})
	}
	return out
}
