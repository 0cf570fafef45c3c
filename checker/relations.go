package main

// C15, C16: comparing dates and deriving Unix ranges.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pick finds a class of the grammar by family and text.
func pick(fams map[string][]Class, fam, text string) Class {
	for _, c := range fams[fam] {
		if c.text == text {
			return c
		}
	}
	giveUp("no class %s %s", fam, text)
	return Class{}
}

// only restricts a state to one value of a string.
func (st *State) only(s Str, v string) *State {
	for _, b := range st.inLang(s, dfaLit(v)) {
		if b.b && b.st.feasible() {
			return b.st
		}
	}
	return nil
}

// answer is an expected (bool, error) outcome.
type answer struct {
	st   *State
	val  bool
	err  bool
	any  bool // no expectation
	skip bool // either the value or an error
}

// order is the reference for one date being after (or before) another.
func order(st *State, a, b xres, open bool, after bool) []answer {
	if open {
		return []answer{{st: st}}
	}
	x, y := a.start.lo.t, b.end.hi.t
	want := 1
	if !after {
		x, y = a.end.hi.t, b.start.lo.t
		want = -1
	}
	if x == nil || y == nil {
		return []answer{{st: st, err: true}}
	}
	var out []answer
	for _, w := range st.cmpTime(x, y) {
		if w.st.feasible() {
			out = append(out, answer{st: w.st, val: w.c == want})
		}
	}
	return out
}

type cmpCase struct {
	cls  []Class
	fn   *ssa.Function
	kind string // after, before, between
}

func (c cmpCase) name() string {
	var t []string
	for _, x := range c.cls {
		t = append(t, fmt.Sprintf("%q", x.text))
	}
	return c.kind + "(" + strings.Join(t, ", ") + ")"
}

// expected lists the answers for the strings of the classes.
func (c cmpCase) expected(st *State, ss []Str, exps []func(*State) []xres) []answer {
	var out []answer
	isOpen := func(st *State, s Str) bool { n, ok := isMarkerStr(st, s); return ok && n == "Open" }
	rel := func(st *State, i, j int, after bool) []answer {
		var out []answer
		for _, a := range exps[i](st.clone()) {
			for _, b := range exps[j](a.st.clone()) {
				if !b.st.feasible() {
					continue
				}
				switch {
				case !a.care || !b.care || a.known != "" || b.known != "":
					out = append(out, answer{st: b.st, any: true})
				case a.err != "" || b.err != "":
					out = append(out, answer{st: b.st, err: true})
				default:
					out = append(out, order(b.st, a, b, isOpen(b.st, ss[i]), after)...)
				}
			}
		}
		return out
	}
	switch c.kind {
	case "after":
		return rel(st, 0, 1, true)
	case "before":
		return rel(st, 0, 1, false)
	}
	for _, b := range rel(st, 0, 1, false) {
		if b.any || b.err {
			out = append(out, b)
			continue
		}
		if isOpen(b.st, ss[2]) {
			b.val = !b.val
			out = append(out, b)
			continue
		}
		for _, a := range rel(b.st.clone(), 0, 2, true) {
			switch {
			case b.val && a.err:
				// not between whatever the second bound: an answer or an error
				a = answer{st: a.st, skip: true}
			case b.val:
				a.val = false
			case !a.err && !a.any:
				a.val = !a.val
			}
			out = append(out, a)
		}
	}
	return out
}

// differences interprets the function and reports what differs; at restricts the strings.
func (r *Run) cmpDiffs(c cmpCase, at []string, report func(st *State, ss []Str, want, got, where string)) {
	st := r.base.clone()
	var ss []Str
	var exps []func(*State) []xres
	var args []Val
	for i, x := range c.cls {
		s, e := x.build(st)
		if at != nil {
			if st = st.only(s, at[i]); st == nil {
				return
			}
		}
		ss, exps, args = append(ss, s), append(exps, e), append(args, s)
	}
	st.vague = ""
	for _, o := range r.run(st, c.fn, args...) {
		if u := doubt(o.st); u != "" {
			if exactRun {
				continue
			}
			r.undec = append(r.undec, c.name()+": a result depends on "+u)
			continue
		}
		if o.panic != nil {
			r.oblig++
			report(o.st, ss, "an answer or an error", "panic: "+o.panic.msg, o.panic.pos)
			continue
		}
		t := o.v.(Tuple)
		enil := isNil(t[1])
		for _, x := range c.expected(o.st.clone(), ss, exps) {
			if x.any || !x.st.feasible() {
				continue
			}
			r.oblig++
			switch {
			case !enil && x.skip:
			case !enil && !x.err:
				report(x.st, ss, fmt.Sprint(x.val), "error "+r.l.errKind(x.st, t[1]), r.l.where(x.st, t[1]))
			case !enil && t[0] != false:
				report(x.st, ss, "false with the error", describe(x.st, t[0]), r.w.src(c.fn))
			case enil && x.err:
				report(x.st, ss, "an error", describe(x.st, t[0]), r.w.src(c.fn))
			case enil && t[0] != x.val:
				report(x.st, ss, fmt.Sprint(x.val), describe(x.st, t[0]), r.w.src(c.fn))
			}
		}
	}
}

// compareCase reports the differences that keep lets through.
func (r *Run) compareCase(c cmpCase, keep func(want, got string) bool) {
	r.guard(c.name(), func() {
		r.budget(classBudget)
		var found []Mismatch
		var wits [][]string
		r.cmpDiffs(c, nil, func(st *State, ss []Str, want, got, where string) {
			if keep != nil && !keep(want, got) {
				return
			}
			w := st.witnesses(ss...)
			wits = append(wits, w)
			found = append(found, Mismatch{Aspect: "comparison", Class: c.name(), Input: strings.Join(w, " | "), Field: r.name(c.fn), Want: want, Got: got, Where: where})
		})
		ok := false
		for i, m := range found {
			if i >= 6 || ok {
				break
			}
			exactly(func() {
				r.cmpDiffs(c, wits[i], func(st *State, _ []Str, want, got, _ string) {
					ok = ok || want == m.Want && got == m.Got && doubt(st) == ""
				})
			})
			if ok {
				r.violate(m)
			}
		}
		if len(found) > 0 && !ok {
			giveUp("not confirmed for the example itself: %s", found[0].Input)
		}
	})
}

// someTuples compares on pairs and triples of a few classes.
func (r *Run) someTuples(keep func(want, got string) bool) {
	var few []Class
	fm := families(true)
	get := func(fam string, texts ...string) {
		for _, t := range texts {
			r.guard("class "+t, func() { few = append(few, pick(fm, fam, t)) })
		}
	}
	get("date", "####", "-####-0@-2#")
	get("extended", "####/..", "../####", "/####-0@", "####-1!/")
	get("marker", `""`, `".."`)
	few = append(few, cInterval("interval0", "####", "####"), cError("malformed", "x", "any"))
	n := 0
	for _, k := range []string{"after", "before", "between"} {
		fn := r.w.fn("cmp", map[string]string{"after": "IsAfter", "before": "IsBefore", "between": "IsBetween"}[k])
		if fn == nil {
			r.undec = append(r.undec, "no function for "+k)
			continue
		}
		for _, a := range few {
			for _, b := range few {
				if k != "between" {
					r.compareCase(cmpCase{[]Class{a, b}, fn, k}, keep)
					n++
					continue
				}
				for _, c := range few {
					less := func(c Class) bool {
						return c.text == "/####-0@" || c.text == "####-1!/" || c.text == `""` || c.fam == "interval0"
					}
					// two of the three bounds without an instant say no more than one
					if !less(a) && !less(b) && !less(c) && (a.fam == "date" || b.fam == "date" || c.fam == "date") {
						r.compareCase(cmpCase{[]Class{a, b, c}, fn, k}, keep)
						n++
					}
				}
			}
		}
	}
	r.counts["tuples of classes of strings compared"] = n
}

func checkOrder(r *Run) {
	fm := families(true)
	var one, few []Class
	get := func(l *[]Class, fam string, texts ...string) {
		for _, t := range texts {
			r.guard("class "+t, func() { *l = append(*l, pick(fm, fam, t)) })
		}
	}
	get(&one, "date", "####", "-####", "####-0@", "####-1!-2#", "-####-0@-3^")
	get(&one, "qualified", "####-1!?")
	get(&one, "unspecified", "###X", "####-0@-XX")
	get(&one, "extended", "../####", "####/..", "/####-0@", "####-1!/")
	get(&one, "marker", `""`, `".."`)
	one = append(one, cInterval("interval0", "####", "####-0@"), cInterval("interval0", "-####", "####"), cError("malformed", "19##-13", "any"), cError("malformed", "x", "any"))
	for _, c := range fm["datetime"] {
		if strings.HasSuffix(c.text, "Z") && len(one) < 19 {
			one = append(one, c)
		}
	}
	for _, c := range fm["grouping"] {
		if strings.HasSuffix(c.text, "-24") || strings.HasSuffix(c.text, "-33") {
			one = append(one, c)
		}
	}
	for _, c := range fm["set"] {
		if c.text == "[####,####]" || c.text == "{####..}" || c.text == "[..####]" {
			one = append(one, c)
		}
	}
	get(&few, "date", "####", "####-0@-2#", "-####")
	get(&few, "extended", "####/..", "../####")
	get(&few, "marker", `""`, `".."`)
	few = append(few, cInterval("interval0", "####", "####"), cError("malformed", "x", "any"))
	if r.all {
		few = one
	}
	for _, k := range []string{"after", "before", "between"} {
		fn := r.w.fn("cmp", map[string]string{"after": "IsAfter", "before": "IsBefore", "between": "IsBetween"}[k])
		if fn == nil {
			r.undec = append(r.undec, "no function for "+k)
			continue
		}
		n := 0
		if k != "between" {
			for _, a := range one {
				for _, b := range one {
					r.compareCase(cmpCase{[]Class{a, b}, fn, k}, nil)
					n++
				}
			}
		} else {
			for _, a := range few {
				for _, b := range few {
					for _, c := range few {
						r.compareCase(cmpCase{[]Class{a, b, c}, fn, k}, nil)
						n++
					}
				}
			}
		}
		r.counts["tuples of classes of strings compared: "+k] = n
	}
	for _, c := range one {
		r.sample(map[string]string{"class compared with every other": c.text})
	}
	r.methods()
}

// methods: After and Before on dates whose bounds are any instants.
func (r *Run) methods() {
	for _, after := range []bool{true, false} {
		after := after
		n := map[bool]string{true: "After", false: "Before"}[after]
		r.guard("EDTFDate."+n+" for any instants", func() {
			r.budget(classBudget)
			fn := r.l.fn("", "*EDTFDate."+n)
			// outcomes compares every outcome; report gets the state and the dates of a difference
			outcomes := func(mask int, pin []int64, texts []string, report func(st *State, txt [2]Str, ids []SymID, where, want, got string)) {
				st := r.base.clone()
				var txt [2]Str
				if pin != nil {
					txt = [2]Str{lit(texts[0]), lit(texts[1])}
				} else {
					txt = [2]Str{st.langStr(patDFA(`(?s:.+)`).Minus(patDFA(`\.\.|open`)), "a"), st.anyStr("b")}
				}
				var objs [2]Val
				var ts [2][4]*TimeV
				var ids []SymID
				for i := range objs {
					objs[i] = r.dateWith(st, txt[i], fmt.Sprint(i), &ts[i], mask>>(2*i)&3, func(lo, hi int64, name string) Lin {
						if len(pin) > 0 {
							v := pin[0]
							pin = pin[1:]
							return linC(v)
						}
						id := st.newInt(lo, hi, name)
						ids = append(ids, id)
						return linS(id)
					})
				}
				for _, o := range r.run(st, fn, objs[0], objs[1]) {
					r.oblig++
					if o.panic != nil {
						report(o.st, txt, ids, o.panic.pos, "an answer or an error", "panic: "+o.panic.msg)
						continue
					}
					t := o.v.(Tuple)
					x, y, want := ts[0][0], ts[1][3], 1
					if !after {
						x, y, want = ts[0][3], ts[1][0], -1
					}
					if x == nil || y == nil {
						if isNil(t[1]) {
							report(o.st, txt, ids, r.w.src(fn), "an error (a bound has no instant)", describe(o.st, t[0]))
						}
						continue
					}
					if !isNil(t[1]) {
						report(o.st, txt, ids, r.w.src(fn), "an answer", "error "+r.l.errKind(o.st, t[1]))
						continue
					}
					for _, w := range o.st.clone().cmpTime(x, y) {
						if !w.st.feasible() {
							continue
						}
						r.oblig++
						if t[0] != (w.c == want) {
							report(w.st, txt, ids, r.w.src(fn), fmt.Sprintf("%v for %s and %s", w.c == want, x.show(w.st), y.show(w.st)), describe(w.st, t[0]))
						}
					}
				}
			}
			lost := ""
			for mask := 0; mask < 16; mask++ {
				found, tried := false, 0
				outcomes(mask, nil, nil, func(st *State, txt [2]Str, ids []SymID, where, want, got string) {
					if found || tried > 20 {
						return
					}
					tried++
					// once more for two dates alone
					as, _, _ := st.solve(ids, 100000)
					pin := []int64{}
					for _, id := range ids {
						pin = append(pin, as[id])
					}
					if len(ids) == 0 {
						pin = []int64{0} // no instants at all
					}
					texts := []string{st.witness(txt[0]), st.witness(txt[1])}
					// and for dates whose bounds are one and the same instant
					same := []int64{}
					for _, id := range ids {
						v := as[ids[0]]
						for j, part := range []string{"year", "month", "day", "second"} {
							if strings.HasSuffix(st.syms[id].name, part) && j > 0 {
								v = int64(j)
							}
						}
						same = append(same, v)
					}
					if len(ids) == 0 {
						same = pin
					}
					for _, pin := range [][]int64{pin, same} {
						exactly(func() {
							outcomes(mask, pin, texts, func(st *State, _ [2]Str, _ []SymID, where, want, got string) {
								if !found && doubt(st) == "" {
									found = true
									r.violatef("comparison", where, want, got)
								}
							})
						})
					}
					if !found {
						lost = want
					}
				})
				if found {
					return
				}
			}
			if lost != "" {
				giveUp("not confirmed for the example itself: %s", lost)
			}
		})
	}
}

// dateWith builds an EDTFDate with the four bounds at any instants of years -9999 to 9999 (kind 0), without
// instants (1), with an open start (2) or with an open end (3).
func (r *Run) dateWith(st *State, text Str, name string, ts *[4]*TimeV, kind int, num func(lo, hi int64, name string) Lin) Val {
	l := r.l
	et, rt, dt, tt := l.typ("", "EDTFDate"), l.typ("", "DateRange"), l.typ("", "Date"), l.typ("", "Timestamp")
	set := func(a Val, t interface{ String() string }, i int, v Val) Val {
		x := a.(Agg)
		n := Agg{append([]Val(nil), x.f...)}
		n.f[i] = v
		return n
	}
	mk := l.fn("", "NewTimestampWithTime")
	k := 0
	bound := func() Val {
		d := r.in.zeroVal(dt)
		if kind == 2 && k < 2 || kind == 3 && k > 1 {
			i, _ := fieldIndex(dt, "Open")
			d = set(d, dt, i, true)
		} else if kind != 1 {
			t := &TimeV{y: num(-9999, 9999, name+"year"), m: num(1, 12, name+"month"), d: num(1, 28, name+"day"), sod: num(0, 86399, name+"second"), zone: "UTC"}
			ts[k] = t
			p := Ptr{obj: r.in.newObj(st, t, nil)}
			rs := r.in.call(st.clone(), mk, []Val{p}, nil)
			if len(rs) != 1 || rs[0].panic != nil {
				giveUp("NewTimestampWithTime has %d outcomes", len(rs))
			}
			*st = *rs[0].st
			i, _ := fieldIndex(dt, "Timestamp")
			d = set(d, dt, i, rs[0].v)
		}
		k++
		return Ptr{obj: r.in.newObj(st, d, dt)}
	}
	rng := func() Val {
		g := r.in.zeroVal(rt)
		lo, _ := fieldIndex(rt, "Lower")
		hi, _ := fieldIndex(rt, "Upper")
		g = set(g, rt, lo, bound())
		g = set(g, rt, hi, bound())
		return Ptr{obj: r.in.newObj(st, g, rt)}
	}
	e := r.in.zeroVal(et)
	a, _ := fieldIndex(et, "Start")
	b, _ := fieldIndex(et, "End")
	c, _ := fieldIndex(et, "EDTF")
	e = set(e, et, a, rng())
	e = set(e, et, b, rng())
	e = set(e, et, c, text)
	_ = tt
	return Ptr{obj: r.in.newObj(st, e, et)}
}

func init() {
	props["C15"] = prop{"cmp.IsAfter, IsBefore and IsBetween are interpreted on pairs and triples of classes of strings (digits unknown, both signs, all precisions, open and unknown ends, markers, malformed strings); every outcome is compared with the order of the reference bounds of the two strings in the same state (lexicographic comparison of civil instants over linear forms). EDTFDate.After and Before are interpreted on dates whose bounds are any instants of years -9999 to 9999 or absent. " +
		"A difference is kept only when it is found again for the example strings alone.", checkOrder}
}
