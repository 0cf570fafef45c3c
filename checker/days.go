package main

// C24: the helpers that make calendar days out of text and numbers.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dayRef is what a year, a month and a day stand for (a zero or missing month is January, a zero or
// missing day the last of the month).
type dayRef struct {
	st  *State
	err bool
	d   ymdL
}

func (st *State) dayRefs(y, m, d Lin, missing bool) []dayRef {
	if missing {
		return []dayRef{{st: st, err: true}}
	}
	var out []dayRef
	// keep splits st on l op 0 and turns one side into errors
	fail := func(st *State, l Lin, op cmpOp) *State {
		var rest *State
		for _, w := range st.forkCmp(l, op) {
			if !w.st.feasible() {
				continue
			}
			if w.b {
				out = append(out, dayRef{st: w.st, err: true})
			} else {
				rest = w.st
			}
		}
		return rest
	}
	cur := st
	if cur = fail(cur, y.plusC(-9999), opGT); cur == nil {
		return out
	}
	if cur = fail(cur, y.plusC(9999), opLT); cur == nil {
		return out
	}
	if cur = fail(cur, m.plusC(-12), opGT); cur == nil {
		return out
	}
	ms, ok := cur.splitValues(m, 16)
	if !ok {
		giveUp("month is not bounded")
	}
	for _, w := range ms {
		mv := w.norm(m).c
		for _, z := range w.forkCmp(d, opEQ) {
			if !z.st.feasible() {
				continue
			}
			if mv == 0 && !z.b {
				out = append(out, dayRef{st: z.st, err: true})
				continue
			}
			k := mv
			if k == 0 {
				k = 1
			}
			for _, l := range z.st.dim(y, k) {
				if !l.st.feasible() {
					continue
				}
				if z.b {
					out = append(out, dayRef{st: l.st, d: ymdL{y, linC(k), l.l}})
					continue
				}
				for _, x := range l.st.forkCmp(d.minus(l.l), opGT) {
					if x.st.feasible() {
						out = append(out, dayRef{st: x.st, err: x.b, d: ymdL{y, linC(k), d}})
					}
				}
			}
		}
	}
	return out
}

// pieces splits the items of a text at the separators of its pattern and reads the numbers.
func pieces(st *State, pat string, s Str, sep byte) (parts []Str, nums []Lin) {
	at := 0
	neg := false
	flush := func(end int) {
		it := s.it[at:end]
		parts = append(parts, Str{it})
		if neg {
			it = it[1:]
		}
		l, ok := digitsLin(st, it)
		if !ok {
			giveUp("no number in %s", pat)
		}
		if neg {
			l = l.scale(-1)
		}
		nums = append(nums, l)
		neg = false
	}
	for i := 0; i < len(pat); i++ {
		if pat[i] == '-' && i == at && (sep != '-' || i == 0) {
			neg = true
			continue
		}
		if pat[i] == sep {
			flush(i)
			at = i + 1
		}
	}
	flush(len(pat))
	return
}

// dayDiffs compares the (year-month-day, error) outcomes of a function with the reference.
func (r *Run) dayDiffs(fn *ssa.Function, outs []Ret, y, m, d Lin, missing bool, report func(d diff)) {
	t := r.l.typ("", "YMD")
	for _, o := range outs {
		r.oblig++
		if o.panic != nil {
			report(diff{o.st, r.name(fn), "a day or an error", "panic: " + o.panic.msg, o.panic.pos})
			continue
		}
		res := o.v.(Tuple)
		for _, x := range o.st.clone().dayRefs(y, m, d, missing) {
			if !x.st.feasible() {
				continue
			}
			switch failed := !isNil(res[1]); {
			case failed && !x.err:
				report(diff{x.st, r.name(fn), "the day", "an error", r.l.where(x.st, res[1])})
			case !failed && x.err:
				report(diff{x.st, r.name(fn), "an error (no such day)", "a day", r.w.src(fn)})
			case !failed && isNil(res[0]):
				report(diff{x.st, r.name(fn), "an error or a day", "neither", r.w.src(fn)})
			case !failed:
				for _, f := range []struct {
					n    string
					want Lin
				}{{"Year", x.d.y}, {"Month", x.d.m}, {"Day", x.d.d}} {
					r.sameNum(x.st, fn, f.n, r.l.field(x.st, res[0], t, f.n), f.want, report)
				}
			}
		}
	}
}

// sameNum compares a number with the expected one.
func (r *Run) sameNum(st *State, fn *ssa.Function, field string, v Val, want Lin, report func(d diff)) {
	r.oblig++
	l, ok := v.(Lin)
	if !ok {
		giveUp("%s of %s is not known", field, r.name(fn))
	}
	if st.eqLin(l, want) {
		return
	}
	for _, w := range st.forkCmp(l.minus(want), opNE) {
		if w.b && w.st.feasible() {
			report(diff{w.st, r.name(fn) + " " + field, describe(w.st, want), describe(w.st, l), r.w.src(fn)})
			return
		}
	}
}

// sameTime compares an instant with the expected one.
func (r *Run) sameTime(st *State, fn *ssa.Function, v Val, want *TimeV, report func(d diff)) {
	r.oblig++
	t, ok := v.(*TimeV)
	if !ok || t.opaque {
		giveUp("the instant of %s is not known", r.name(fn))
	}
	if d := st.differTime(t, want); d != nil {
		report(diff{d, r.name(fn), want.show(d), t.show(d), r.w.src(fn)})
	}
}

// structOf makes an object of a named struct type with the given fields.
func (r *Run) structOf(st *State, pkg, name string, fields map[string]Val) Ptr {
	t := r.l.typ(pkg, name)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		giveUp("%s.%s is not a struct", pkg, name)
	}
	p := Ptr{obj: r.in.newObj(st, r.in.zeroVal(t), t)}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			r.in.store(st, p.field(i), v)
			n++
		}
	}
	if n != len(fields) {
		giveUp("the fields of %s.%s", pkg, name)
	}
	return p
}

// over runs a comparison on the texts of a pattern.
func (r *Run) overPattern(what, pat string, run func(st *State, s Str, report func(d diff))) {
	r.confirmed("day", what, func() (*State, Str) {
		st := r.base.clone()
		return st, buildStr(st, pat)
	}, func(st *State, s Str, report func(d diff)) {
		run(st, s, func(d diff) {
			if !r.onlyErrors || strings.HasPrefix(d.want, "an error") {
				report(d)
			}
		})
	})
	r.counts["patterns of text"]++
}

func checkDays(r *Run) {
	need := func(pkg, n string) *ssa.Function {
		fn := r.w.fn(pkg, n)
		if fn == nil {
			r.undec = append(r.undec, "no function "+pkg+"."+n)
		}
		return fn
	}
	// three texts
	if fn := need("common", "YMDFromStrings"); fn != nil {
		sd := r.w.fn("common", "YMDFromStringDate")
		for _, y := range []string{"", "#", "###", "####", "-####", "-##", "0####", "#####", "-#####", "######"} {
			for _, m := range []string{"", "#", "##", "0##"} {
				for _, d := range []string{"", "#", "##", "0##"} {
					y, m, d := y, m, d
					pat := y + "|" + m + "|" + d
					r.overPattern("three texts "+pat, pat, func(st *State, s Str, report func(d diff)) {
						ps, ns := pieces(st, pat, s, '|')
						miss := y == "" || m == "" && d != ""
						r.dayDiffs(fn, r.run(st.clone(), fn, ps[0], ps[1], ps[2]), ns[0], ns[1], ns[2], miss, report)
						if sd != nil && len(y) > 3 {
							st := st.clone()
							p := r.structOf(st, "common", "StringDate", map[string]Val{"Year": ps[0], "Month": ps[1], "Day": ps[2]})
							r.dayDiffs(sd, r.run(st, sd, p), ns[0], ns[1], ns[2], miss, report)
						}
					})
				}
			}
		}
		for _, pat := range []string{"####|-#|", "####|-##|##", "-####|##|-##", "####|#|-#"} {
			pat := pat
			r.overPattern("signed month or day "+pat, pat, func(st *State, s Str, report func(d diff)) {
				ps, ns := pieces(st, pat, s, '|')
				// minus zero is zero
				for i := 1; i < 3; i++ {
					var rest *State
					for _, w := range st.forkCmp(ns[i], opLT) {
						if !w.st.feasible() {
							continue
						}
						if w.b {
							r.dayDiffs(fn, r.run(w.st.clone(), fn, ps[0], ps[1], ps[2]), ns[0], ns[1], ns[2], true, report)
						} else {
							rest = w.st
						}
					}
					if st = rest; st == nil {
						return
					}
				}
			})
		}
		// text that is not a number
		bad, num := patDFA(`(?s:.*)`).Minus(patDFA(`[-+]?[0-9]+`)).Minus(dfaWord("")), patDFA(`[0-9]{1,4}`)
		for i, ls := range [][]*DFA{{bad, num, num}, {num, bad, num}, {num, patDFA(`0?[1-9]|1[0-2]`), bad}} {
			ls := ls
			r.summarised(func() {
				r.exclusiveOn(fn, fmt.Sprintf("%s with a text that is not a number (%d)", r.name(fn), i+1), ls, true)
			})
		}
	}
	// one text
	if fn := need("common", "YMDFromString"); fn != nil {
		for _, sg := range []string{"", "-"} {
			for _, y := range []string{"####", "##", "#####"} {
				for _, md := range []string{"", "-##", "-#", "-0##", "-##-##", "-#-#", "-##-#", "-#-##", "-0##-##", "-##-0##"} {
					pat := sg + y + md
					r.overPattern("text "+pat, pat, func(st *State, s Str, report func(d diff)) {
						_, ns := pieces(st, pat, s, '-')
						for len(ns) < 3 {
							ns = append(ns, Lin{})
						}
						r.dayDiffs(fn, r.run(st.clone(), fn, s), ns[0], ns[1], ns[2], false, report)
					})
				}
			}
		}
		part := patDFA(`[^-]*`)
		num := patDFA(`[+]?[0-9]*`)
		yr := patDFA(`[+]?[0-9]+`)
		some := part.Minus(dfaWord(""))
		for _, sh := range []struct {
			what string
			p    []interface{}
		}{
			{"no hyphen", []interface{}{part.Minus(yr)}},
			{"one hyphen, no year", []interface{}{some.Minus(yr), "-", part}},
			{"one hyphen, no month", []interface{}{yr, "-", part.Minus(num)}},
			{"two hyphens, no year", []interface{}{some.Minus(yr), "-", part, "-", part}},
			{"two hyphens, no month", []interface{}{yr, "-", part.Minus(num), "-", part}},
			{"two hyphens, no day", []interface{}{yr, "-", num, "-", part.Minus(num)}},
			{"text before the first of three hyphens", []interface{}{some, "-", part, "-", part, "-", part}},
			{"three hyphens, no year", []interface{}{"-", part.Minus(patDFA(`[0-9]+`)), "-", part, "-", part}},
			{"four hyphens, the first leading", []interface{}{"-", part, "-", part, "-", part, "-", part}},
			{"four hyphens", []interface{}{some, "-", part, "-", part, "-", part, "-", part}},
			{"five hyphens, the first leading", []interface{}{"-", part, "-", part, "-", part, "-", part, "-", part}},
			{"five hyphens", []interface{}{some, "-", part, "-", part, "-", part, "-", part, "-", part}},
		} {
			r.malformed(fn, "day", sh.what, sh.p)
		}
	}
	// a day and a time of day
	if fn := need("common", "TimeWithYMDString"); fn != nil {
		num := r.w.fn("common", "TimeWithYMD")
		pats := []string{"####|##|##|##:##:##", "-####|##|##|##:##:##", "####|##||00:00:00", "-####|02||23:59:59", "####|||23:59:59", "##|1!|0@|23:59:59", "-##|0@|2#|00:00:00", "#####|01|01|00:00:00"}
		// every width
		for _, y := range []string{"####", "-####", "#", "##", "###", "-#", "-##", "-###"} {
			for _, m := range []string{"", "#", "##"} {
				for _, d := range []string{"", "#", "##"} {
					if m != "" || d == "" {
						pats = append(pats, y+"|"+m+"|"+d+"|00:00:00")
					}
				}
			}
		}
		for _, pat := range pats {
			pat := pat
			r.overPattern("day and time "+pat, pat, func(st *State, s Str, report func(d diff)) {
				i := strings.LastIndexByte(pat, '|')
				ps, ns := pieces(st, pat[:i], Str{s.it[:i]}, '|')
				hms := Str{s.it[i+1:]}
				h, _ := digitsLin(st, hms.it[0:2])
				mi, _ := digitsLin(st, hms.it[3:5])
				sec, _ := digitsLin(st, hms.it[6:8])
				for _, c := range []struct {
					l   Lin
					max int64
				}{{h, 23}, {mi, 59}, {sec, 59}} {
					var rest *State
					for _, w := range st.forkCmp(c.l.plusC(-c.max), opGT) {
						if !w.st.feasible() {
							continue
						}
						if !w.b {
							rest = w.st
							continue
						}
						for _, o := range r.run(w.st, fn, ps[0], ps[1], ps[2], hms) {
							r.oblig++
							if o.panic == nil && isNil(o.v.(Tuple)[1]) {
								report(diff{o.st, r.name(fn), "an error (no such time of day)", "an instant", r.w.src(fn)})
							}
						}
					}
					if st = rest; st == nil {
						return
					}
				}
				sod := h.scale(3600).plus(mi.scale(60)).plus(sec)
				for _, x := range st.dayRefs(ns[0], ns[1], ns[2], false) {
					if !x.st.feasible() {
						continue
					}
					want := instant(x.d, 0)
					want.sod = sod
					check := func(fn *ssa.Function, outs []Ret) {
						for _, o := range outs {
							r.oblig++
							if o.panic != nil {
								report(diff{o.st, r.name(fn), "an instant or an error", "panic: " + o.panic.msg, o.panic.pos})
								continue
							}
							t := o.v.(Tuple)
							switch failed := !isNil(t[1]); {
							case failed && !x.err:
								report(diff{o.st, r.name(fn), "an instant", "an error", r.l.where(o.st, t[1])})
							case !failed && x.err:
								report(diff{o.st, r.name(fn), "an error (no such day)", "an instant", r.w.src(fn)})
							case !failed && isNil(t[0]):
								report(diff{o.st, r.name(fn), "an error or an instant", "neither", r.w.src(fn)})
							case !failed:
								p, ok := t[0].(Ptr)
								if !ok {
									giveUp("the instant of %s is not known", r.name(fn))
								}
								r.sameTime(o.st, fn, r.in.load(o.st, p), want, report)
							}
						}
					}
					check(fn, r.run(x.st.clone(), fn, ps[0], ps[1], ps[2], hms))
					if num != nil && !x.err {
						s2 := x.st.clone()
						p := r.structOf(s2, "", "YMD", map[string]Val{"Year": x.d.y, "Month": x.d.m, "Day": x.d.d})
						check(num, r.run(s2, num, p, hms))
					}
				}
			})
		}
	}
	// years
	flip, ys, bce := need("common", "FlipYear"), need("common", "YearString"), need("common", "TimeToBCE")
	for _, pat := range []string{"####", "-####"} {
		pat := pat
		r.overPattern("year "+pat, pat, func(st *State, s Str, report func(d diff)) {
			_, ns := pieces(st, pat, s, '-')
			y := ns[0]
			if flip != nil {
				for _, o := range answers(r.run(st.clone(), flip, y)) {
					r.sameNum(o.st, flip, "result", o.v, y.scale(-1), report)
				}
			}
			if ys != nil {
				for _, z := range st.clone().forkCmp(y, opEQ) {
					if !z.st.feasible() {
						continue
					}
					want := s
					if z.b && pat[0] == '-' { // minus zero is zero
						want = Str{s.it[1:]}
					}
					for _, o := range answers(r.run(z.st, ys, y)) {
						r.oblig++
						t, ok := o.v.(Str)
						if !ok {
							giveUp("the text of %s is not known", r.name(ys))
						}
						for _, b := range o.st.eqStr(t, want) {
							if !b.b && b.st.feasible() {
								report(diff{b.st, r.name(ys), b.st.show(want), b.st.show(t), r.w.src(ys)})
							}
						}
					}
				}
			}
			if bce == nil {
				return
			}
			for m := int64(1); m <= 12; m++ {
				for _, dl := range st.clone().dim(y, m) {
					if !dl.st.feasible() {
						continue
					}
					w := dl.st
					d := linS(w.newInt(1, w.norm(dl.l).c, "day"))
					sod := linS(w.newInt(0, 86399, "second"))
					t := instant(ymdL{y, linC(m), d}, 0)
					t.sod = sod
					n := *t
					n.y = y.scale(-1)
					for _, o := range r.run(w, bce, t) {
						if o.panic != nil {
							report(diff{o.st, r.name(bce), "an instant", "panic: " + o.panic.msg, o.panic.pos})
							continue
						}
						r.sameTime(o.st, bce, o.v, &n, report)
					}
				}
			}
		})
	}
	r.equalDays()
}

// equalDays: two days are equal exactly when year, month and day are.
func (r *Run) equalDays() {
	// a difference of an imprecise comparison is also looked for next to two equal days
	r.others = func(text string) []string {
		i := strings.IndexByte(text, '|')
		if i < 0 {
			return nil
		}
		a := strings.TrimPrefix(text[:i], "-")
		b := []byte(a)
		var out []string
		for _, x := range []string{"", "-"} {
			for _, y := range []string{"", "-"} {
				out = append(out, x+a+"|"+y+a)
				for j := range b {
					if old := b[j]; old >= '0' && old <= '9' {
						for _, c := range []byte{'0', '1', '2', '3'} {
							b[j] = c
							out = append(out, x+a+"|"+y+string(b), x+string(b)+"|"+y+a)
						}
						b[j] = old
					}
				}
			}
		}
		return out
	}
	defer func() { r.others = nil }()
	for _, k := range []struct {
		pkg, typ string
		text     bool
	}{{"", "YMD", false}, {"common", "StringDate", true}} {
		k := k
		fn := r.w.fn(k.pkg, "*"+k.typ+".Equals")
		if fn == nil {
			r.undec = append(r.undec, "no method "+k.typ+".Equals")
			continue
		}
		for _, pat := range []string{"####-##-##|####-##-##", "-####-1!-0@|-####-1!-0@", "####-1!-0@|-####-1!-0@"} {
			pat := pat
			if k.text && pat[0] != '-' && strings.Contains(pat, "|-") {
				continue // the texts 0000 and -0000
			}
			r.overPattern(k.typ+" "+pat, pat, func(st *State, s Str, report func(d diff)) {
				i := strings.IndexByte(pat, '|')
				pa, na := pieces(st, pat[:i], Str{s.it[:i]}, '-')
				pb, nb := pieces(st, pat[i+1:], Str{s.it[i+1:]}, '-')
				mk := func(p []Str, n []Lin) map[string]Val {
					if k.text {
						return map[string]Val{"Year": p[0], "Month": p[1], "Day": p[2]}
					}
					return map[string]Val{"Year": n[0], "Month": n[1], "Day": n[2]}
				}
				st = st.clone()
				a, b := r.structOf(st, k.pkg, k.typ, mk(pa, na)), r.structOf(st, k.pkg, k.typ, mk(pb, nb))
				for _, o := range r.run(st, fn, a, b) {
					r.oblig++
					if o.panic != nil {
						report(diff{o.st, r.name(fn), "an answer", "panic: " + o.panic.msg, o.panic.pos})
						continue
					}
					got := boolOf(o)
					cur := []*State{o.st.clone()}
					for j := range na {
						var nx []*State
						for _, c := range cur {
							for _, w := range c.forkCmp(na[j].minus(nb[j]), opEQ) {
								if !w.st.feasible() {
									continue
								}
								if w.b {
									nx = append(nx, w.st)
								} else if got {
									report(diff{w.st, r.name(fn), "false", "true", r.w.src(fn)})
								}
							}
						}
						cur = nx
					}
					if !got {
						for _, c := range cur {
							report(diff{c, r.name(fn), "true", "false", r.w.src(fn)})
						}
					}
				}
			})
		}
	}
}

// malformed: texts of a shape must be refused.
func (r *Run) malformed(fn *ssa.Function, aspect, what string, shape []interface{}) {
	what = "malformed text: " + what
	r.guard(what, func() {
		r.budget(60_000_000)
		r.summarised(func() {
			st := r.base.clone()
			var s Str
			for i, p := range shape {
				switch x := p.(type) {
				case string:
					s.it = append(s.it, lit(x).it...)
				case *DFA:
					s.it = append(s.it, st.langStr(x, fmt.Sprintf("part%d", i)).it...)
				}
			}
			lost := ""
			for _, o := range r.run(st, fn, s) {
				r.oblig++
				if o.panic != nil || failed(fn, o) {
					continue
				}
				w := o.st.witness(s)
				es, ok := r.exact(fn, w)
				if !ok || len(es) != 1 || es[0].panic != nil || failed(fn, es[0]) {
					lost = w
					continue
				}
				r.violate(Mismatch{Aspect: aspect, Class: what, Input: w, Field: r.name(fn), Want: "an error", Got: describe(es[0].st, es[0].v.(Tuple)[0]), Where: r.w.src(fn)})
				return
			}
			if lost != "" {
				giveUp("not confirmed for the example itself: an answer for %q", lost)
			}
		})
	})
}

func init() {
	props["C24"] = prop{"The helpers that make calendar days and instants out of years, months and days are interpreted on texts whose digits are unknowns of every width in use, and their outcome is compared with a reference calendar in every part of the partition: an error exactly when there is no such day, otherwise exactly that day or instant. " +
		"Texts that are no numbers, and every shape of malformed text (regular-language domain), must be refused. The equality of days, the sign of years and the text of years are compared in the same way.", checkDays}
}
