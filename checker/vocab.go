package main

// C19: month lengths. C22: marker vocabulary. C23: precision flags.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C19 ----------

// monthDiffs compares a function giving (days, error) with the reference for year y and month m.
func (r *Run) monthDiffs(fn *ssa.Function, outs []Ret, y Lin, m int64, report func(st *State, want, got, where string)) {
	for _, o := range outs {
		if u := unmodelled(o.st); u != "" {
			giveUp("a result depends on %s", u)
		}
		r.oblig++
		if o.panic != nil {
			report(o.st, "a number of days", "panic: "+o.panic.msg, o.panic.pos)
			continue
		}
		t := o.v.(Tuple)
		if !isNil(t[1]) {
			report(o.st, "a number of days", "an error", r.l.where(o.st, t[1]))
			continue
		}
		got, ok := t[0].(Lin)
		if !ok {
			giveUp("the number of days is not known")
		}
		for _, w := range o.st.clone().dim(y, m) {
			if !w.st.feasible() || w.st.eqLin(got, w.l) {
				continue
			}
			for _, x := range w.st.forkCmp(got.minus(w.l), opNE) {
				if x.b && x.st.feasible() {
					report(x.st, describe(x.st, w.l), describe(x.st, got), r.w.src(fn))
					break
				}
			}
		}
	}
}

// months decides a month of an interval of years; a difference has to show for one of these years.
func (r *Run) months(what string, fn *ssa.Function, lo, hi, m int64, args func(st *State, y *int64) (Lin, []Val), shown func(y int64) string) {
	r.guard(what, func() {
		r.budget(20_000_000)
		st := r.base.clone()
		y, a := args(st, nil)
		var years []int64
		r.monthDiffs(fn, r.run(st, fn, a...), y, m, func(st *State, _, _, _ string) {
			var ids []SymID
			for _, t := range st.norm(y).t {
				ids = append(ids, t.s)
			}
			as, _, _ := st.solve(ids, 100000)
			n := st.norm(y)
			v := n.c
			for _, t := range n.t {
				v += t.k * as[t.s]
			}
			years = append(years, v)
		})
		if len(years) == 0 {
			return
		}
		for _, c := range []int64{2000, 1900, 1600, 2024, 2023, 4, 100, 400, 1, 0, 9996, 9999, 8000} {
			years = append(years, c, -c)
		}
		for _, v := range years {
			if v < lo || v > hi {
				continue
			}
			v, found := v, false
			exactly(func() {
				st := r.base.clone()
				y, a := args(st, &v)
				r.monthDiffs(fn, r.run(st, fn, a...), y, m, func(st *State, want, got, where string) {
					if !found && doubt(st) == "" {
						found = true
						r.violate(Mismatch{Aspect: "month length", Class: what, Input: shown(v), Field: r.name(fn), Want: want, Got: got, Where: where})
					}
				})
			})
			if found {
				return
			}
		}
		giveUp("not confirmed for the example itself: year %d", years[0])
	})
}

func checkMonths(r *Run) {
	num, txt := r.w.fn("calendar", "DaysInMonth"), r.w.fn("calendar", "DaysInMonthWithString")
	if num == nil || txt == nil {
		r.undec = append(r.undec, "no calendar.DaysInMonth or calendar.DaysInMonthWithString")
		return
	}
	for m := int64(1); m <= 12; m++ {
		m := m
		for _, g := range []struct{ lo, hi int64 }{{-9999, -1}, {0, 0}, {1, 9998}, {9999, 9999}} {
			g := g
			r.months(fmt.Sprintf("years %d to %d, month %d", g.lo, g.hi, m), num, g.lo, g.hi, m, func(st *State, v *int64) (Lin, []Val) {
				y := linC(g.lo)
				if v != nil {
					y = linC(*v)
				} else if g.lo != g.hi {
					y = linS(st.newInt(g.lo, g.hi, "year"))
				}
				return y, []Val{y, linC(m)}
			}, func(y int64) string { return fmt.Sprintf("%d, %d", y, m) })
			r.counts["years and months given as numbers"] += int(g.hi - g.lo + 1)
		}
		for _, sign := range []string{"", "-"} {
			sign := sign
			text := fmt.Sprintf("%s####-%02d", sign, m)
			lo, hi := int64(0), int64(9999)
			if sign != "" {
				lo, hi = -9999, 0
			}
			shown := func(y int64) string {
				if y < 0 {
					y = -y
				}
				return fmt.Sprintf("%s%04d-%02d", sign, y, m)
			}
			r.months(text, txt, lo, hi, m, func(st *State, v *int64) (Lin, []Val) {
				if v != nil {
					return linC(*v), []Val{lit(shown(*v))}
				}
				s := buildStr(st, text)
				y, ok := digitsLin(st, s.it[len(sign):len(sign)+4])
				if !ok {
					giveUp("no digits in %s", text)
				}
				if sign != "" {
					y = y.scale(-1)
				}
				return y, []Val{s}
			}, shown)
			r.counts["year-month texts"] += 10000
		}
		r.sample(map[string]string{"month": fmt.Sprint(m), "years": "-9999..9999 as numbers and texts"})
	}
	// malformed text: no year and month
	part, num0, mon := patDFA(`[^-]*`), patDFA(`[+]?[0-9]+`), patDFA(`[+]?[0-9]+`)
	yyyy, mm, dd := patDFA(`[0-9]{4}`), patDFA(`0[1-9]|1[0-2]`), patDFA(`0[1-9]|[12][0-9]|3[01]`)
	type pieces []interface{}
	for _, sh := range []struct {
		what string
		p    pieces
	}{
		// a year and a month that exist, and something else around them
		{"a day", pieces{yyyy, "-", mm, "-", dd}},
		{"a day and a sign", pieces{"-", yyyy, "-", mm, "-", dd}},
		{"text before a sign", pieces{part.Minus(dfaWord("")), "-", yyyy, "-", mm}},
		{"text after a month", pieces{yyyy, "-", mm, patDFA(`[^0-9-]+`)}},
		{"a hyphen after a month", pieces{yyyy, "-", mm, "-"}},
		{"text before a year", pieces{patDFA(`[^0-9+-]+`), yyyy, "-", mm}},
		{"two signs", pieces{"-", "-", yyyy, "-", mm}},
		{"no hyphen", pieces{part}},
		{"one hyphen, no year", pieces{part.Minus(num0), "-", part}},
		{"one hyphen, no month", pieces{num0, "-", part.Minus(mon)}},
		{"text before the first of two hyphens", pieces{part.Minus(dfaWord("")), "-", part, "-", part}},
		{"two hyphens, no year", pieces{"-", part.Minus(patDFA(`[0-9]+`)), "-", part}},
		{"two hyphens, no month", pieces{"-", num0, "-", part.Minus(mon)}},
		{"three hyphens", pieces{part, "-", part, "-", part, "-", part}},
		{"four hyphens", pieces{part, "-", part, "-", part, "-", part, "-", part}},
	} {
		sh := sh
		what := "malformed text: " + sh.what
		r.guard(what, func() {
			r.budget(60_000_000)
			r.summarised(func() {
				st := r.base.clone()
				var s Str
				for i, p := range sh.p {
					switch x := p.(type) {
					case string:
						s.it = append(s.it, lit(x).it...)
					case *DFA:
						s.it = append(s.it, st.langStr(x, fmt.Sprintf("part%d", i)).it...)
					}
				}
				lost := ""
				for _, o := range r.run(st, txt, s) {
					r.oblig++
					if o.panic != nil || !isNil(o.v.(Tuple)[1]) {
						continue
					}
					w := o.st.witness(s)
					es, ok := r.exact(txt, w)
					if !ok || len(es) != 1 || es[0].panic != nil || !isNil(es[0].v.(Tuple)[1]) {
						lost = w
						continue
					}
					r.violate(Mismatch{Aspect: "month length", Class: what, Input: w, Field: r.name(txt), Want: "an error", Got: describe(es[0].st, es[0].v.(Tuple)[0]), Where: r.w.src(txt)})
					return
				}
				if lost != "" {
					giveUp("not confirmed for the example itself: an answer for %q", lost)
				}
			})
		})
	}
	// errors carry no number
	r.guard("text outside of the range of years", func() {
		r.budget(20_000_000)
		st := r.base.clone()
		s := st.langStr(patDFA(`-?[0-9]{4}-(?:00|1[3-9]|[2-9][0-9])`), "text")
		r.summarised(func() {
			for _, o := range r.run(st, txt, s) {
				r.oblig++
				if o.panic == nil && isNil(o.v.(Tuple)[1]) {
					w := o.st.witness(s)
					if es, ok := r.exact(txt, w); ok && len(es) == 1 && es[0].panic == nil && isNil(es[0].v.(Tuple)[1]) {
						r.violate(Mismatch{Aspect: "month length", Class: "months that do not exist", Input: w, Field: r.name(txt), Want: "an error", Got: describe(es[0].st, es[0].v.(Tuple)[0]), Where: r.w.src(txt)})
						return
					}
					giveUp("not confirmed for the example itself: an answer for %q", w)
				}
			}
		})
	})
}

// ---------- C22 ----------

func checkMarkers(r *Run) {
	words := func(ws ...string) *DFA {
		d := dfaWord(ws[0])
		for _, w := range ws[1:] {
			d = d.Or(dfaWord(w))
		}
		return d
	}
	for _, p := range []struct {
		name string
		lang *DFA
	}{
		{"IsOpen", words("..", "open")},
		{"IsUnspecified", words("", "uuuu")},
		{"IsUnknown", words("", "uuuu")},
		{"IsDeprecated", words("open", "uuuu")},
	} {
		fn := r.w.fn("", p.name)
		if fn == nil {
			r.undec = append(r.undec, "no function "+p.name)
			continue
		}
		r.decideAlways(fn, p.lang, "the markers of "+p.name)
	}
	fn := r.w.fn("", "ReplaceDeprecated")
	if fn == nil {
		r.undec = append(r.undec, "no function ReplaceDeprecated")
		return
	}
	for old, now := range map[string]string{"open": "..", "uuuu": ""} {
		old, now := old, now
		r.guard("replacement of "+old, func() {
			r.eachOrder(func() {
				outs, ok := r.exact(fn, old)
				if !ok || len(outs) == 0 {
					giveUp("%s could not be evaluated precisely for %q", r.name(fn), old)
				}
				for _, o := range outs {
					r.oblig++
					bad := func(got string) {
						r.violate(Mismatch{Aspect: "marker", Class: "deprecated markers", Input: old, Field: r.name(fn), Want: fmt.Sprintf("%q", now), Got: got, Where: r.w.src(fn)})
					}
					if o.panic != nil {
						bad("panic: " + o.panic.msg)
						continue
					}
					t := o.v.(Tuple)
					if !isNil(t[1]) {
						bad("an error")
						continue
					}
					s, ok := t[0].(Str)
					if !ok {
						giveUp("the replacement is not known")
					}
					if o.st.only(s, now) == nil {
						bad(fmt.Sprintf("%q", o.st.witness(s)))
					}
				}
			})
		})
	}
	r.guard("replacement of any other string", func() {
		r.budget(20_000_000)
		r.eachOrder(func() {
			st := r.base.clone()
			s := st.langStr(patDFA(`(?s:.*)`).Minus(words("open", "uuuu")), "text")
			for _, o := range r.run(st, fn, s) {
				r.oblig++
				if o.panic == nil && !isNil(o.v.(Tuple)[1]) {
					continue
				}
				w := o.st.witness(s)
				es, ok := r.exact(fn, w)
				if !ok || len(es) != 1 || es[0].panic == nil && !isNil(es[0].v.(Tuple)[1]) {
					giveUp("not confirmed for the example itself: an answer for %q", w)
				}
				got := "a result"
				if es[0].panic != nil {
					got = "panic: " + es[0].panic.msg
				}
				r.violate(Mismatch{Aspect: "marker", Class: "strings that are not deprecated", Input: w, Field: r.name(fn), Want: "an error", Got: got, Where: r.w.src(fn)})
				return
			}
		})
	})
	// the published spellings
	for _, c := range []struct{ name, want string }{{"OPEN", ".."}, {"OPEN_2012", "open"}, {"UNSPECIFIED", ""}, {"UNSPECIFIED_2012", "uuuu"}, {"UNKNOWN", ""}, {"UNKNOWN_2012", "uuuu"},
		{"UNCERTAIN", "?"}, {"APPROXIMATE", "~"}, {"UNCERTAIN_AND_APPROXIMATE", "%"}, {"NEGATIVE", "-"}} {
		c := c
		r.guard("constant "+c.name, func() {
			o := r.w.byPath[r.w.modPath].Pkg.Scope().Lookup(c.name)
			k, ok := o.(*types.Const)
			if !ok {
				giveUp("no constant %s", c.name)
			}
			r.oblig++
			if got := k.Val().ExactString(); got != fmt.Sprintf("%q", c.want) {
				r.violatef("marker", r.w.pos(k.Pos()), fmt.Sprintf("%s %q", c.name, c.want), got)
			}
		})
	}
}

// decideAlways decides a predicate for both orders of map iteration.
func (r *Run) decideAlways(fn *ssa.Function, lang *DFA, what string) {
	r.eachOrder(func() { r.decidePredicate(fn, lang, what) })
}

// ---------- C23 ----------

func checkFlags(r *Run) {
	vals := []struct {
		name string
		v    int64
	}{{"NONE", 0}, {"ALL", 2}, {"ANY", 4}, {"DAY", 8}, {"WEEK", 16}, {"MONTH", 32}, {"YEAR", 64}, {"DECADE", 128}, {"CENTURY", 256}, {"MILLENIUM", 512}}
	for _, c := range vals {
		c := c
		r.guard("constant "+c.name, func() {
			o := r.w.byPath[r.w.modPath].Pkg.Scope().Lookup(c.name)
			k, ok := o.(*types.Const)
			if !ok {
				giveUp("no constant %s", c.name)
			}
			r.oblig++
			if got := k.Val().ExactString(); got != fmt.Sprint(c.v) {
				r.violatef("flag", r.w.pos(k.Pos()), fmt.Sprintf("%s = %d", c.name, c.v), got)
			}
		})
	}
	method := func(n string) *ssa.Function {
		if f := r.w.fn("", "*Precision."+n); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			return f
		}
		if f := r.w.fn("", "Precision."+n); f != nil {
			return f
		}
		return nil
	}
	pt := func() types.Type { return r.l.typ("", "Precision") }
	// bits of a flag set: every 32-bit set
	combo := func(st *State) ([]SymID, Lin) {
		var l Lin
		var ids []SymID
		for i := 0; i < 32; i++ {
			s := st.newInt(0, 1, fmt.Sprintf("bit%d", i))
			ids = append(ids, s)
			l = l.plus(linS(s).scale(1 << uint(i)))
		}
		return ids, l
	}
	// flag arguments: none, each bit, and every combination of the published flags
	masks := []int64{0}
	for i := 0; i < 32; i++ {
		masks = append(masks, 1<<uint(i))
	}
	for k := int64(1); k < 512; k++ {
		if v := k << 1; v&(v-1) != 0 {
			masks = append(masks, v)
		}
	}
	masks = append(masks, 1<<32-1)
	flagName := func(v int64) string {
		for _, c := range vals {
			if c.v == v {
				return c.name
			}
		}
		return fmt.Sprint(v)
	}
	for _, m := range []string{"HasFlag", "AddFlag", "ClearFlag", "ToggleFlag", "IsAnnual", "IsMonthly", "IsDaily"} {
		m := m
		fn := method(m)
		if fn == nil {
			r.undec = append(r.undec, "no method Precision."+m)
			continue
		}
		query := m == "HasFlag" || strings.HasPrefix(m, "Is")
		flags := masks
		switch m {
		case "IsAnnual":
			flags = []int64{64}
		case "IsMonthly":
			flags = []int64{32}
		case "IsDaily":
			flags = []int64{8}
		}
		found := 0
		for _, f := range flags {
			f := f
			if found > 3 {
				break
			}
			r.guard(m+" "+flagName(f), func() {
				r.budget(20_000_000)
				// a loop over the 32 bits may branch on each of them
				defer func(n int) { r.in.unroll = n }(r.in.unroll)
				r.in.unroll = 40
				st := r.base.clone()
				ids, set := combo(st)
				violate := func(m Mismatch) {
					found++
					r.violate(m)
				}
				p := Ptr{obj: r.in.newObj(st, set, pt())}
				var args []Val
				if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
					args = append(args, p)
				} else {
					args = append(args, set)
				}
				if !strings.HasPrefix(m, "Is") {
					args = append(args, linC(f))
				}
				if len(fn.Params) != len(args) {
					giveUp("%s does not take %d arguments", m, len(args))
				}
				// bad: a difference for all sets has to show for one of them
				bad := func() {
					if !r.flagExample(m, fn, f, pt(), violate) {
						giveUp("not confirmed for one set")
					}
				}
				for _, o := range r.run(st, fn, args...) {
					r.oblig++
					if u := unmodelled(o.st); u != "" {
						giveUp("a result depends on %s", u)
					}
					if o.panic != nil {
						bad()
						return
					}
					if query {
						b, ok := o.v.(bool)
						if !ok {
							giveUp("the answer is not known")
						}
						// shared is the number of flags that the set and the argument share
						shared := Lin{}
						for i, id := range ids {
							if f&(1<<uint(i)) != 0 {
								shared = shared.plus(linS(id))
							}
						}
						for _, x := range o.st.forkCmp(shared, opNE) {
							if x.b != b && x.st.feasible() {
								bad()
								return
							}
						}
						// asking changes nothing
						got, ok := r.in.load(o.st, p).(Lin)
						if !ok || !o.st.eqLin(got, set) {
							bad()
							return
						}
						continue
					}
					got, ok := r.in.load(o.st, p).(Lin)
					if !ok {
						giveUp("the resulting set is not known")
					}
					var want Lin
					for i, id := range ids {
						b := linS(id)
						if f&(1<<uint(i)) != 0 {
							switch m {
							case "AddFlag":
								b = linC(1)
							case "ClearFlag":
								b = linC(0)
							default:
								b = linC(1).minus(b)
							}
						}
						want = want.plus(b.scale(1 << uint(i)))
					}
					if o.st.eqLin(got, want) {
						continue
					}
					for _, x := range o.st.forkCmp(got.minus(want), opNE) {
						if !x.b || !x.st.feasible() {
							continue
						}
						bad()
						return
					}
				}
				r.counts["bits of a set"] = 32
				r.counts["methods and flags"]++
			})
		}
	}
	r.sample(map[string]string{"sets": "every 32-bit set", "flags": "none, each of the 32 bits, all of them, and every combination of the published ones"})
}

// flagExample looks for a set on which a difference found for all sets shows: the parts of the
// argument, and their complements.
func (r *Run) flagExample(m string, fn *ssa.Function, f int64, t types.Type, violate func(m Mismatch)) bool {
	all := int64(1<<32 - 1)
	sets := []int64{0, f, all, all &^ f}
	n := 0
	for s := f & (f - 1); s != f && n < 64; n++ {
		sets = append(sets, s, s|all&^f)
		if s == 0 {
			break
		}
		s = (s - 1) & f
	}
	for i := uint(0); i < 32; i++ {
		sets = append(sets, 1<<i)
	}
	mutator := m == "AddFlag" || m == "ClearFlag" || m == "ToggleFlag"
	for _, set := range sets {
		want, ok := map[string]int64{"AddFlag": set | f, "ClearFlag": set &^ f, "ToggleFlag": set ^ f}[m]
		if !ok {
			want = set // asking changes nothing
		}
		st := r.base.clone()
		p := Ptr{obj: r.in.newObj(st, linC(set), t)}
		args := []Val{linC(set)}
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			args[0] = p
		}
		if !strings.HasPrefix(m, "Is") {
			args = append(args, linC(f))
		}
		var es []Ret
		exactly(func() { es = r.run(st, fn, args...) })
		for _, e := range es {
			if doubt(e.st) != "" {
				continue
			}
			bad := func(want, got string) bool {
				violate(Mismatch{Aspect: "flag", Class: "every combination of flags", Input: fmt.Sprintf("set %d, flag %d", set, f), Field: m, Want: want, Got: got, Where: r.w.src(fn)})
				return true
			}
			if e.panic != nil {
				return bad("an answer", "panic: "+e.panic.msg)
			}
			if b, ok := e.v.(bool); ok && !mutator && b != (set&f != 0) {
				return bad(fmt.Sprint(!b), fmt.Sprint(b))
			}
			if got, ok := r.in.load(e.st, p).(Lin); ok {
				if lo, hi := e.st.bounds(got); lo == hi && lo != want {
					return bad(fmt.Sprint(want), fmt.Sprint(lo))
				}
			}
		}
	}
	return false
}

// eachOrder runs f for both orders of iteration over maps, when something iterates over one.
func (r *Run) eachOrder(f func()) {
	f()
	if r.in.mapRange {
		r.in.mapOrder = 1
		defer func() { r.in.mapOrder = 0 }()
		f()
	}
}

func init() {
	props["C19"] = prop{"calendar.DaysInMonth is interpreted for each month with an unknown year in the interval -9999..9999 and compared with the proleptic Gregorian month length (leap years as residues modulo 400 of the absolute year); calendar.DaysInMonthWithString likewise on the texts ####-MM and -####-MM with unknown digits, and on the regular language of all other texts, where every outcome must be an error.", checkMonths}
	props["C22"] = prop{"IsOpen, IsUnspecified, IsUnknown and IsDeprecated are interpreted on their marker language, where every outcome must be true, and on its complement, where every outcome must be false; ReplaceDeprecated on each deprecated spelling and on the language of all other strings, for both orders of iteration over the table. The published spellings are read from the type-checked constants.", checkMarkers}
	props["C23"] = prop{"The flag methods are interpreted on a vector of 32 unknown bits (every set) for each single flag, no flag, all bits, and every combination of the published flags as argument; the resulting vector, or answer, is compared bit by bit. The constants are read from the type-checked program.", checkFlags}
}
