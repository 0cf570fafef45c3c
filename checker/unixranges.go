package main

// C16: Unix ranges are the parsed bounds. C17: instants, texts and days agree.

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type diff struct {
	st                     *State
	field, want, got, site string
}

// deriveDiffs compares DeriveRanges with ParseString on the same string in the same state.
func (r *Run) deriveDiffs(fn *ssa.Function, st *State, s Str, marker bool, report func(d diff)) {
	parse := r.l.fn("parser", "ParseString")
	et, rt, dt := r.l.typ("", "EDTFDate"), r.l.typ("", "DateRange"), r.l.typ("", "Date")
	urt, ust := r.l.typ("unix", "DateRange"), r.l.typ("unix", "DateSpan")
	w := r.w.src(fn)
	for _, p := range answers(r.run(st, parse, s)) {
		pt := p.v.(Tuple)
		perr := isNil(pt[0])
		var ts []Lin
		none := false
		if !perr {
			for _, side := range []string{"Start", "End"} {
				rg := r.l.field(p.st, pt[0], et, side)
				for _, b := range []string{"Lower", "Upper"} {
					t := r.l.field(p.st, r.l.field(p.st, rg, rt, b), dt, "Timestamp")
					if isNil(t) {
						none = true
						continue
					}
					c := &Cmp{l: r.l}
					u, ok := c.timestampOf(p.st, t)
					if !ok {
						giveUp("a timestamp that is not known")
					}
					ts = append(ts, u)
				}
			}
		}
		for _, o := range answers(r.run(p.st.clone(), fn, s)) {
			r.oblig++
			if u := doubt(o.st); u != "" {
				giveUp("a result depends on %s", u)
			}
			t := o.v.(Tuple)
			flag, ok := t[0].(bool)
			if !ok {
				giveUp("a success flag that is not known")
			}
			enil, rnil := isNil(t[2]), isNil(t[1])
			got := fmt.Sprintf("flag %v, range %v, error %v", flag, !rnil, !enil)
			switch {
			case marker || !perr && none:
				if flag || !rnil || !enil {
					report(diff{o.st, "outcome without instants", "no range, no flag and no error", got, w})
				}
				continue
			case perr:
				if flag || !rnil || enil {
					report(diff{o.st, "outcome of a string that cannot be parsed", "an error and nothing else", got, w})
				}
				continue
			case !flag || rnil || !enil:
				report(diff{o.st, "outcome", "a range and the success flag", got, w})
				continue
			}
			for _, f := range []struct {
				span, end string
				want      Lin
			}{{"Outer", "Start", ts[0]}, {"Outer", "End", ts[3]}, {"Inner", "Start", ts[1]}, {"Inner", "End", ts[2]}} {
				r.oblig++
				sp := r.l.field(o.st, t[1], urt, f.span)
				if isNil(sp) {
					report(diff{o.st, f.span, "present", "nil", r.l.where(o.st, t[1])})
					continue
				}
				v, ok := r.l.field(o.st, sp, ust, f.end).(Lin)
				if !ok {
					giveUp("%s.%s is not known", f.span, f.end)
				}
				if o.st.eqLin(v, f.want) {
					continue
				}
				if lo, hi := o.st.bounds(v); r.single && lo != hi {
					giveUp("%s.%s is not known exactly", f.span, f.end)
				}
				a, b := o.st.timeOfUnix(v, "UTC"), o.st.timeOfUnix(f.want, "UTC")
				if d := o.st.differTime(a, b); d != nil {
					report(diff{d, f.span + "." + f.end, b.show(d), a.show(d), r.l.where(o.st, sp)})
				}
			}
		}
	}
}

// confirmed runs a comparison on a class and keeps what is found again on the examples.
func (r *Run) confirmed(aspect, what string, mk func() (*State, Str), run func(st *State, s Str, report func(d diff))) {
	r.guard(what, func() {
		r.budget(2 * classBudget)
		st, s := mk()
		var found []Mismatch
		run(st, s, func(d diff) {
			found = append(found, Mismatch{Aspect: aspect, Class: what, Input: d.st.witness(s), Field: d.field, Want: d.want, Got: d.got, Where: d.site})
		})
		done := map[string]bool{}
		lost, tried := "", 0
		for _, m := range found {
			if done[m.Field] || tried >= 20 {
				continue
			}
			tried++
			ok := false
			texts := []string{m.Input}
			if r.others != nil {
				texts = append(texts, r.others(m.Input)...)
			}
			for _, text := range texts {
				r.budget(classBudget)
				st, s := mk()
				if st = st.only(s, text); st == nil {
					continue
				}
				r.single = true
				func() {
					defer func() { r.single = false }()
					exactly(func() {
						run(st, s, func(d diff) {
							if !ok && d.field == m.Field && doubt(d.st) == "" {
								ok = true
								m.Input, m.Want, m.Got = text, d.want, d.got
							}
						})
					})
				}()
				if ok {
					break
				}
			}
			if ok {
				done[m.Field] = true
				r.violate(m)
			} else {
				lost = m.Field + " for " + m.Input
			}
		}
		if lost != "" && len(done) == 0 {
			giveUp("not confirmed for the example itself: %s", lost)
		}
	})
}

// overClasses runs a comparison on every class of the grammar.
func (r *Run) overClasses(aspect string, fams []string, every int, run func(st *State, s Str, report func(d diff))) {
	fm := families(r.all)
	for _, fam := range fams {
		step := len(fm[fam])/3 + 1
		n := 0
		for i, c := range fm[fam] {
			if !r.all && i%every != 0 {
				continue
			}
			c := c
			n++
			r.confirmed(aspect, fam+" "+c.text, func() (*State, Str) {
				st := r.base.clone()
				s, _ := c.build(st)
				return st, s
			}, run)
			if i%step == 0 {
				r.sample(map[string]string{"family": fam, "class": c.text})
			}
		}
		r.counts["classes of strings: "+fam] += n
	}
}

func checkRanges(r *Run) {
	fn := r.w.fn("unix", "DeriveRanges")
	if fn == nil {
		r.undec = append(r.undec, "no function unix.DeriveRanges")
		return
	}
	r.overClasses("unix range", allFams, 1, func(st *State, s Str, report func(d diff)) {
		_, mk := isMarkerStr(st, s)
		r.deriveDiffs(fn, st, s, mk, report)
	})
	for _, m := range []string{"", "..", "open", "uuuu"} {
		m := m
		r.confirmed("unix range", fmt.Sprintf("marker %q", m), func() (*State, Str) {
			return r.base.clone(), lit(m)
		}, func(st *State, s Str, report func(d diff)) { r.deriveDiffs(fn, st, s, true, report) })
	}
	// strings that cannot be parsed
	r.summarised(func() {
		r.confirmed("unix range", "any string outside of the grammar", func() (*State, Str) {
			st := r.base.clone()
			d := patDFA(`(?s:.*)`)
			for _, f := range features {
				d = d.Minus(f.lang())
			}
			for _, m := range []string{"", "..", "open", "uuuu"} {
				d = d.Minus(dfaLit(m))
			}
			return st, st.langStr(d, "text")
		}, func(st *State, s Str, report func(d diff)) { r.deriveDiffs(fn, st, s, false, report) })
	})
}

// accessors: Lower and Upper of results.
func (r *Run) accessorDiffs(st *State, s Str, report func(d diff)) {
	parse := r.l.fn("parser", "ParseString")
	et, rt, dt := r.l.typ("", "EDTFDate"), r.l.typ("", "DateRange"), r.l.typ("", "Date")
	for _, p := range answers(r.run(st, parse, s)) {
		pt := p.v.(Tuple)
		if isNil(pt[0]) {
			continue
		}
		for _, a := range []struct{ m, side, bound string }{{"Lower", "Start", "Lower"}, {"Upper", "End", "Upper"}} {
			fn := r.l.fn("", "*EDTFDate."+a.m)
			d := r.l.field(p.st, r.l.field(p.st, pt[0], et, a.side), rt, a.bound)
			t := r.l.field(p.st, d, dt, "Timestamp")
			for _, o := range r.run(p.st.clone(), fn, pt[0]) {
				r.oblig++
				if o.panic != nil {
					report(diff{o.st, a.m, "an instant or an error", "panic: " + o.panic.msg, o.panic.pos})
					continue
				}
				if u := doubt(o.st); u != "" {
					giveUp("a result depends on %s", u)
				}
				tp := o.v.(Tuple)
				if isNil(t) {
					if !isNil(tp[0]) || isNil(tp[1]) {
						report(diff{o.st, a.m, "an error (the date has no instant)", describe(o.st, tp), r.w.src(fn)})
					} else if k := r.l.errKind(o.st, tp[1]); k != "NotSetError" {
						report(diff{o.st, a.m + " error kind", "NotSetError", k, r.l.where(o.st, tp[1])})
					}
					continue
				}
				if isNil(tp[0]) || !isNil(tp[1]) {
					report(diff{o.st, a.m, "an instant", "an error", r.l.where(o.st, tp[1])})
					continue
				}
				c := &Cmp{l: r.l}
				u, ok := c.timestampOf(o.st, t)
				got, ok2 := r.in.load(o.st, tp[0].(Ptr)).(*TimeV)
				if !ok || !ok2 {
					giveUp("an instant that is not known")
				}
				want := o.st.timeOfUnix(u, "UTC")
				if x := o.st.differTime(got, want); x != nil {
					report(diff{x, a.m, want.show(x), got.show(x), r.w.src(fn)})
				}
				if z := got.zone; z != "UTC" {
					report(diff{o.st, a.m + " zone", "UTC", z, r.w.src(fn)})
				}
			}
		}
	}
}

// jsonNames: the JSON form of every type that is part of a result.
func (r *Run) jsonNames() {
	want := map[string]map[string]string{
		"EDTFDate":  {"Start": "start", "End": "end", "EDTF": "edtf", "Level": "level", "Feature": "feature"},
		"DateRange": {"EDTF": "edtf", "Lower": "lower", "Upper": "upper"},
		"DateSpan":  {"Start": "start", "End": "end"},
		"Date": {"DateTime": "datetime", "Timestamp": "timestamp", "YMD": "ymd", "Uncertain": "uncertain", "Approximate": "approximate",
			"Unspecified": "unspecified", "Precision": "precision", "Open": "open", "Unknown": "unknown", "Inclusivity": "inclusivity"},
		"YMD": {"Year": "year", "Month": "month", "Day": "day"},
	}
	for _, tn := range sortedKeys(want) {
		tn := tn
		r.guard("JSON names of "+tn, func() {
			t := r.l.typ("", tn)
			at := r.w.pos(r.w.byPath[r.w.modPath].Pkg.Scope().Lookup(tn).Pos())
			for _, ptr := range []types.Type{t, types.NewPointer(t)} {
				for _, m := range []string{"MarshalJSON", "MarshalText"} {
					if types.NewMethodSet(ptr).Lookup(nil, m) != nil {
						giveUp("%s has a method %s", tn, m)
					}
				}
			}
			s := t.Underlying().(*types.Struct)
			used := map[string]string{}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				name, opts := tagName(f, s.Tag(i))
				if !f.Exported() || f.Embedded() {
					if f.Embedded() {
						giveUp("%s embeds %s", tn, f.Name())
					}
					continue
				}
				r.oblig++
				if name == "-" {
					r.violatef("json", at, tn+"."+f.Name()+" in the JSON form", "left out")
					continue
				}
				if o := used[name]; o != "" {
					r.violatef("json", at, tn+"."+f.Name()+" under a name of its own", "the same name as "+o+": "+name)
				}
				used[name] = f.Name()
				if w, ok := want[tn][f.Name()]; ok && w != name {
					r.violatef("json", at, tn+"."+f.Name()+" as "+w, name)
				}
				if opts["string"] {
					r.violatef("json", at, tn+"."+f.Name()+" in its own type", "quoted as a string")
				}
				if tn == "Date" && f.Name() == "Timestamp" {
					if !opts["omitempty"] && !opts["omitzero"] {
						r.violatef("json", at, "an absent timestamp left out", "no omitempty")
					}
				}
				if opts["omitempty"] {
					// what omitempty leaves out is the zero value, which decodes to itself
					continue
				}
			}
			r.counts["JSON fields"] += s.NumFields()
		})
	}
}

func tagName(f *types.Var, tag string) (string, map[string]bool) {
	v := reflect.StructTag(tag).Get("json")
	opts := map[string]bool{}
	name := v
	for i, c := range v {
		if c == ',' {
			name = v[:i]
			start := i + 1
			for j := start; j <= len(v); j++ {
				if j == len(v) || v[j] == ',' {
					opts[v[start:j]] = true
					start = j + 1
				}
			}
			break
		}
	}
	if name == "" {
		name = f.Name()
	}
	if v == "-" {
		name = "-"
	}
	return name, opts
}

// timestampJSON: encoding and decoding a timestamp are inverse.
func (r *Run) timestampJSON() {
	r.guard("Timestamp JSON round trip", func() {
		r.budget(classBudget)
		mk := r.l.fn("", "NewTimestampWithTime")
		tt := r.l.typ("", "Timestamp")
		enc := r.l.fn("", "Timestamp.MarshalJSON")
		dec := r.l.fn("", "*Timestamp.UnmarshalJSON")
		unix := r.l.fn("", "*Timestamp.Unix")
		// outcomes encodes and decodes a number in every outcome
		outcomes := func(st *State, n Lin, report func(st *State, at, want, got string)) {
			t := r.in.zeroVal(tt)
			p := Ptr{obj: r.in.newObj(st, t, tt)}
			q := Ptr{obj: r.in.newObj(st, r.in.zeroVal(tt), tt)}
			r.setTimestamp(st, p, mk, n)
			for _, e := range r.run(st, enc, r.in.load(st, p)) {
				r.oblig++
				if e.panic != nil {
					report(e.st, r.w.src(enc), "the JSON form", "panic: "+e.panic.msg)
					continue
				}
				et := e.v.(Tuple)
				if !isNil(et[1]) {
					for _, ev := range e.st.events {
						if ev.kind == "json error" {
							giveUp("the encoder of the standard library may fail")
						}
					}
					report(e.st, r.w.src(enc), "the JSON form", "an error")
					continue
				}
				if u := unmodelled(e.st); u != "" {
					giveUp("a result depends on %s", u)
				}
				for _, d := range r.run(e.st, dec, q, et[0]) {
					r.oblig++
					if u := unmodelled(d.st); u != "" {
						giveUp("a result depends on %s", u)
					}
					if d.panic != nil || !isNil(d.v) {
						report(d.st, r.w.src(dec), "the timestamp of "+describe(d.st, et[0]), "an error or panic")
						continue
					}
					for _, u := range r.run(d.st, unix, q) {
						got, ok := u.v.(Lin)
						if !ok {
							giveUp("the decoded number is not known")
						}
						if !u.st.eqLin(got, n) {
							for _, w := range u.st.forkCmp(got.minus(n), opNE) {
								if w.b && w.st.feasible() {
									report(w.st, r.w.src(dec), describe(w.st, n), describe(w.st, got))
									break
								}
							}
						}
					}
				}
			}
		}
		lost, found := "", false
		for _, neg := range []bool{false, true} {
			for digits := 1; digits <= 12; digits++ {
				st := r.base.clone()
				lo, hi := pow10(digits-1), pow10(digits)-1
				if digits == 1 {
					lo = 0
				}
				if neg {
					lo, hi = -hi, -lo
				}
				if neg && digits == 1 {
					hi = -1
				}
				var n Lin
				var ids []SymID
				for i := 0; i < digits; i++ {
					id := st.newCell(csRange('0', '9'), "digit")
					ids = append(ids, id)
					n = n.scale(10).plus(linS(id))
				}
				if neg {
					n = n.scale(-1)
				}
				if !st.assumeRange(n, lo, hi) {
					giveUp("no such numbers")
				}
				tried := 0
				outcomes(st, n, func(st *State, at, want, got string) {
					if found || tried > 20 {
						return
					}
					tried++
					as, _, _ := st.solve(ids, 100000)
					v := int64(0)
					for _, id := range ids {
						v = v*10 + as[id]
					}
					if neg {
						v = -v
					}
					exactly(func() {
						outcomes(r.base.clone(), linC(v), func(st *State, at, want, got string) {
							if !found && doubt(st) == "" {
								found = true
								r.violate(Mismatch{Aspect: "json", Field: "json", Input: fmt.Sprintf("the timestamp %d", v), Want: want, Got: got, Where: at})
							}
						})
					})
					if !found {
						lost = fmt.Sprint(v)
					}
				})
				if found {
					return
				}
			}
		}
		if lost != "" {
			giveUp("not confirmed for the example itself: %s", lost)
		}
	})
}

// setTimestamp makes a timestamp hold a number of seconds, through its one integer field.
func (r *Run) setTimestamp(st *State, p Ptr, mk *ssa.Function, n Lin) {
	s, ok := r.l.typ("", "Timestamp").Underlying().(*types.Struct)
	if !ok || s.NumFields() != 1 {
		giveUp("Timestamp is not a single number")
	}
	if b, ok := s.Field(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int64 {
		giveUp("Timestamp is not a single number")
	}
	r.in.store(st, p.field(0), n)
}

func init() {
	props["C16"] = prop{"unix.DeriveRanges and parser.ParseString are interpreted one after the other on the same abstract string; in every outcome of the one, the range of the other must hold the Unix seconds of the four bounds in the documented places, or nothing when a bound has no instant, or an error when the string cannot be parsed. Run for every class of the grammar, the four markers, and any string outside of the grammar.", checkRanges}
	props["C17"] = prop{"In every successful outcome of every class of the grammar, the datetime text of each bound is compared with the RFC 3339 UTC rendering of its timestamp and its year-month-day with the civil fields of the timestamp; EDTFDate.Lower and Upper are interpreted on the result and compared with the bounds. The JSON names are read from the type-checked struct tags; Timestamp.MarshalJSON followed by UnmarshalJSON is interpreted for every number of up to 12 digits.", func(r *Run) {
		r.sweep(allFams, []string{aCoher, aPresent}, func(s *Sweep) { s.general = true; s.direct = r.all })
		r.overClasses("accessor", allFams, 3, r.accessorDiffs)
		r.jsonNames()
		r.timestampJSON()
	}}
}
