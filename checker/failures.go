package main

// C14: results and errors are mutually exclusive, and no error is lost.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// returnsError tells whether the last of several results is an error.
func returnsError(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type())
}

// exclusive tells what is wrong with the results of a function (empty: nothing).
func (r *Run) exclusive(fn *ssa.Function, o Ret) (want, got string) {
	t, ok := o.v.(Tuple)
	if !ok {
		return "", ""
	}
	res := fn.Signature.Results()
	enil := isNil(t[len(t)-1])
	flag, hasFlag := false, false
	for i := 0; i < len(t)-1; i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Basic:
			if b, ok := t[i].(bool); ok {
				flag, hasFlag = b, true
			}
		}
	}
	if !enil && flag {
		return "no answer with the error", "true and an error"
	}
	if fn.Name() == "Matches" && enil {
		for _, v := range t[:len(t)-1] {
			if s, ok := v.(Str); ok && len(o.st.flatten(s.it)) == 0 {
				return "a level and a feature, or an error", "neither"
			}
			if l, ok := v.(Lin); ok {
				if _, hi := o.st.bounds(l); hi < 0 {
					return "a level and a feature, or an error", "neither"
				}
			}
		}
	}
	for i := 0; i < len(t)-1; i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			n := isNil(t[i])
			switch {
			case !enil && !n:
				return "a result or an error, not both", "a result and an error"
			case enil && n && (!hasFlag || flag):
				return "a result or an error", "neither"
			case enil && !n && hasFlag && !flag:
				return "a result only with the success flag", "a result without it"
			}
		}
	}
	return "", ""
}

// exclusiveOn decides a function for every argument.
func (r *Run) exclusiveOn(fn *ssa.Function, what string, langs []*DFA, mustFail bool) {
	r.guard(what, func() {
		r.budget(60_000_000)
		st := r.base.clone()
		args, in := r.anyArgs(st, fn, nil)
		if langs != nil {
			st, args, in = r.base.clone(), nil, nil
			for i, d := range langs {
				s := st.langStr(d, fmt.Sprintf("text%d", i))
				in = append(in, s)
			}
			args, _ = r.fill(st, fn, in)
		}
		outs := r.run(st, fn, args...)
		lost, done := "", map[string]bool{}
		for _, o := range outs {
			r.oblig++
			if o.panic != nil {
				continue // C01
			}
			want, got := r.exclusive(fn, o)
			if want == "" && mustFail && !failed(fn, o) {
				want, got = "an error", "a result"
			}
			if want == "" || done[want] {
				continue
			}
			var ws []string
			for _, s := range in {
				ws = append(ws, o.st.witness(s))
			}
			ok := false
			old, oldc := r.in.summary, coarseRender
			r.in.summary, coarseRender = false, false
			r.budget(classBudget)
			c := r.base.clone()
			var cs []Str
			for _, w := range ws {
				cs = append(cs, lit(w))
			}
			a, _ := r.fill(c, fn, cs)
			var es []Ret
			exactly(func() { es = r.run(c, fn, a...) })
			for _, e := range es {
				if e.panic != nil || doubt(e.st) != "" {
					continue
				}
				w, _ := r.exclusive(fn, e)
				if w == "" && mustFail && !failed(fn, e) {
					w = "an error"
				}
				ok = ok || w == want
			}
			r.in.summary, coarseRender = old, oldc
			if !ok {
				lost = fmt.Sprintf("%s for %q", got, ws)
				continue
			}
			done[want] = true
			r.violate(Mismatch{Aspect: aXor, Class: what, Input: fmt.Sprintf("%q", ws), Field: r.name(fn), Want: want, Got: got, Where: r.w.src(fn)})
		}
		if lost != "" && len(done) == 0 {
			giveUp("not confirmed for the example itself: %s", lost)
		}
		r.counts["functions decided for every argument"]++
	})
}

func failed(fn *ssa.Function, o Ret) bool {
	if t, ok := o.v.(Tuple); ok {
		return !isNil(t[len(t)-1])
	}
	return !isNil(o.v)
}

// fill makes the arguments of a function from given texts.
func (r *Run) fill(st *State, fn *ssa.Function, in []Str) (args []Val, n int) {
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 && n < len(in) {
				args = append(args, in[n])
				n++
				continue
			}
		case *types.Slice:
			if isByteSlice(t) && n < len(in) {
				args = append(args, BytesV{in[n]})
				n++
				continue
			}
		case *types.Pointer:
			if i == 0 && fn.Signature.Recv() != nil {
				args = append(args, Ptr{obj: r.in.newObj(st, r.in.zeroVal(t.Elem()), t.Elem())})
				continue
			}
		}
		giveUp("cannot make an argument of type %v for %s", p.Type(), fn)
	}
	return
}

var errKinds = []struct{ mk, is string }{{"Invalid", "IsInvalid"}, {"Unsupported", "IsUnsupported"}, {"Unrecognized", "IsUnrecognized"}, {"NotImplemented", "IsNotImplemented"}, {"NotSet", "IsNotSet"}}

// kinds: every constructor against every predicate.
func (r *Run) kinds() {
	for _, k := range append(errKinds, struct{ mk, is string }{"", ""}) {
		k := k
		what := "error kind " + k.mk
		if k.mk == "" {
			what = "no error, and errors of other kinds"
		}
		r.guard(what, func() {
			r.budget(classBudget)
			type made struct {
				st *State
				v  Val
			}
			var es []made
			st := r.base.clone()
			if k.mk == "" {
				es = append(es, made{st, Nil{}}, made{st.clone(), r.in.errIface("errors.errorString", lit("other"))})
			} else {
				fn := r.l.fn("", k.mk)
				args, _ := r.anyArgs(st, fn, nil)
				for _, o := range r.run(st, fn, args...) {
					if o.panic != nil {
						continue
					}
					if isNil(o.v) {
						r.violatef(aKind, r.w.src(fn), "an error", "nil")
						continue
					}
					es = append(es, made{o.st, o.v})
				}
			}
			for _, e := range es {
				for _, p := range errKinds {
					is := r.l.fn("", p.is)
					for _, o := range r.run(e.st.clone(), is, e.v) {
						r.oblig++
						if o.panic != nil {
							r.violatef(aKind, o.panic.pos, fmt.Sprintf("an answer of %s for %s", p.is, what), "panic: "+o.panic.msg)
							continue
						}
						b, ok := o.v.(bool)
						if !ok || unmodelled(o.st) != "" {
							giveUp("the answer of %s is not known", p.is)
						}
						if want := p.mk == k.mk; b != want {
							r.violate(Mismatch{Aspect: aKind, Class: what, Field: p.is, Want: fmt.Sprint(want), Got: fmt.Sprint(b), Where: r.w.src(is)})
						}
					}
				}
				// the message exists
				r.counts["error kinds and predicates"] += len(errKinds)
			}
		})
	}
}

// refusedKind: what the grammar does not know is unrecognised.
func (r *Run) refusedKind() {
	for _, n := range []string{"ParseString", "Matches"} {
		n := n
		r.guard("parser."+n+" on strings outside of the grammar", func() {
			r.budget(60_000_000)
			fn := r.l.fn("parser", n)
			st := r.base.clone()
			d := patDFA(`(?s:.*)`)
			for _, f := range features {
				d = d.Minus(f.lang())
			}
			d = d.Minus(dfaWord("")).Minus(dfaWord(".."))
			s := st.langStr(d, "text")
			bad := func(o Ret) (string, string) {
				t := o.v.(Tuple)
				if isNil(t[len(t)-1]) {
					return "", "" // exclusiveOn, C02, C03
				}
				if k := r.l.errKind(o.st, t[len(t)-1]); k != "UnrecognizedError" {
					return k, r.l.where(o.st, t[len(t)-1])
				}
				return "", ""
			}
			var outs []Ret
			r.summarised(func() { outs = r.run(st, fn, s) })
			lost := ""
			done := map[string]bool{}
			for _, o := range outs {
				r.oblig++
				if o.panic != nil {
					continue
				}
				k, at := bad(o)
				if k == "" || done[k] {
					continue
				}
				w := o.st.witness(s)
				es, ok := r.exact(fn, w)
				conf := false
				for _, e := range es {
					if e.panic == nil && doubt(e.st) == "" {
						k2, _ := bad(e)
						conf = conf || k2 == k
					}
				}
				if !ok || !conf {
					lost = w
					continue
				}
				done[k] = true
				r.violate(Mismatch{Aspect: aKind, Class: "strings outside of the grammar", Input: w, Field: r.name(fn), Want: "UnrecognizedError", Got: k, Where: at})
			}
			if lost != "" && len(done) == 0 {
				giveUp("not confirmed for the example itself: %q", lost)
			}
		})
	}
}

func checkFailures(r *Run) {
	r.kinds()
	r.summarised(func() {
		for _, t := range stringFuncs() {
			fn := r.w.fn(t.pkg, t.name)
			if fn == nil {
				r.undec = append(r.undec, "no function "+t.pkg+"."+t.name)
				continue
			}
			if !returnsError(fn) || fn.Signature.Results().Len() < 2 {
				continue
			}
			n := len(r.undec)
			r.exclusiveOn(fn, r.name(fn)+" on any string", nil, false)
			if len(r.undec) > n && fn.Signature.Params().Len() == 1 && len(t.pkg) == 6 {
				for _, f := range features {
					r.exclusiveOn(fn, r.name(fn)+" on any string of "+f.name, []*DFA{f.lang()}, false)
				}
			}
		}
	})
	r.refusedKind()
	// what is no day or no time of day is an error of the helpers
	r.onlyErrors = true
	checkDays(r)
	r.onlyErrors = false
	// what is refused by every feature of a level
	any := patDFA(`(?s:.*)`)
	outside := any
	for _, f := range features {
		outside = outside.Minus(f.lang())
	}
	for lv := int64(0); lv <= 2; lv++ {
		for _, n := range []string{"ParseString", "Matches"} {
			if fn := r.w.fn(fmt.Sprintf("level%d", lv), n); fn != nil {
				r.summarised(func() {
					r.exclusiveOn(fn, r.name(fn)+" on strings outside of the grammar", []*DFA{outside}, true)
				})
			}
		}
	}
	for _, f := range features {
		if fn := r.w.fn(f.pkg, f.parse); fn != nil {
			f := f
			r.summarised(func() {
				r.exclusiveOn(fn, r.name(fn)+" on strings of no feature", []*DFA{outside}, true)
			})
			_ = f
		}
	}
	// decoding a timestamp
	if fn := r.w.fn("", "*Timestamp.UnmarshalJSON"); fn != nil {
		r.exclusiveOn(fn, r.name(fn)+" on text that is not a number", []*DFA{any.Minus(patDFA(`"*[+-]?[0-9]+"*`))}, true)
	} else {
		r.undec = append(r.undec, "no method Timestamp.UnmarshalJSON")
	}
	// classes of the grammar: what has no calendar date, or no representation, is an error; the
	// other operations pass the failure on
	r.sweep(append(without(allFams), "odd"), []string{aXor, aLost, aKind}, func(s *Sweep) { s.direct, s.keepKnown = true, true })
	derive := r.w.fn("unix", "DeriveRanges")
	after, before := r.w.fn("cmp", "IsAfter"), r.w.fn("cmp", "IsBefore")
	if derive == nil || after == nil || before == nil {
		r.undec = append(r.undec, "no function unix.DeriveRanges, cmp.IsAfter or cmp.IsBefore")
		return
	}
	r.overClasses("passing on", allFams, 2, func(st *State, s Str, report func(d diff)) {
		parse := r.l.fn("parser", "ParseString")
		for _, p := range answers(r.run(st, parse, s)) {
			pt := p.v.(Tuple)
			if isNil(pt[1]) {
				continue
			}
			for _, c := range []struct {
				fn   *ssa.Function
				args []Val
			}{{derive, []Val{s}}, {after, []Val{s, lit("1985")}}, {after, []Val{lit("1985"), s}}, {before, []Val{s, lit("1985")}}, {before, []Val{lit("1985"), s}}} {
				for _, o := range answers(r.run(p.st.clone(), c.fn, c.args...)) {
					r.oblig++
					if !failed(c.fn, o) {
						report(diff{o.st, r.name(c.fn), "an error (the string cannot be parsed)", describe(o.st, o.v), r.w.src(c.fn)})
					}
				}
			}
		}
	})
	r.overClasses("exclusive", append(without(allFams), "odd"), 1, func(st *State, s Str, report func(d diff)) {
		for _, e := range r.entries() {
			for _, o := range answers(r.run(st.clone(), e.match, s)) {
				r.oblig++
				if want, got := r.exclusive(e.match, o); want != "" {
					report(diff{o.st, r.name(e.match), want, got, r.w.src(e.match)})
				}
			}
		}
	})
	r.someTuples(func(want, _ string) bool { return want == "an error" || want == "false with the error" })
	r.overClasses("accessor", []string{"marker", "extended", "date", "set"}, 1, r.accessorDiffs)
}

func init() {
	props["C14"] = prop{"Every function that returns a result and an error is interpreted on any string (regular-language domain, outcomes joined at calls): in every outcome exactly one of the two is nil (for a success flag: no flag with an error, no range without the flag). Strings of no feature must end in an error everywhere and in an UnrecognizedError at the top. " +
		"Each error constructor is interpreted with any texts and its value given to each of the five kind predicates, which must be true for exactly their own. On every class of the grammar, strings that have no calendar date or representation must be errors of the documented kind, and every operation built on parsing must pass the failure on.", checkFailures}
}
