package main

// C01: no string makes the library panic or end the process.

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type target struct {
	pkg, name string
	args      []string // nil: one per string parameter
}

// stringFuncs lists the exported functions of the library that take strings.
func stringFuncs() []target {
	var out []target
	add := func(pkg string, names ...string) {
		for _, n := range names {
			out = append(out, target{pkg: pkg, name: n})
		}
	}
	add("parser", "IsValid", "Matches", "ParseString")
	for _, l := range []string{"0", "1", "2"} {
		add("level"+l, "IsLevel"+l, "Matches", "ParseString")
	}
	for _, f := range features {
		if f.is != "" {
			add(f.pkg, f.is)
		}
		add(f.pkg, f.parse)
	}
	add("level1", "IsExtendedInterval", "ParseExtendedInterval")
	add("common", "StringRangeFromYMD", "DateSpanFromEDTF", "YMDFromString", "YMDFromStrings", "TimeWithYMDString", "ParseExponentialNotation")
	add("calendar", "DaysInMonthWithString")
	add("unix", "DeriveRanges")
	add("cmp", "IsAfter", "IsBefore", "IsBetween")
	add("", "IsOpen", "IsUnspecified", "IsUnknown", "IsDeprecated", "ReplaceDeprecated", "*Timestamp.UnmarshalJSON",
		"Invalid", "Unsupported", "Unrecognized", "NotImplemented")
	return out
}

// anyArgs makes arguments of the types of the parameters: any text, any bytes, a zero receiver.
func (r *Run) anyArgs(st *State, fn *ssa.Function, fixed []string) (args []Val, in []Str) {
	for i, p := range fn.Params {
		s := func() Str {
			var s Str
			if fixed != nil {
				s = lit(fixed[len(in)])
			} else {
				s = st.anyStr(fmt.Sprintf("text%d", i))
			}
			in = append(in, s)
			return s
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				args = append(args, s())
				continue
			}
		case *types.Slice:
			if isByteSlice(t) {
				args = append(args, BytesV{s()})
				continue
			}
		case *types.Pointer:
			if i == 0 && fn.Signature.Recv() != nil {
				args = append(args, Ptr{obj: r.in.newObj(st, r.in.zeroVal(t.Elem()), t.Elem())})
				continue
			}
		}
		giveUp("cannot make an argument of type %v for %s", p.Type(), fn)
	}
	return
}

// panicsOn lists the panics and exits of a function on fixed strings.
func (r *Run) panicsOn(fn *ssa.Function, in []string, like string) (msg string, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, isU := asUndecided(e); isU {
				r.in.reset()
				msg, ok = "", false
				return
			}
			panic(e)
		}
	}()
	old, oldc := r.in.summary, coarseRender
	r.in.summary, coarseRender = false, false
	defer func() { r.in.summary, coarseRender = old, oldc }()
	r.budget(classBudget)
	st := r.base.clone()
	args, _ := r.anyArgs(st, fn, in)
	var outs []Ret
	exactly(func() { outs = r.run(st, fn, args...) })
	for _, o := range outs {
		if o.panic != nil && doubt(o.st) == "" {
			if m := o.panic.msg + " at " + o.panic.pos; msg == "" || m == like {
				msg = m
			}
		}
	}
	return msg, true
}

// noPanic decides one function for all strings.
func (r *Run) noPanic(fn *ssa.Function, what string, lang *DFA) {
	r.guard(what, func() {
		r.budget(60_000_000)
		st := r.base.clone()
		args, in := r.anyArgs(st, fn, nil)
		if lang != nil && len(in) == 1 {
			var w *State
			for _, b := range st.inLang(in[0], lang) {
				if b.b && b.st.feasible() {
					w = b.st
				}
			}
			if w == nil {
				return
			}
			st = w
		}
		outs := r.run(st, fn, args...)
		open := ""
		seen := map[string]bool{}
		for _, o := range outs {
			r.oblig++
			if o.panic == nil {
				continue
			}
			k := o.panic.msg + o.panic.pos
			if seen[k] {
				continue
			}
			cur := o.st
			ok := false
			for try := 0; try < 6 && cur != nil; try++ {
				var ws []string
				for _, s := range in {
					ws = append(ws, cur.witness(s))
				}
				if m, e := r.panicsOn(fn, ws, o.panic.msg+" at "+o.panic.pos); e && m == o.panic.msg+" at "+o.panic.pos {
					r.violate(Mismatch{Aspect: "panic", Class: what, Input: fmt.Sprintf("%q", ws), Field: r.name(fn), Want: "a result or an error", Got: "panic: " + o.panic.msg, Where: o.panic.pos})
					ok = true
					break
				}
				// another example
				var nx *State
				for _, b := range cur.clone().inLang(in[0], dfaLit(ws[0])) {
					if !b.b && b.st.feasible() {
						nx = b.st
					}
				}
				cur = nx
			}
			if !ok && len(in) == 1 && !seen["short "+k] {
				seen["short "+k] = true
				if w := r.shortPanic(fn, o.st.strDFA(in[0]), o.panic); w != "" {
					r.violate(Mismatch{Aspect: "panic", Class: what, Input: fmt.Sprintf("%q", w), Field: r.name(fn), Want: "a result or an error", Got: "panic: " + o.panic.msg, Where: o.panic.pos})
					ok = true
				}
			}
			if ok {
				seen[k] = true
			} else {
				open = o.panic.msg + " at " + o.panic.pos
			}
		}
		if open != "" {
			giveUp("possible panic not confirmed: %s", open)
		}
	})
}

// shortPanic looks for a possible panic among the strings of each length, for which the loops of the
// function are bounded, and confirms it on an example.
func (r *Run) shortPanic(fn *ssa.Function, lang *DFA, p *PanicInfo) (found string) {
	old, oldc := r.in.summary, coarseRender
	r.in.summary, coarseRender = false, false
	defer func() { r.in.summary, coarseRender = old, oldc }()
	if r.tried == nil {
		r.tried = map[string]bool{}
	}
	if k := fn.String() + p.msg + p.pos; r.tried[k] {
		return ""
	} else {
		r.tried[k] = true
	}
	end := time.Now().Add(20 * time.Second)
	for n := 0; n <= 24 && time.Now().Before(end) && found == ""; n++ {
		l := lang.And(patDFA(fmt.Sprintf(`(?s:.{%d})`, n)))
		if l.Empty() {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, isU := asUndecided(e); !isU {
						panic(e)
					}
					r.in.reset()
				}
			}()
			r.budget(classBudget)
			unitDeadline = time.Now().Add(5 * time.Second)
			st := r.base.clone()
			s := st.langStr(l, "text")
			for _, o := range r.run(st, fn, s) {
				if o.panic == nil || o.panic.msg != p.msg || o.panic.pos != p.pos {
					continue
				}
				w := o.st.witness(s)
				if m, e := r.panicsOn(fn, []string{w}, p.msg+" at "+p.pos); e && m == p.msg+" at "+p.pos {
					found = w
					return
				}
			}
		}()
	}
	return found
}

func checkPanics(r *Run) {
	r.summarised(func() {
		for _, t := range stringFuncs() {
			fn := r.w.fn(t.pkg, t.name)
			if fn == nil {
				r.undec = append(r.undec, "no function "+t.pkg+"."+t.name)
				continue
			}
			t0 := time.Now()
			n := r.decided
			r.noPanic(fn, r.name(fn)+" on any string", nil)
			if r.decided == n && fn.Signature.Params().Len() == 1 && len(t.pkg) == 6 {
				// one feature at a time
				for _, f := range features {
					r.noPanic(fn, r.name(fn)+" on any string of "+f.name, f.lang())
				}
			}
			r.counts["functions decided for any string"] += r.decided - n
			if debugTime {
				fmt.Println(t.pkg, t.name, time.Since(t0))
			}
		}
	})
	r.sweep(append(without(allFams), "odd"), []string{aPanic}, direct)
	r.someTuples(func(_, got string) bool { return strings.HasPrefix(got, "panic") })
	// the other operations on the classes
	fm := families(false)
	for _, fam := range append(without(allFams), "odd") {
		for i, c := range fm[fam] {
			if !r.all && i%3 != 0 && fam != "odd" {
				continue
			}
			for _, t := range []target{{pkg: "unix", name: "DeriveRanges"}, {pkg: "parser", name: "Matches"}} {
				fn := r.w.fn(t.pkg, t.name)
				if fn == nil {
					continue
				}
				c := c
				r.guard(r.name(fn)+" on class "+fam+" "+c.text, func() {
					r.budget(classBudget)
					st := r.base.clone()
					s, _ := c.build(st)
					for _, o := range r.run(st, fn, s) {
						r.oblig++
						if o.panic == nil {
							continue
						}
						w := o.st.witness(s)
						if m, e := r.panicsOn(fn, []string{w}, o.panic.msg+" at "+o.panic.pos); e && m == o.panic.msg+" at "+o.panic.pos {
							r.violate(Mismatch{Aspect: "panic", Class: fam + " " + c.text, Input: w, Field: r.name(fn), Want: "a result or an error", Got: "panic: " + o.panic.msg, Where: o.panic.pos})
							return
						}
						giveUp("possible panic not confirmed: %s at %s for %q", o.panic.msg, o.panic.pos, w)
					}
				})
			}
		}
	}
}

func init() {
	props["C01"] = prop{"Every exported function that takes strings is interpreted with arguments of which nothing is known (any string, as a regular language), with outcomes joined at calls; every slice, index, nil dereference, division, type assertion, Must call, make, Repeat, panic and process exit is an obligation. " +
		"All parse functions are also interpreted on the classes of the grammar, where digits are partitioned more finely. A possible panic is kept only when the function, interpreted on the one example string, panics.", checkPanics}
}
