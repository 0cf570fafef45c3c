package main

// Properties decided for every string (not only for the classes of the grammar).

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// anyText is the input of a function that takes any string.
func (r *Run) anyText(st *State, name string) Str { return st.anyStr(name) }

// run calls a function and keeps the feasible outcomes.
func (r *Run) run(st *State, fn *ssa.Function, args ...Val) []Ret {
	var out []Ret
	for _, o := range r.in.call(st, fn, args, nil) {
		if o.st.feasible() {
			out = append(out, o)
		}
	}
	return out
}

// summarised runs f with joins at calls.
func (r *Run) summarised(f func()) {
	old, oldc := r.in.summary, coarseRender
	r.in.summary, coarseRender = true, true
	defer func() { r.in.summary, coarseRender = old, oldc }()
	f()
}

// budget bounds the next units.
func (r *Run) budget(steps int64) {
	settleMemory()
	totalSteps += r.in.steps
	r.in.steps, r.in.maxSteps = 0, steps
	d := 100 * time.Second
	if r.all {
		d = 20 * time.Minute
	}
	unitDeadline = time.Now().Add(d)
}

// exact runs a function on constant strings.
func (r *Run) exact(fn *ssa.Function, in ...string) (out []Ret, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, isU := asUndecided(e); isU {
				r.in.reset()
				out, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	old, oldc := r.in.summary, coarseRender
	r.in.summary, coarseRender = false, false
	defer func() { r.in.summary, coarseRender = old, oldc }()
	r.budget(classBudget)
	var args []Val
	for _, s := range in {
		args = append(args, lit(s))
	}
	exactly(func() { out = r.run(r.base.clone(), fn, args...) })
	for _, o := range out {
		if o.st.vague != "" {
			return nil, false
		}
	}
	return out, true
}

func (r *Run) name(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), r.w.modPath, "edtf")
}

// ---------- C03: the grammar ----------

type predicate struct {
	pkg, name string
	lang      func() *DFA
}

func gramPredicates() []predicate {
	var out []predicate
	var all *DFA
	or := func(a, b *DFA) *DFA {
		if a == nil {
			return b
		}
		return a.Or(b)
	}
	for _, f := range features {
		f := f
		if f.is != "" {
			out = append(out, predicate{f.pkg, f.is, f.lang})
		}
		all = or(all, f.lang())
	}
	out = append(out, predicate{"level1", "IsExtendedInterval", func() *DFA {
		var d *DFA
		for _, f := range features {
			if strings.HasPrefix(f.name, "Extended Interval") {
				d = or(d, f.lang())
			}
		}
		return d
	}})
	for lv := int64(0); lv <= 2; lv++ {
		lv := lv
		out = append(out, predicate{fmt.Sprintf("level%d", lv), fmt.Sprintf("IsLevel%d", lv), func() *DFA { return levelLang(lv) }})
	}
	out = append(out, predicate{"parser", "IsValid", func() *DFA { return all.Or(dfaWord("")).Or(dfaWord("..")) }})
	return out
}

// decidePredicate: fn is true on lang and false elsewhere.
func (r *Run) decidePredicate(fn *ssa.Function, lang *DFA, what string) {
	name := r.name(fn)
	top := patDFA(`(?s:.*)`)
	try := func(mk func() ([]*State, Str), want bool) (done bool) {
		r.oblig++
		return r.guard(name+" on "+map[bool]string{true: "", false: "strings outside of "}[want]+what, func() {
			r.budget(20_000_000)
			sts, s := mk()
			var outs []Ret
			for _, st := range sts {
				outs = append(outs, r.run(st, fn, s)...)
			}
			lost := ""
			for _, o := range outs {
				if o.panic == nil && o.v == want {
					continue
				}
				w := o.st.witness(s)
				es, ok := r.exact(fn, w)
				if !ok || len(es) != 1 || es[0].panic != nil || es[0].v != !want {
					lost = w
					continue
				}
				got := map[bool]string{true: "accepted", false: "refused"}
				r.violate(Mismatch{Aspect: "grammar", Class: what, Input: w, Field: name, Want: got[want], Got: got[!want], Where: r.w.src(fn)})
				return
			}
			if lost != "" {
				giveUp("%s could not be evaluated precisely for %q", name, lost)
			}
		})
	}
	unit := func(in *DFA, want bool) bool {
		return try(func() ([]*State, Str) {
			st := r.base.clone()
			return []*State{st}, st.langStr(in, "text")
		}, want)
	}
	// both sides; what is too coarse for all strings at once may be decided character by character
	// for short strings
	n := len(r.undec)
	split := func(in *DFA, want bool) bool {
		if unit(in, want) {
			return true
		}
		for k := 0; k <= 4; k++ {
			k := k
			if !try(func() ([]*State, Str) {
				st := r.base.clone()
				var s Str
				for i := 0; i < k; i++ {
					s.it = append(s.it, Item{k: iCell, s: st.newCell(csRange(0, 127), fmt.Sprintf("c%d", i))})
				}
				var sts []*State
				for _, b := range st.inLang(s, in) {
					if b.b && b.st.feasible() {
						sts = append(sts, b.st)
					}
				}
				return sts, s
			}, want) {
				return false
			}
		}
		if longer := in.Minus(patDFA(`[\x00-\x7f]{0,4}`)); !longer.Empty() && !unit(longer, want) {
			return false
		}
		r.undec = r.undec[:n]
		return true
	}
	if split(lang, true) && split(top.Minus(lang), false) {
		r.counts["predicates decided for every string"]++
		r.sample(map[string]string{"predicate": name, "language": what})
		return
	}
	// the classes of the grammar instead
	fm := families(false)
	for _, fam := range sortedKeys(fm) {
		for _, c := range fm[fam] {
			c := c
			r.oblig++
			r.guard(name+" on class "+fam+" "+c.text, func() {
				r.budget(classBudget)
				st := r.base.clone()
				s, _ := c.build(st)
				for _, b := range st.inLang(s, lang) {
					if !b.st.feasible() {
						continue
					}
					for _, o := range r.run(b.st, fn, s) {
						if o.panic == nil && o.v == b.b {
							continue
						}
						w := o.st.witness(s)
						es, ok := r.exact(fn, w)
						if !ok || len(es) != 1 || es[0].panic != nil || es[0].v != !b.b {
							giveUp("%s could not be evaluated precisely for %q", name, w)
						}
						got := map[bool]string{true: "accepted", false: "refused"}
						r.violate(Mismatch{Aspect: "grammar", Class: what, Input: w, Field: name, Want: got[b.b], Got: got[!b.b], Where: r.w.src(fn)})
						return
					}
				}
			})
		}
	}
}

func checkGrammar(r *Run) {
	for _, p := range gramPredicates() {
		fn := r.w.fn(p.pkg, p.name)
		if fn == nil {
			r.undec = append(r.undec, "no function "+p.pkg+"."+p.name)
			continue
		}
		t0 := time.Now()
		what := p.name
		for _, f := range features {
			if f.is == p.name {
				what = f.name
			}
		}
		r.decidePredicate(fn, p.lang(), what)
		if debugTime {
			fmt.Println(p.name, time.Since(t0))
		}
	}
}

var debugTime bool

func init() {
	props["C03"] = prop{"Each predicate is interpreted on a string known only to lie in the reference language of its feature (a regular language written independently of the repository), where every outcome must be true, and on its complement, where every outcome must be false. " +
		"A counterexample is kept only when the predicate, interpreted on that one string, gives the same answer. Classification and parsing of the classes of the grammar are compared with the owner of the string in the reference grammar.", func(r *Run) {
		checkGrammar(r)
		r.sweep(allFams, []string{aFeature, aErr}, func(s *Sweep) { s.matches, s.noParse = true, true })
	}}
}
