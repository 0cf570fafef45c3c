package main

// C02: validation, classification and parsing agree (compared with each other, not with the grammar).

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type entry struct {
	pkg              string
	is, match, parse *ssa.Function
	level            int64
}

func (r *Run) entries() []entry {
	var out []entry
	for lv := int64(-1); lv <= 2; lv++ {
		e := entry{pkg: "parser", level: lv}
		n := "IsValid"
		if lv >= 0 {
			e.pkg = fmt.Sprintf("level%d", lv)
			n = fmt.Sprintf("IsLevel%d", lv)
		}
		e.is, e.match, e.parse = r.w.fn(e.pkg, n), r.w.fn(e.pkg, "Matches"), r.w.fn(e.pkg, "ParseString")
		if e.is == nil || e.match == nil || e.parse == nil {
			r.undec = append(r.undec, "package "+e.pkg+" lacks "+n+", Matches or ParseString")
			continue
		}
		out = append(out, e)
	}
	return out
}

// answers leaves out the outcomes that panic (they are the matter of C01).
func answers(rs []Ret) []Ret {
	var out []Ret
	for _, o := range rs {
		if o.panic == nil {
			out = append(out, o)
		}
	}
	return out
}

// boolOf reads an answer; an unknown answer ends the unit.
func boolOf(o Ret) bool {
	b, ok := o.v.(bool)
	if !ok {
		giveUp("an answer that is not known")
	}
	return b
}

func isNil(v Val) bool { _, ok := v.(Nil); return ok }

// disagreements runs the three entry points on one input and reports where they differ. levels are
// the entry points of the levels (for the top-level ones).
func (r *Run) disagreements(e entry, levels []entry, st *State, s Str, parseAll bool, report func(st *State, field, want, got, where string)) {
	// every level's own answer: world by world
	type world struct {
		st    *State
		owner int // index of the first level that recognises it, -1
	}
	ws := []world{{st, -1}}
	for i, l := range levels {
		var nx []world
		for _, w := range ws {
			if w.owner >= 0 {
				nx = append(nx, w)
				continue
			}
			for _, o := range answers(r.run(w.st.clone(), l.is, s)) {
				if boolOf(o) {
					nx = append(nx, world{o.st, i})
				} else {
					nx = append(nx, world{o.st, -1})
				}
			}
		}
		ws = nx
	}
	for _, w := range ws {
		for _, v := range answers(r.run(w.st.clone(), e.is, s)) {
			r.oblig++
			valid := boolOf(v)
			marks := []ownMark{{v.st, false}}
			if levels != nil {
				marks = nil
				d := dfaWord("").Or(dfaWord(".."))
				for _, b := range v.st.inLang(s, d) {
					if b.st.feasible() {
						marks = append(marks, ownMark{b.st, b.b})
					}
				}
			}
			for _, mk := range marks {
				if levels != nil && valid != (w.owner >= 0 || mk.mark) {
					want := "accepted (a level recognises it, or it is a bare marker)"
					if valid {
						want = "refused (no level recognises it)"
					}
					report(mk.st, "IsValid", want, fmt.Sprint(valid), r.w.src(e.is))
					continue
				}
				for _, m := range answers(r.run(mk.st.clone(), e.match, s)) {
					r.oblig++
					t := m.v.(Tuple)
					n := len(t)
					found := isNil(t[n-1])
					want := valid && !mk.mark
					if mk.mark && levels != nil {
						want = w.owner >= 0
					}
					if found != want {
						report(m.st, r.name(e.match), map[bool]string{true: "a level and a feature", false: "an error"}[want], map[bool]string{true: "a level and a feature", false: "an error"}[found], r.w.src(e.match))
						continue
					}
					if found && levels != nil {
						lv, ok := t[0].(Lin)
						if !ok || !m.st.eqLin(lv, linC(levels[w.owner].level)) {
							report(m.st, r.name(e.match)+" level", fmt.Sprint(levels[w.owner].level), describe(m.st, t[0]), r.w.src(e.match))
						}
					}
					if valid && !parseAll {
						continue
					}
					for _, p := range answers(r.run(m.st.clone(), e.parse, s)) {
						r.oblig++
						pt := p.v.(Tuple)
						if !isNil(pt[1]) || isNil(pt[0]) {
							continue
						}
						if !valid {
							report(p.st, r.name(e.parse), "an error (the validity test refuses it)", "a result", r.l.where(p.st, pt[0]))
							continue
						}
						if !found {
							continue
						}
						et := r.l.typ("", "EDTFDate")
						c := r.cmp("", s, e.parse)
						if levels != nil {
							c.eqInt(p.st, aFeature, "Level", r.l.field(p.st, pt[0], et, "Level"), t[0].(Lin), r.l.where(p.st, pt[0]))
						} else {
							c.eqInt(p.st, aFeature, "Level", r.l.field(p.st, pt[0], et, "Level"), linC(e.level), r.l.where(p.st, pt[0]))
						}
						if f, ok := t[n-2].(Str); ok {
							c.eqText(p.st, aFeature, "Feature", r.l.field(p.st, pt[0], et, "Feature"), f, r.l.where(p.st, pt[0]))
						} else {
							giveUp("a feature name that is not known")
						}
						r.oblig += c.oblig
						for _, x := range c.out {
							report(p.st, r.name(e.parse)+" "+x.Field, x.Want+" (as "+r.name(e.match)+" says)", x.Got, x.Where)
						}
						for _, u := range sortStrings(c.undec) {
							giveUp("a result depends on %s", u)
						}
					}
				}
			}
		}
	}
}

type ownMark struct {
	st   *State
	mark bool
}

// agree compares the entry points on one input and confirms what differs on the example alone.
func (r *Run) agree(what string, e entry, levels []entry, mk func() (*State, Str), parseAll bool) {
	r.guard(what, func() {
		r.budget(20_000_000)
		st, s := mk()
		var found []Mismatch
		r.disagreements(e, levels, st, s, parseAll, func(st *State, field, want, got, where string) {
			found = append(found, Mismatch{Aspect: "agreement", Class: what, Input: st.witness(s), Field: field, Want: want, Got: got, Where: where})
		})
		done := map[string]bool{}
		tried := 0
		lost := ""
		for _, m := range found {
			if done[m.Field] || tried > 30 {
				continue
			}
			tried++
			ok := false
			in := m.Input
			old, oldc := r.in.summary, coarseRender
			r.in.summary, coarseRender = false, false
			r.budget(classBudget)
			exactly(func() {
				r.disagreements(e, levels, r.base.clone(), lit(in), true, func(st *State, field, _, _, _ string) {
					ok = ok || field == m.Field && doubt(st) == ""
				})
			})
			r.in.summary, coarseRender = old, oldc
			if ok {
				done[m.Field] = true
				r.violate(m)
			} else {
				lost = m.Field + " for " + in
			}
		}
		if lost != "" && len(done) == 0 {
			giveUp("not confirmed for the example itself: %s", lost)
		}
	})
}

func checkAgreement(r *Run) {
	es := r.entries()
	var levels []entry
	for _, e := range es {
		if e.level >= 0 {
			levels = append(levels, e)
		}
	}
	for _, e := range es {
		lv := levels
		if e.level >= 0 {
			lv = nil
		} else if len(levels) < 3 {
			continue
		}
		top := func() (*State, Str) {
			st := r.base.clone()
			return st, r.anyText(st, "text")
		}
		r.summarised(func() { r.agree(e.pkg+", any string", e, lv, top, false) })
	}
	fm := families(r.all)
	for _, fam := range append(without(allFams), "odd") {
		step := len(fm[fam])/3 + 1
		for i, c := range fm[fam] {
			for _, e := range es {
				lv := levels
				if e.level >= 0 {
					if !r.all && i%4 != 0 && len(fm[fam]) > 150 {
						continue
					}
					lv = nil
				} else if len(levels) < 3 {
					continue
				}
				c := c
				r.agree(e.pkg+", class "+fam+" "+c.text, e, lv, func() (*State, Str) {
					st := r.base.clone()
					s, _ := c.build(st)
					return st, s
				}, true)
			}
			r.counts["classes of strings: "+fam]++
			if i%step == 0 {
				r.sample(map[string]string{"family": fam, "class": c.text})
			}
		}
	}
}

func init() {
	props["C02"] = prop{"The validity test, the classification and the parser are interpreted one after another on the same abstract string, so that every outcome of one is compared with the outcomes of the others for exactly the same strings: first for any string whatever (regular-language domain), then for every class of the grammar, for the top-level entry points and for those of each level. " +
		"A disagreement is kept only when it is found again for the one example string.", checkAgreement}
}
