package main

// Running the entry points of the library over the classes of strings and comparing the outcomes.

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Sweep gathers what was analysed and found.
type Sweep struct {
	l         *Lib
	base      *State
	want      map[string]bool
	matches   bool // also Matches and IsValid
	direct    bool // also the parse functions of every feature that accepts the string
	noParse   bool // not the results of parsing
	general   bool
	purity    bool
	helper    bool // the span derived by common.DateSpanFromEDTF, and nothing else
	out       []Mismatch
	known     map[string]bool
	maxUsed   int64
	keepKnown bool           // do not report known findings
	classes   map[string]int // per family
	texts     []string
	worlds    int // outcomes compared
	oblig     int
	undec     []string
	slow      []string
}

// totalSteps counts the steps of finished classes.
var totalSteps int64

func newSweep(l *Lib, base *State) *Sweep {
	return &Sweep{l: l, base: base, known: map[string]bool{}, classes: map[string]int{}}
}

// guard runs f, turning "undecided" into a record.
func (s *Sweep) guard(what string, f func()) {
	defer settleMemory()
	defer func() {
		if e := recover(); e != nil {
			if u, ok := asUndecided(e); ok {
				s.undec = append(s.undec, what+": "+u.msg+" in "+s.l.in.failAt)
				s.l.in.reset()
				return
			}
			panic(e)
		}
	}()
	f()
}

// classBudget bounds the steps spent on one class.
const classBudget = 6_000_000

func (s *Sweep) class(c Class) {
	s.classes[c.fam]++
	t0 := time.Now()
	n, u := len(s.out), len(s.undec)
	name := c.fam + " " + c.text
	s.budget(name, func() { s.class1(c, nil) })
	found := s.out[n:]
	if len(found) > 0 {
		found = append([]Mismatch(nil), found...)
		s.out = s.out[:n]
		s.confirm(c, found, len(s.undec) > u)
	}
	if d := time.Since(t0); d > 300*time.Millisecond {
		s.slow = append(s.slow, fmt.Sprintf("%6.2fs %s %s", d.Seconds(), c.fam, c.text))
	}
}

func (s *Sweep) budget(what string, f func()) {
	settleMemory()
	unitDeadline = time.Now().Add(60 * time.Second)
	totalSteps += s.l.in.steps
	s.l.in.steps = 0
	s.l.in.maxSteps = classBudget
	s.guard("class "+what, f)
	if s.l.in.steps > s.maxUsed {
		s.maxUsed = s.l.in.steps
	}
}

// confirm repeats the analysis for the one-element class of each example and keeps the mismatches
// that are still found: what the abstraction alone made up is undecided, not a violation.
func (s *Sweep) confirm(c Class, found []Mismatch, partial bool) {
	if debugTime {
		for _, m := range found {
			fmt.Println("found", m.Aspect, m.Field, m.Input, "want", m.Want, "got", m.Got, m.Where)
		}
	}
	type res map[string]bool
	cache := map[string]res{}
	tried := map[string]int{}
	good := map[string]bool{}
	var bad []string
	for _, m := range found {
		k := m.Aspect + "|" + m.Field
		if good[k] || tried[k] >= 4 {
			continue
		}
		tried[k]++
		r, ok := cache[m.Input]
		if !ok {
			if len(cache) > 60 {
				continue
			}
			r = res{}
			t := *s
			t.out, t.undec, t.known = nil, nil, map[string]bool{}
			t.classes = map[string]int{}
			in := m.Input
			t.budget(c.fam+" "+in, func() { t.class1(c, &in) })
			for _, x := range t.out {
				r[x.Aspect+"|"+x.Field] = true
			}
			cache[m.Input] = r
		}
		if r[k] {
			good[k] = true
			s.out = append(s.out, m)
		}
	}
	for _, m := range found {
		k := m.Aspect + "|" + m.Field
		if !good[k] {
			good[k] = true
			bad = append(bad, k+" (e.g. "+m.Input+")")
		}
	}
	for _, b := range bad {
		s.undec = append(s.undec, "class "+c.fam+" "+c.text+": not confirmed for the example itself: "+b)
	}
}

func isMarkerStr(st *State, str Str) (string, bool) {
	it := st.flatten(str.it)
	if len(it) == 0 {
		return "Unknown", true
	}
	if len(it) == 2 && it[0] == (Item{k: iLit, b: '.'}) && it[1] == it[0] {
		return "Open", true
	}
	return "", false
}

// class1 analyses a class, or only the one string of it given by refine.
func (s *Sweep) class1(c Class, refine *string) {
	l := s.l
	parse := l.fn("parser", "ParseString")
	st := s.base.clone()
	str, exp := c.build(st)
	if refine != nil {
		var only *State
		for _, w := range st.inLang(str, dfaLit(*refine)) {
			if w.b && w.st.feasible() {
				only = w.st
			}
		}
		if only == nil {
			return
		}
		st = only
		defer func(old bool) { exactRun = old }(exactRun)
		exactRun = true
	}
	if s.helper {
		s.span(c, st, str, exp)
		return
	}
	for _, ow := range st.owners(str) {
		if !ow.st.feasible() {
			continue
		}
		cm := &Cmp{l: l, class: c.fam + " " + c.text, input: str, known: s.known, want: s.want, def: l.w.src(parse), undec: map[string]bool{}}
		level, feature := int64(-1), ""
		mk := false
		if ow.f >= 0 {
			level, feature = features[ow.f].level, features[ow.f].name
		} else if n, ok := isMarkerStr(ow.st, str); ok {
			feature, mk = n, true
		}
		s0 := ow.st.clone()
		var parsed []Ret
		if !s.noParse {
			parsed = l.in.call(ow.st.clone(), parse, []Val{str}, nil)
		}
		for _, r := range parsed {
			if !r.st.feasible() {
				continue
			}
			if r.panic != nil {
				cm.report(r.st, aPanic, "outcome", "a result or an error", "panic: "+r.panic.msg, r.panic.pos)
				continue
			}
			t := r.v.(Tuple)
			for _, x := range exp(r.st.clone()) {
				if !x.st.feasible() {
					continue
				}
				s.worlds++
				if ow.f < 0 && !mk {
					x.care, x.err, x.known = true, "any", ""
				}
				x.level, x.feature = level, feature
				cm.result(x.st, t[0], t[1], x)
			}
			if _, isNil := t[0].(Nil); !isNil {
				two := ow.f >= 0 && (features[ow.f].name == "Time Interval" || features[ow.f].name == "Interval")
				if s.general {
					cm.general(r.st, t[0], two)
				}
				if s.purity {
					cm.purity(r.st, t[0])
				}
			}
		}
		if s.direct {
			s.directs(cm, s0, str, exp, ow.f, c.fam)
		}
		if s.matches {
			s.classify(cm, s0, str, ow.f, mk)
		}
		s.oblig += cm.oblig
		s.out = append(s.out, cm.out...)
		for _, u := range sortStrings(cm.undec) {
			s.undec = append(s.undec, "class "+c.fam+" "+c.text+": a result depends on "+u)
		}
	}
}

// span compares the span that the helper derives from the text of a date or an interval.
func (s *Sweep) span(c Class, st *State, str Str, exp func(*State) []xres) {
	l := s.l
	fn := l.w.fn("common", "DateSpanFromEDTF")
	if fn == nil {
		s.missing("common.DateSpanFromEDTF")
		return
	}
	et, sp := l.typ("", "EDTFDate"), l.typ("", "DateSpan")
	cm := &Cmp{l: l, class: "(direct call of common.DateSpanFromEDTF) " + c.fam + " " + c.text, input: str, known: s.known, want: s.want, def: l.w.src(fn), undec: map[string]bool{}}
	for _, r := range l.in.call(st.clone(), fn, []Val{str}, nil) {
		if !r.st.feasible() {
			continue
		}
		if r.panic != nil {
			cm.report(r.st, aPanic, "outcome", "a result or an error", "panic: "+r.panic.msg, r.panic.pos)
			continue
		}
		t := r.v.(Tuple)
		v := t[0]
		if !isNil(v) {
			d := l.in.zeroVal(et).(Agg)
			for _, n := range []string{"Start", "End"} {
				i, ft := fieldIndex(et, n)
				if ft == nil {
					giveUp("no field EDTFDate.%s", n)
				}
				d.f[i] = l.field(r.st, v, sp, n)
			}
			v = Ptr{obj: l.in.newObj(r.st, d, et)}
		}
		for _, x := range exp(r.st.clone()) {
			if x.st.feasible() {
				s.worlds++
				cm.result(x.st, v, t[1], x)
			}
		}
	}
	s.oblig += cm.oblig
	s.out = append(s.out, cm.out...)
	for _, u := range sortStrings(cm.undec) {
		s.undec = append(s.undec, "class "+c.fam+" "+c.text+": a result depends on "+u)
	}
}

// directs calls the parse functions of the features other than the one the parser asks first, and
// the entry points of the levels.
func (s *Sweep) directs(cm *Cmp, st *State, str Str, exp func(*State) []xres, owner int, fam string) {
	l := s.l
	one := func(st *State, f Feature, fn *ssa.Function) {
		old := cm.class
		cm.class = "(direct call of " + fn.Pkg.Pkg.Name() + "." + fn.Name() + ") " + old
		defer func() { cm.class = old }()
		for _, r := range l.in.call(st.clone(), fn, []Val{str}, nil) {
			if !r.st.feasible() {
				continue
			}
			if r.panic != nil {
				cm.report(r.st, aPanic, "outcome", "a result or an error", "panic: "+r.panic.msg, r.panic.pos)
				continue
			}
			t := r.v.(Tuple)
			if f.parse != "" {
				for _, x := range exp(r.st.clone()) {
					if !x.st.feasible() {
						continue
					}
					s.worlds++
					x.level, x.feature = f.level, f.name
					x.start.text, x.end.text = nil, nil
					if fam == "grouping" { // the two grouping parsers differ in the first instant of the end
						x.end.lo.anyDate = x.end.lo.t != nil
					}
					if fam == "date" && f.name == "Sub-year groupings" || fam == "grouping" && f.name != "Seasons" && f.name != "Sub-year groupings" {
						x.care = false // codes that this feature does not give a meaning
					}
					cm.result(x.st, t[0], t[1], x)
				}
			} else {
				cm.result(r.st, t[0], t[1], xres{st: r.st, care: true, err: "any"})
			}
			if _, isNil := t[0].(Nil); !isNil {
				if s.general {
					cm.general(r.st, t[0], f.name == "Time Interval" || f.name == "Interval")
				}
				if s.purity {
					cm.purity(r.st, t[0])
				}
			}
		}
	}
	for i, f := range features {
		if i == owner {
			continue
		}
		for _, b := range st.clone().inLang(str, f.lang()) {
			if b.b && b.st.feasible() {
				if fn := l.w.fn(f.pkg, f.parse); fn != nil {
					one(b.st, f, fn)
				} else {
					s.missing(f.pkg + "." + f.parse)
				}
			}
		}
	}
	for lv := int64(0); lv <= 2; lv++ {
		pkg := fmt.Sprintf("level%d", lv)
		parse, match := l.w.fn(pkg, "ParseString"), l.w.fn(pkg, "Matches")
		if parse == nil || match == nil {
			s.missing(pkg + ".ParseString or " + pkg + ".Matches")
			continue
		}
		if owner >= 0 && features[owner].level == lv {
			continue // what the parser calls
		}
		cur := st.clone()
		for i := range features {
			f := features[i]
			if f.level != lv || cur == nil {
				continue
			}
			var rest *State
			for _, b := range cur.inLang(str, f.lang()) {
				if !b.st.feasible() {
					continue
				}
				if !b.b {
					rest = b.st
					continue
				}
				one(b.st, f, parse)
				s.levelMatches(cm, b.st, str, match, f.name)
			}
			cur = rest
		}
		if cur != nil {
			one(cur, Feature{}, parse)
			s.levelMatches(cm, cur, str, match, "")
		}
	}
}

func (s *Sweep) missing(n string) {
	for _, u := range s.undec {
		if u == "no function "+n {
			return
		}
	}
	s.undec = append(s.undec, "no function "+n)
}

// levelMatches: the classification by one level (name empty: an error).
func (s *Sweep) levelMatches(cm *Cmp, st *State, str Str, fn *ssa.Function, name string) {
	for _, r := range s.l.in.call(st.clone(), fn, []Val{str}, nil) {
		if !r.st.feasible() {
			continue
		}
		s.worlds++
		cm.oblig++
		what := fn.Pkg.Pkg.Name() + ".Matches"
		if r.panic != nil {
			cm.report(r.st, aPanic, what, "an answer", "panic: "+r.panic.msg, r.panic.pos)
			continue
		}
		t := r.v.(Tuple)
		_, enil := t[1].(Nil)
		switch {
		case name == "" && enil:
			cm.report(r.st, aFeature, what, "an error", describe(r.st, t[0]), s.l.w.src(fn))
		case name != "" && !enil:
			cm.report(r.st, aFeature, what, name, "an error", s.l.where(r.st, t[1]))
		case name != "":
			cm.eqText(r.st, aFeature, what, t[0], lit(name), s.l.w.src(fn))
		}
	}
}

// classify compares Matches and IsValid with the grammar.
func (s *Sweep) classify(cm *Cmp, st *State, str Str, f int, mk bool) {
	l := s.l
	fn := l.fn("parser", "Matches")
	for _, r := range l.in.call(st.clone(), fn, []Val{str}, nil) {
		if !r.st.feasible() {
			continue
		}
		s.worlds++
		if r.panic != nil {
			cm.report(r.st, aPanic, "Matches", "an answer", "panic: "+r.panic.msg, r.panic.pos)
			continue
		}
		t := r.v.(Tuple)
		cm.oblig++
		_, enil := t[2].(Nil)
		if f < 0 {
			if enil {
				cm.report(r.st, aFeature, "Matches", "an error", "level "+describe(r.st, t[0])+" feature "+describe(r.st, t[1]), l.w.src(fn))
			}
			continue
		}
		if !enil {
			cm.report(r.st, aFeature, "Matches", features[f].name, "an error", l.where(r.st, t[2]))
			continue
		}
		cm.eqInt(r.st, aFeature, "Matches level", t[0], linC(features[f].level), l.w.src(fn))
		cm.eqText(r.st, aFeature, "Matches feature", t[1], lit(features[f].name), l.w.src(fn))
	}
	iv := l.fn("parser", "IsValid")
	for _, r := range l.in.call(st.clone(), iv, []Val{str}, nil) {
		if !r.st.feasible() {
			continue
		}
		s.worlds++
		if r.panic != nil {
			cm.report(r.st, aPanic, "IsValid", "an answer", "panic: "+r.panic.msg, r.panic.pos)
			continue
		}
		cm.eqBool(r.st, aErr, "IsValid", r.v, f >= 0 || mk, l.w.src(iv))
	}
}

func families(all bool) map[string][]Class {
	return map[string][]Class{
		"date":        clsDates(),
		"qualified":   clsTrailing(),
		"group":       clsGroup(all),
		"individual":  clsIndividual(all),
		"unspecified": clsX(),
		"extended":    clsExtended(),
		"marker":      clsMarkers(),
		"interval0":   clsIntervals0(all),
		"interval2":   clsIntervals2(all),
		"grouping":    clsGroupings(),
		"year":        clsYears(all),
		"datetime":    clsDateTimes(all),
		"set":         clsSets(all),
		"mixed":       clsMixed(all),
		"odd":         clsOdd(),
	}
}

func sortStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
