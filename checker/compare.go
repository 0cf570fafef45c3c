package main

// Comparing the outcomes of the library with the expected ones.

import (
	"fmt"
	"go/types"
	"strings"
)

// aspects of a result
const (
	aErr     = "outcome" // success or error
	aPanic   = "panic"
	aXor     = "result and error"
	aLost    = "lost error"
	aKind    = "error kind"
	aText    = "text"      // EDTF echo
	aFeature = "feature"   // level and feature
	aPresent = "presence"  // start, end, lower, upper present
	aFlags   = "openness"  // open and unknown flags, presence of instants
	aDates   = "dates"     // instants and year-month-day
	aQual    = "qualifier" // uncertain, approximate
	aPrec    = "precision"
	aIncl    = "inclusivity"
	aCoher   = "coherence" // timestamp, datetime text and ymd agree
	aOrder   = "order"     // bounds ordered and in range
	aSides   = "range text"
	aShare   = "sharing"
	aPure    = "purity"
)

type Mismatch struct {
	Aspect  string   `json:"aspect"`
	Class   string   `json:"class"`
	Input   string   `json:"example_input"`
	Field   string   `json:"field"`
	Want    string   `json:"expected"`
	Got     string   `json:"found"`
	Where   string   `json:"where"`
	Known   string   `json:"known_finding,omitempty"`
	Details []string `json:"details,omitempty"`
}

// Cmp compares one outcome.
type Cmp struct {
	l     *Lib
	class string
	input Str
	out   []Mismatch
	known map[string]bool
	want  map[string]bool // aspects of interest (nil: all)
	oblig int             // obligations decided
	def   string          // default location
	undec map[string]bool // calls without a model on paths that would otherwise be reported
}

// unmodelled names a call on the path whose result is not known.
func unmodelled(st *State) string {
	for _, e := range st.events {
		if e.kind == "call" {
			if s, ok := e.args[0].(Str); ok {
				return st.show(s) + " at " + e.pos
			}
		}
	}
	return ""
}

// doubt names what a path depends on without it being known exactly.
func doubt(st *State) string {
	if st.vague != "" {
		return st.vague
	}
	return unmodelled(st)
}

func (c *Cmp) on(aspect string) bool {
	return c.want == nil || c.want[aspect] || (aspect == aPanic || aspect == aXor || aspect == aLost || aspect == aKind) && c.want[aErr]
}

func (c *Cmp) report(st *State, aspect, field, want, got, where string) {
	if !c.on(aspect) {
		return
	}
	if where == "" {
		where = c.def
	}
	if u := doubt(st); u != "" && aspect != aPure && aspect != aShare {
		c.undec[u] = true
		return
	}
	c.out = append(c.out, Mismatch{Aspect: aspect, Class: c.class, Input: st.witness(c.input), Field: field, Want: want, Got: got, Where: where})
}

func (c *Cmp) eqInt(st *State, aspect, field string, v Val, want Lin, where string) {
	c.oblig++
	l, ok := v.(Lin)
	if !ok {
		c.report(st, aspect, field, describe(st, want), describe(st, v), where)
		return
	}
	if st.eqLin(l, want) {
		return
	}
	for _, w := range st.clone().forkCmp(l.minus(want), opNE) {
		if w.b && w.st.feasible() {
			c.report(w.st, aspect, field, describe(w.st, want), describe(w.st, l), where)
			return
		}
	}
}

func (c *Cmp) eqBool(st *State, aspect, field string, v Val, want bool, where string) {
	c.oblig++
	b, ok := v.(bool)
	if !ok || b != want {
		c.report(st, aspect, field, fmt.Sprint(want), describe(st, v), where)
	}
}

func (c *Cmp) eqText(st *State, aspect, field string, v Val, want Str, where string) {
	c.oblig++
	s, ok := v.(Str)
	if !ok {
		c.report(st, aspect, field, describe(st, want), describe(st, v), where)
		return
	}
	for _, w := range st.clone().eqStr(s, want) {
		if !w.b && w.st.feasible() {
			c.report(w.st, aspect, field, describe(w.st, want), describe(w.st, s), where)
			return
		}
	}
}

// timestampOf reads a timestamp through its Unix method.
func (c *Cmp) timestampOf(st *State, ts Val) (Lin, bool) {
	f := c.l.fn("", "*Timestamp.Unix")
	rs := c.l.in.call(st.clone(), f, []Val{ts}, nil)
	if len(rs) == 1 && rs[0].panic == nil {
		if l, ok := rs[0].v.(Lin); ok {
			return l, true
		}
	}
	return Lin{}, false
}

func (c *Cmp) eqTime(st *State, aspect, field string, got *TimeV, want *TimeV, where string) {
	c.oblig++
	if d := st.differTime(got, want); d != nil {
		c.report(d, aspect, field, want.show(d), got.show(d), where)
	}
}

// textTime: the instant an RFC 3339 text denotes; ok is false when the text is not such a rendering.
func textTime(st *State, v Val) (*TimeV, string) {
	s, ok := v.(Str)
	if !ok {
		return nil, "not a text"
	}
	it := st.flatten(s.it)
	if len(it) == 1 && it[0].k == iOpq {
		tg, ok := st.syms[it[0].s].tag.(*FmtTag)
		if !ok {
			return nil, "a text of unknown origin"
		}
		if tg.layout != "2006-01-02T15:04:05Z07:00" {
			return nil, "formatted as " + tg.layout
		}
		if o := st.norm(tg.t.off); tg.t.zone == "local" || !tg.t.opaque && (!o.isConst() || o.c != 0) {
			return nil, "formatted in a zone other than UTC"
		}
		return tg.t, ""
	}
	if len(it) == 0 {
		return nil, "empty"
	}
	return nil, "a text built by hand: " + st.show(s)
}

// date compares one bound.
func (c *Cmp) date(st *State, name string, v Val, dt types.Type, x xdate) {
	w := c.l.where(st, v)
	get := func(n string) Val { return c.l.field(st, v, dt, n) }
	c.eqBool(st, aFlags, name+".Open", get("Open"), x.open, w)
	c.eqBool(st, aFlags, name+".Unknown", get("Unknown"), x.unknown, w)
	c.eqInt(st, aQual, name+".Uncertain", get("Uncertain"), linC(x.unc), w)
	c.eqInt(st, aQual, name+".Approximate", get("Approximate"), linC(x.app), w)
	c.eqInt(st, aPrec, name+".Precision", get("Precision"), linC(x.prec), w)
	c.eqInt(st, aIncl, name+".Inclusivity", get("Inclusivity"), linC(x.incl), w)
	c.eqInt(st, aPrec, name+".Unspecified", get("Unspecified"), linC(0), w)
	ts, dtx, ymd := get("Timestamp"), get("DateTime"), get("YMD")
	if x.anyDate {
		return
	}
	if x.t == nil {
		c.oblig += 3
		if _, ok := ts.(Nil); !ok {
			c.report(st, aFlags, name+".Timestamp", "none", describe(st, ts), w)
		}
		if s, ok := dtx.(Str); !ok || len(st.flatten(s.it)) > 0 {
			c.report(st, aFlags, name+".DateTime", "none", describe(st, dtx), w)
		}
		if _, ok := ymd.(Nil); !ok {
			c.report(st, aFlags, name+".YMD", "none", describe(st, ymd), w)
		}
		return
	}
	c.oblig += 2
	if _, ok := ts.(Nil); ok {
		c.report(st, aFlags, name+".Timestamp", "present", "none", w)
	} else if l, ok := c.timestampOf(st, ts); ok {
		c.eqTime(st, aDates, name+".Timestamp", st.timeOfUnix(l, "UTC"), x.t, w)
	} else {
		c.report(st, aDates, name+".Timestamp", x.t.show(st), describe(st, ts), w)
	}
	if s, ok := dtx.(Str); ok && len(st.flatten(s.it)) == 0 {
		c.report(st, aFlags, name+".DateTime", "present", "none", w)
	} else if t, why := textTime(st, dtx); t != nil {
		c.eqTime(st, aDates, name+".DateTime", t, x.t, w)
	} else {
		c.report(st, aDates, name+".DateTime", x.t.show(st), why, w)
	}
	c.oblig++
	if x.ymd == nil {
		if _, ok := ymd.(Nil); !ok {
			c.report(st, aDates, name+".YMD", "none", describe(st, ymd), w)
		}
		return
	}
	if _, ok := ymd.(Nil); ok {
		c.report(st, aDates, name+".YMD", "present", "none", w)
		return
	}
	yt := c.l.typ("", "YMD")
	yw := c.l.where(st, ymd)
	c.eqInt(st, aDates, name+".YMD.Year", c.l.field(st, ymd, yt, "Year"), x.ymd.y, yw)
	c.eqInt(st, aDates, name+".YMD.Month", c.l.field(st, ymd, yt, "Month"), x.ymd.m, yw)
	c.eqInt(st, aDates, name+".YMD.Day", c.l.field(st, ymd, yt, "Day"), x.ymd.d, yw)
}

// bounds of a result
type boundRef struct {
	name string
	v    Val
}

// parts finds the four bounds of a result; nil when one is missing (reported).
func (c *Cmp) parts(st *State, v Val) []boundRef {
	et, rt := c.l.typ("", "EDTFDate"), c.l.typ("", "DateRange")
	var out []boundRef
	for _, side := range []string{"Start", "End"} {
		c.oblig++
		r := c.l.field(st, v, et, side)
		if _, ok := r.(Ptr); !ok {
			c.report(st, aPresent, side, "present", describe(st, r), c.l.where(st, v))
			return nil
		}
		for _, b := range []string{"Lower", "Upper"} {
			c.oblig++
			d := c.l.field(st, r, rt, b)
			if _, ok := d.(Ptr); !ok {
				c.report(st, aPresent, side+"."+b, "present", describe(st, d), c.l.where(st, r))
				return nil
			}
			out = append(out, boundRef{side + "." + b, d})
		}
	}
	return out
}

// result compares an outcome of ParseString (value, error) with what is expected in the same state.
func (c *Cmp) result(st *State, v, err Val, x xres) {
	_, vnil := v.(Nil)
	_, enil := err.(Nil)
	c.oblig++
	if vnil == enil {
		c.report(st, aXor, "result", "a result or an error, not both", fmt.Sprintf("result %s, error %s", describe(st, v), describe(st, err)), c.l.where(st, err))
		return
	}
	if !x.care {
		return
	}
	if x.err != "" {
		if vnil {
			if x.known != "" && c.on(aErr) {
				c.known[x.known] = true
			}
			if k := c.l.errKind(st, err); x.err != "any" && k != x.err {
				c.report(st, aKind, "error kind", x.err, k, c.l.where(st, err))
			}
			return
		}
		if x.known != "" {
			return // better than what is known to fail: the general rules still apply
		}
		c.report(st, aLost, "outcome", "an error ("+x.err+")", "a result", c.l.where(st, v))
		return
	}
	if vnil {
		c.report(st, aErr, "outcome", "a result", "error "+c.l.errKind(st, err), c.l.where(st, err))
		return
	}
	et, rt, dt := c.l.typ("", "EDTFDate"), c.l.typ("", "DateRange"), c.l.typ("", "Date")
	w := c.l.where(st, v)
	c.eqText(st, aText, "EDTF", c.l.field(st, v, et, "EDTF"), c.input, w)
	c.eqInt(st, aFeature, "Level", c.l.field(st, v, et, "Level"), linC(x.level), w)
	c.eqText(st, aFeature, "Feature", c.l.field(st, v, et, "Feature"), lit(x.feature), w)
	ps := c.parts(st, v)
	if ps == nil {
		return
	}
	for i, d := range []xdate{x.start.lo, x.start.hi, x.end.lo, x.end.hi} {
		c.date(st, ps[i].name, ps[i].v, dt, d)
	}
	for _, s := range []struct {
		n string
		r xrange
	}{{"Start", x.start}, {"End", x.end}} {
		if s.r.text != nil {
			r := c.l.field(st, v, et, s.n)
			c.eqText(st, aSides, s.n+".EDTF", c.l.field(st, r, rt, "EDTF"), *s.r.text, c.l.where(st, r))
		}
	}
}

// general checks the rules that hold for every successful parse.
func (c *Cmp) general(st *State, v Val, twoDates bool) {
	ps := c.parts(st, v)
	if ps == nil {
		return
	}
	dt, yt := c.l.typ("", "Date"), c.l.typ("", "YMD")
	var ts []*TimeV
	for _, p := range ps {
		w := c.l.where(st, p.v)
		get := func(n string) Val { return c.l.field(st, p.v, dt, n) }
		tv, dv, yv := get("Timestamp"), get("DateTime"), get("YMD")
		_, tn := tv.(Nil)
		ds, _ := dv.(Str)
		dn := len(st.flatten(ds.it)) == 0
		_, yn := yv.(Nil)
		c.oblig++
		if tn != dn {
			c.report(st, aCoher, p.name, "timestamp and datetime both present or both absent", fmt.Sprintf("timestamp absent: %v, datetime absent: %v", tn, dn), w)
		}
		var t *TimeV
		if !tn {
			if l, ok := c.timestampOf(st, tv); ok {
				t = st.timeOfUnix(l, "UTC")
			}
		}
		ts = append(ts, t)
		if t != nil && !dn {
			tt, why := textTime(st, dv)
			if tt == nil {
				c.report(st, aCoher, p.name+".DateTime", "the RFC 3339 text of the timestamp in UTC", why, w)
			} else {
				c.eqTime(st, aCoher, p.name+".DateTime", tt, t, w)
			}
		}
		if yn {
			continue
		}
		y, m, d := c.l.field(st, yv, yt, "Year"), c.l.field(st, yv, yt, "Month"), c.l.field(st, yv, yt, "Day")
		yl, ok1 := y.(Lin)
		ml, ok2 := m.(Lin)
		dl, ok3 := d.(Lin)
		yw := c.l.where(st, yv)
		if !ok1 || !ok2 || !ok3 {
			c.report(st, aOrder, p.name+".YMD", "an existing day", "unknown", yw)
			continue
		}
		c.within(st, p.name+".YMD.Year", yl, -9999, 9999, yw)
		c.within(st, p.name+".YMD.Month", ml, 1, 12, yw)
		if ms, ok := st.clone().splitValues(ml, 64); ok {
			for _, s := range ms {
				mc := s.norm(ml).c
				if mc < 1 || mc > 12 {
					continue
				}
				for _, z := range s.dim(yl, mc) {
					hi := z.st.norm(z.l)
					c.within(z.st, p.name+".YMD.Day", dl, 1, hi.c, yw)
				}
			}
		} else {
			c.report(st, aOrder, p.name+".YMD.Month", "a month", describe(st, ml), yw)
		}
		if t != nil && c.on(aCoher) {
			c.oblig++
			for _, u := range st.clone().utc(t) {
				for _, f := range []struct {
					n    string
					a, b Lin
				}{{"Year", u.t.y, yl}, {"Month", u.t.m, ml}, {"Day", u.t.d, dl}} {
					c.eqInt(u.st, aCoher, p.name+".YMD."+f.n, f.b, f.a, yw)
				}
			}
		} else if t == nil {
			c.report(st, aCoher, p.name+".YMD", "none without a timestamp", "present", yw)
		}
	}
	if c.on(aOrder) {
		le := func(a, b int) {
			if ts[a] == nil || ts[b] == nil {
				return
			}
			c.oblig++
			for _, w := range st.clone().cmpTime(ts[a], ts[b]) {
				if w.c > 0 && !w.st.closureContradicts() && w.st.feasible() {
					c.report(w.st, aOrder, ps[a].name+" <= "+ps[b].name, "ordered", ts[a].show(w.st)+" > "+ts[b].show(w.st), c.l.where(st, ps[a].v))
					return
				}
			}
		}
		le(0, 1)
		le(2, 3)
		if !twoDates {
			le(0, 2)
			le(1, 3)
		}
	}
}

func (c *Cmp) within(st *State, field string, l Lin, lo, hi int64, where string) {
	c.oblig++
	a, b := st.bounds(l)
	if a >= lo && b <= hi {
		return
	}
	for _, w := range st.clone().fork3Range(l, lo, hi) {
		if w.c != 0 && w.st.feasible() {
			c.report(w.st, aOrder, field, fmt.Sprintf("%d..%d", lo, hi), describe(w.st, l), where)
			return
		}
	}
}

// reach lists the objects reachable from a value.
func (c *Cmp) reach(st *State, v Val, seen map[int]bool) {
	switch x := v.(type) {
	case Ptr:
		if seen[x.obj] {
			return
		}
		seen[x.obj] = true
		c.reach(st, st.obj(x.obj), seen)
	case Agg:
		for _, f := range x.f {
			c.reach(st, f, seen)
		}
	case Iface:
		c.reach(st, x.v, seen)
	case Slice:
		c.reach(st, x.arr, seen)
	case MapRef:
		if seen[x.obj] {
			return
		}
		seen[x.obj] = true
	case Tuple:
		for _, f := range x {
			c.reach(st, f, seen)
		}
	}
}

// impure: an effect, or something that varies between runs.
func impure(st *State, e Event) string {
	switch k := strings.Fields(e.kind)[0]; k {
	case "env", "write", "log", "exit", "go", "json":
		if k == "json" {
			return ""
		}
		return strings.TrimSpace(e.kind + " " + argText(st, e))
	case "call":
		if s, ok := e.args[0].(Str); ok {
			if n := st.show(s); impureFn(n) {
				return "call of " + n
			}
		}
	}
	return ""
}

// impureFn: standard library functions that do input/output, read the environment, or are random.
func impureFn(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"os.", "os/", "net.", "net/", "log.", "log/", "math/rand", "crypto/rand", "syscall.", "time.Now", "time.Since", "time.Until", "time.Sleep", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.LoadLocation", "runtime.", "io/ioutil.", "flag.", "maphash", "hash/maphash.", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.Abs"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// purity checks that a call touched nothing shared, read nothing that varies and did nothing else.
func (c *Cmp) purity(st *State, v Val) {
	c.oblig++
	if len(st.wrote) > 0 {
		c.report(st, aPure, "package state", "unchanged", st.wrote[0], "")
	}
	for _, e := range st.events {
		if d := impure(st, e); d != "" {
			c.report(st, aPure, "effect", "none", d, e.pos)
			break
		}
	}
	seen := map[int]bool{}
	c.reach(st, v, seen)
	for o := range seen {
		c.oblig++
		if o < len(st.base) {
			c.report(st, aShare, "result", "made of fresh objects only", c.l.in.objName(o), "")
		}
	}
}

func argText(st *State, e Event) string {
	s := ""
	for _, a := range e.args {
		if x, ok := a.(Str); ok {
			s += st.show(x) + " "
		}
	}
	return s
}

func (in *Interp) objName(o int) string {
	for g, k := range in.globals {
		if k == o {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	// reachable from a package variable?
	for g, k := range in.globals {
		seen := map[int]bool{}
		(&Cmp{}).reach(in.base, in.base.obj(k), seen)
		if seen[o] {
			return "an object shared through " + g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	return fmt.Sprintf("shared object %d", o)
}
