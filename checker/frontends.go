package main

// C20: the front ends report every outcome.

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Assumed of the library while a front end is analysed (C01, C02 and C14 decide it): ParseString
// gives a fresh result or an error, Matches a level of 0 to 2 and a name or an error, and both
// give the same for the same text.

const (
	evParse = "outcome of ParseString"
	evMatch = "outcome of Matches"
)

func sameItems(a, b []Item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].k != b[i].k || a[i].k == iLit && a[i].b != b[i].b || a[i].k != iLit && a[i].s != b[i].s {
			return false
		}
	}
	return true
}

func hasItems(line, part []Item) bool {
	for i := 0; i+len(part) <= len(line); i++ {
		if sameItems(line[i:i+len(part)], part) {
			return true
		}
	}
	return false
}

// outcomeOf finds what a function gave for a text.
func outcomeOf(st *State, kind string, text Str) *Event {
	for i := range st.events {
		e := &st.events[i]
		if e.kind == kind && sameItems(st.flatten(e.args[0].(Str).it), st.flatten(text.it)) {
			return e
		}
	}
	return nil
}

// stub replaces a function of the parser.
func stub(kind string, mk func(in *Interp, st *State) []Val) modelFn {
	return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if len(args) != 1 {
			giveUp("%s with %d arguments", ctx.fn, len(args))
		}
		text := strOf(args[0])
		res := func(e *Event) Val {
			return append(append(Tuple(nil), e.args[2:len(e.args)-1]...), e.args[len(e.args)-1])
		}
		if e := outcomeOf(st, kind, text); e != nil {
			return ret1(st, res(e))
		}
		bad := st.clone()
		vals := mk(in, st)
		in.event(st, kind, ctx.pos, append(append([]Val{text, true}, vals...), Nil{})...)
		var none []Val
		for _, v := range vals {
			switch v.(type) {
			case Ptr:
				none = append(none, Nil{})
			case Str:
				none = append(none, Str{})
			default:
				none = append(none, linC(-1))
			}
		}
		in.event(bad, kind, ctx.pos, append(append([]Val{text, false}, none...), in.errIface("parser", bad.anyStr("error text")))...)
		return []Ret{{st: st, v: res(&st.events[len(st.events)-1])}, {st: bad, v: res(&bad.events[len(bad.events)-1])}}
	}
}

// front is one front end in the world it is built for.
type front struct {
	*Run
	w    *World
	in   *Interp
	base *State
	l    *Lib

	done    map[string]bool // what this unit has found
	pending string          // a difference that depends on something not known exactly
	spec    []string        // the arguments being tried instead
}

func (r *Run) front(ls *loadSpec) *front {
	f := &front{Run: r, w: r.w, in: r.in, base: r.base, l: r.l}
	if ls != nil {
		w, err := loadWorld(r.root, *ls)
		if err != nil {
			giveUp("cannot load %s for %s: %v", ls.patterns[0], ls.goos, err)
		}
		f.w, f.in = w, newInterp(w)
		f.base = f.in.start()
		f.l = &Lib{f.in, w}
	}
	f.in.stubs = map[*ssa.Function]modelFn{}
	ps, ms := f.w.fn("parser", "ParseString"), f.w.fn("parser", "Matches")
	if ps == nil {
		giveUp("no function parser.ParseString")
	}
	f.in.stubs[ps] = stub(evParse, func(in *Interp, st *State) []Val {
		t := f.l.typ("", "EDTFDate")
		return []Val{Ptr{obj: in.newObj(st, in.expandUnknown(Unknown{t}), t)}}
	})
	if ms != nil {
		f.in.stubs[ms] = stub(evMatch, func(in *Interp, st *State) []Val {
			return []Val{linS(st.newInt(0, 2, "level")), st.langStr(patDFA(`(?s:[^\n]+)`), "feature")}
		})
	}
	return f
}

// with runs f with the budget of the front end's interpreter.
func (f *front) unit(what string, g func()) {
	f.guard(what, func() {
		defer f.in.reset()
		f.in.steps, f.in.maxSteps = 0, 4_000_000
		unitDeadline = time.Now().Add(60 * time.Second)
		f.done, f.pending, f.spec = map[string]bool{}, "", nil
		exactly(g)
		if f.pending != "" && len(f.done) == 0 {
			giveUp("%s", f.pending)
		}
	})
}

// probes: arguments tried one by one when an outcome for any text is not known exactly.
var probes = []string{" 1985", "1985 ", "1985\n", "a,b", "-", "\"", "'", "A", "a b", "%s", "\\", "1985-01", "x", "Y", "é"}

// texts makes the arguments: nil stands for any text.
func (f *front) texts(st *State, spec []string) []Str {
	var out []Str
	for i, s := range spec {
		if s == "*" {
			out = append(out, st.anyStr(fmt.Sprintf("argument%d", i+1)))
		} else {
			out = append(out, lit(s))
		}
	}
	return out
}

// command runs main with the given arguments, and with others when a difference is not certain.
func (f *front) command(fn *ssa.Function, spec []string, check func(st *State, args []Str, out, diag []Item, status string)) {
	f.runMain(fn, spec, check)
	for _, p := range probes {
		if f.pending == "" || len(f.done) > 0 {
			return
		}
		var sp []string
		for _, x := range spec {
			if x == "*" {
				x, p = p, p+"0"
			}
			sp = append(sp, x)
		}
		if strings.Join(sp, "\x00") != strings.Join(spec, "\x00") {
			f.spec = sp
			f.runMain(fn, sp, check)
			f.spec = nil
		}
	}
}

// runMain runs main with the given arguments.
func (f *front) runMain(fn *ssa.Function, spec []string, check func(st *State, args []Str, out, diag []Item, status string)) {
	st := f.base.clone()
	args := f.texts(st, spec)
	argv := func(st *State) Val {
		var vs []Val
		for _, a := range args {
			vs = append(vs, a)
		}
		if len(vs) == 0 {
			return f.in.sliceOf(st, nil, types.Typ[types.String])
		}
		return f.in.sliceOf(st, vs, types.Typ[types.String])
	}
	f.in.argv = argv
	defer func() { f.in.argv = nil }()
	if p := f.w.byPath["os"]; p != nil {
		if g, ok := p.Members["Args"].(*ssa.Global); ok {
			var vs []Val
			vs = append(vs, lit("program"))
			for _, a := range args {
				vs = append(vs, a)
			}
			f.in.store(st, Ptr{obj: f.in.globals[g]}, f.in.sliceOf(st, vs, types.Typ[types.String]))
		}
	}
	outs := 0
	for _, o := range f.in.call(st, fn, nil, nil) {
		if !o.st.feasible() {
			continue
		}
		outs++
		f.oblig++
		var out, diag []Item
		for _, e := range o.st.events {
			if strings.HasPrefix(e.kind, "write ") {
				it := o.st.flatten(e.args[0].(Str).it)
				for _, t := range strings.Split(strings.TrimPrefix(e.kind, "write "), "+") {
					switch t {
					case "os.Stdout":
						out = append(out, it...)
					case "os.Stderr":
						diag = append(diag, it...)
					default:
						giveUp("a write to an unknown destination at %s", e.pos)
					}
				}
			}
		}
		status := "0"
		switch {
		case o.panic != nil && !o.panic.exit:
			status = "panic: " + o.panic.msg
		case o.panic != nil:
			status = "1"
			for _, e := range o.st.events {
				if e.kind == "exit" {
					if l, ok := e.args[0].(Lin); ok && o.st.norm(l).isConst() {
						status = fmt.Sprint(o.st.norm(l).c)
					}
				}
			}
		}
		if u := unmodelled(o.st); u != "" {
			giveUp("an outcome depends on %s", u)
		}
		check(o.st, args, out, diag, status)
	}
	if outs == 0 {
		giveUp("%s has no outcome", f.name(fn))
	}
	f.counts["argument lists"]++
}

func (f *front) found(fn *ssa.Function, spec []string, st *State, args []Str, want, got string) {
	if f.spec != nil {
		spec = f.spec
	}
	if st.vague != "" {
		f.pending = fmt.Sprintf("expected %s, found %s, which depends on %s", want, got, st.vague)
		return
	}
	if f.done[want] {
		return
	}
	f.done[want] = true
	// which arguments fail
	var t []string
	for i, a := range args {
		s := fmt.Sprintf("argument %d", i+1)
		if spec[i] != "*" {
			s += fmt.Sprintf(" (%q)", spec[i])
		}
		for _, k := range []string{evParse, evMatch} {
			if e := outcomeOf(st, k, a); e != nil {
				s += map[bool]string{true: " is fine", false: " fails"}[e.args[1].(bool)]
			}
		}
		t = append(t, s)
	}
	in := strings.Join(t, ", ")
	if in == "" {
		in = "no arguments"
	}
	for _, e := range st.events {
		if e.kind == "json error" {
			in += ", encoding fails"
			break
		}
	}
	f.violate(Mismatch{Aspect: "front end", Class: f.name(fn), Input: in, Field: f.name(fn), Want: want, Got: got, Where: f.w.src(fn)})
}

// jsonOf is the value a text is the JSON of.
func jsonOf(st *State, it []Item) Val {
	if len(it) == 1 && it[0].k == iOpq {
		if j, ok := st.syms[it[0].s].tag.(*jsonTag); ok {
			v := j.v
			if i, ok := v.(Iface); ok {
				v = i.v
			}
			return v
		}
	}
	return nil
}

func trimSpace(it []Item) []Item {
	sp := func(x Item) bool { return x.k == iLit && strings.IndexByte(" \t\r\n", x.b) >= 0 }
	for len(it) > 0 && sp(it[0]) {
		it = it[1:]
	}
	for len(it) > 0 && sp(it[len(it)-1]) {
		it = it[:len(it)-1]
	}
	return it
}

// array reads a JSON array; ok is false when it is not one.
func (f *front) array(st *State, it []Item) (els []Val, ok bool) {
	it = trimSpace(it)
	if v := jsonOf(st, it); v != nil {
		if _, isNil := v.(Nil); isNil {
			return nil, false // null
		}
		sl, isSl := v.(Slice)
		if !isSl {
			return nil, false
		}
		for _, e := range f.in.elems(st, sl) {
			if i, ok := e.(Iface); ok {
				e = i.v
			}
			if b, ok := e.(BytesV); ok { // raw JSON
				e = jsonOf(st, trimSpace(st.flatten(b.s.it)))
			}
			els = append(els, e)
		}
		return els, true
	}
	if len(it) < 2 || it[0].k != iLit || it[0].b != '[' || it[len(it)-1].k != iLit || it[len(it)-1].b != ']' {
		return nil, false
	}
	it = trimSpace(it[1 : len(it)-1])
	if len(it) == 0 {
		return nil, true
	}
	var cur []Item
	flush := func() bool {
		v := jsonOf(st, trimSpace(cur))
		cur = nil
		els = append(els, v)
		return v != nil
	}
	for _, x := range it {
		if x.k == iLit && x.b == ',' {
			if !flush() {
				return nil, false
			}
			continue
		}
		cur = append(cur, x)
	}
	if !flush() {
		return nil, false
	}
	return els, true
}

func failure(st *State, args []Str, kind string) bool {
	for _, e := range st.events {
		if e.kind == "json error" || e.kind == kind && e.args[1] == false {
			return true
		}
	}
	return false
}

// argLists are the argument lists: any texts, and texts that are equal, empty or markers.
func argLists(all bool) [][]string {
	out := [][]string{{}, {"*"}, {"*", "*"}, {"*", "*", "*"}, {"*", "*", "*", "*"}, {"*", "*", "*", "*", "*"},
		{""}, {"..", "*"}, {"*", ""}, {"1985", "1985"}, {"1985", "*", "1985"}, {"1985-04", "../1985", "?"}, {"open", "uuuu", "-1985"}}
	if all {
		out = append(out, []string{"*", "*", "*", "*", "*", "*"}, []string{"*", "*", "*", "*", "*", "*", "*", "*"})
	}
	return out
}

func (f *front) parseTool() {
	fn := f.w.fn("cmd/parse", "main")
	if fn == nil {
		f.undec = append(f.undec, "no function cmd/parse.main")
		return
	}
	for _, spec := range argLists(f.all) {
		spec := spec
		f.unit(fmt.Sprintf("cmd/parse with arguments %q", spec), func() {
			f.command(fn, spec, func(st *State, args []Str, out, diag []Item, status string) {
				bad := func(want, got string) {
					f.found(fn, spec, st, args, want, got)
				}
				failed := failure(st, args, evParse)
				switch {
				case strings.HasPrefix(status, "panic"):
					bad("output or a diagnostic", status)
				case status != "0" && !failed:
					bad("a JSON array", "exit status "+status)
				case status != "0" && len(trimSpace(diag)) == 0:
					bad("a diagnostic", "exit status "+status+" without one")
				case status == "0" && failed:
					bad("a diagnostic and a failing exit status", "exit status 0")
				case status == "0":
					els, ok := f.array(st, out)
					if !ok {
						bad(fmt.Sprintf("a JSON array of %d elements", len(args)), st.show(Str{out}))
						return
					}
					if len(els) != len(args) {
						bad(fmt.Sprintf("a JSON array of %d elements", len(args)), fmt.Sprintf("%d elements", len(els)))
						return
					}
					for i, a := range args {
						e := outcomeOf(st, evParse, a)
						if e == nil || !samePtr(els[i], e.args[2]) {
							bad("every argument's own result, in order", fmt.Sprintf("element %d is not the result of argument %d", i+1, i+1))
							return
						}
					}
				}
			})
		})
	}
}

func samePtr(a, b Val) bool {
	x, ok1 := a.(Ptr)
	y, ok2 := b.(Ptr)
	return ok1 && ok2 && x.obj == y.obj && len(x.path) == 0 && len(y.path) == 0
}

// lines splits a text at its line feeds; ok is false when it does not end in one.
func lines(it []Item) (out [][]Item, ok bool) {
	var cur []Item
	for _, x := range it {
		if x.k == iLit && x.b == '\n' {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	return out, len(cur) == 0
}

func (f *front) matchesTool() {
	fn := f.w.fn("cmd/matches", "main")
	if fn == nil {
		f.undec = append(f.undec, "no function cmd/matches.main")
		return
	}
	for _, spec := range argLists(f.all) {
		spec := spec
		f.unit(fmt.Sprintf("cmd/matches with arguments %q", spec), func() {
			f.command(fn, spec, func(st *State, args []Str, out, diag []Item, status string) {
				bad := func(want, got string) {
					f.found(fn, spec, st, args, want, got)
				}
				failed := failure(st, args, evMatch)
				switch {
				case strings.HasPrefix(status, "panic"):
					bad("output or a diagnostic", status)
				case status != "0" && !failed:
					bad("one line for every argument", "exit status "+status)
				case status != "0" && len(trimSpace(diag)) == 0:
					bad("a diagnostic", "exit status "+status+" without one")
				case status == "0" && failed:
					bad("a diagnostic and a failing exit status", "exit status 0")
				case status == "0":
					ls, ok := lines(out)
					if !ok || len(ls) != len(args) {
						bad("one line for every argument", st.show(Str{out}))
						return
					}
					var feats [][]Item
					for _, a := range args {
						e := outcomeOf(st, evMatch, a)
						if e == nil {
							bad("the level and feature of every argument", "an argument that is not classified")
							return
						}
						feats = append(feats, st.flatten(e.args[3].(Str).it))
					}
					for i, a := range args {
						e := outcomeOf(st, evMatch, a)
						rest := ls[i]
						arg := st.flatten(a.it)
						k := -1
						for j := 0; j+len(arg) <= len(rest); j++ {
							if sameItems(rest[j:j+len(arg)], arg) {
								k = j
								break
							}
						}
						if k < 0 {
							bad("the argument on its line", st.show(Str{ls[i]}))
							return
						}
						rest = append(append([]Item(nil), rest[:k]...), rest[k+len(arg):]...)
						if !hasItems(rest, feats[i]) {
							bad("the feature of the argument on its line", st.show(Str{ls[i]}))
							return
						}
						for j := range feats {
							if !sameItems(feats[i], feats[j]) && hasItems(rest, feats[j]) {
								bad("only the argument's own feature on its line", st.show(Str{ls[i]}))
								return
							}
						}
						// the level, for each value it may have
						lv := e.args[2].(Lin)
						for n := int64(0); n <= 2; n++ {
							w := st.clone()
							if !w.assumeRange(lv, n, n) || !w.feasible() {
								continue
							}
							digits, wrong := 0, false
							for _, x := range w.flatten(rest) {
								if x.k == iOpq {
									continue
								}
								if cs := w.itemCS(x); !cs.and(csDigit).empty() {
									digits++
									if cs.count() != 1 || int64(cs.first()-'0') != n {
										wrong = true
									}
								}
							}
							if wrong || digits == 0 {
								bad("the level of the argument on its line", fmt.Sprintf("%s where the level is %d", w.show(Str{ls[i]}), n))
								return
							}
						}
					}
				}
			})
		})
	}
}

// errText is the text of the error of a failed event.
func errText(v Val) ([]Item, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if e, ok := v.(*ErrV); ok {
		return e.msg.it, true
	}
	return nil, false
}

// reported tells what is wrong with a text for the outcome of parsing one argument.
func (f *front) reported(st *State, it []Item, arg Str) (want string) {
	it = st.flatten(it)
	e := outcomeOf(st, evParse, arg)
	if e == nil {
		return "the outcome of parsing the argument"
	}
	if e.args[1] == false {
		t, ok := errText(e.args[len(e.args)-1])
		if !ok || !hasItems(it, st.flatten(t)) {
			return "the text of the error"
		}
		return ""
	}
	for _, j := range st.events {
		if j.kind == "json error" && samePtr(j.args[0], e.args[2]) {
			if t, ok := errText(j.args[1]); !ok || !hasItems(it, st.flatten(t)) {
				return "the text of the error"
			}
			return ""
		}
	}
	if !samePtr(jsonOf(st, trimSpace(it)), e.args[2]) {
		return "the JSON of the result"
	}
	return ""
}

func (r *Run) wasi() {
	r.guard("cmd/parse-wasi", func() {
		f := r.front(&loadSpec{goos: "wasip1", goarch: "wasm", patterns: []string{"./cmd/parse-wasi"}})
		if fn := f.w.fn("cmd/parse-wasi", "parse"); fn != nil {
			f.unit("cmd/parse-wasi parse on any text", func() {
				for _, spec := range append([]string{"*", "", "..", "1985"}, probes...) {
					st := f.base.clone()
					args := f.texts(st, []string{spec})
					outs := 0
					for _, o := range f.in.call(st, fn, []Val{args[0]}, nil) {
						if !o.st.feasible() {
							continue
						}
						outs++
						f.oblig++
						if u := unmodelled(o.st); u != "" {
							giveUp("an outcome depends on %s", u)
						}
						if o.panic != nil {
							f.found(fn, []string{spec}, o.st, args, "a text", "panic: "+o.panic.msg)
							continue
						}
						if want := f.reported(o.st, strOf(o.v).it, args[0]); want != "" {
							f.found(fn, []string{spec}, o.st, args, want, o.st.show(strOf(o.v)))
						}
					}
					if outs == 0 {
						giveUp("no outcome")
					}
				}
			})
		} else {
			f.undec = append(f.undec, "no function cmd/parse-wasi.parse")
		}
		fn := f.w.fn("cmd/parse-wasi", "main")
		if fn == nil {
			f.undec = append(f.undec, "no function cmd/parse-wasi.main")
			return
		}
		for _, spec := range argLists(f.all) {
			spec := spec
			if len(spec) > 4 {
				continue
			}
			f.unit(fmt.Sprintf("cmd/parse-wasi with arguments %q", spec), func() {
				f.command(fn, spec, func(st *State, args []Str, out, diag []Item, status string) {
					bad := func(want, got string) {
						f.found(fn, spec, st, args, want, got)
					}
					if strings.HasPrefix(status, "panic") {
						bad("a line for every argument", status)
						return
					}
					ls, ok := lines(out)
					if !ok || len(ls) != len(args) {
						bad("a line for every argument", st.show(Str{out}))
						return
					}
					for i, a := range args {
						if want := f.reported(st, ls[i], a); want != "" {
							bad(want+" on the line of the argument", st.show(Str{ls[i]}))
							return
						}
					}
				})
			})
		}
	})
}

func (r *Run) wasmjs() {
	r.guard("cmd/parse-wasm", func() {
		f := r.front(&loadSpec{goos: "js", goarch: "wasm", tags: "wasmjs", patterns: []string{"./cmd/parse-wasm"}})
		fn := f.w.fn("cmd/parse-wasm", "main")
		if fn == nil {
			f.undec = append(f.undec, "no function cmd/parse-wasm.main")
			return
		}
		var ready []*State
		f.unit("cmd/parse-wasm main", func() {
			f.in.onBlock = func(st *State) { ready = append(ready, st.clone()) }
			defer func() { f.in.onBlock = nil }()
			for _, o := range f.in.call(f.base.clone(), fn, nil, nil) {
				if !o.st.feasible() {
					continue
				}
				f.oblig++
				got := "main returns"
				if o.panic != nil {
					got = "panic: " + o.panic.msg
				}
				f.found(fn, nil, o.st, nil, "a program that goes on serving calls", got)
			}
			if len(ready) == 0 {
				giveUp("main neither returns nor waits")
			}
		})
		for _, st0 := range ready {
			st0 := st0
			f.unit("the JavaScript function parse_edtf", func() {
				if u := unmodelled(st0); u != "" {
					giveUp("an outcome depends on %s", u)
				}
				var handler Val
				var id string
				for _, e := range st0.events {
					if e.kind == "js.Set" {
						if n, ok := st0.constStr(e.args[0].(Str)); ok && n == "parse_edtf" {
							id, handler = jsFunc(f.in, st0, e.args[1])
						}
					}
				}
				if handler == nil {
					f.found(fn, nil, st0, nil, "a global function parse_edtf", "none")
					return
				}
				if jsReleased(st0, id) {
					f.found(fn, nil, st0, nil, "a function that can be called", "a function that has been released")
					return
				}
				for _, spec := range append([]string{"*", "", "1985", ".."}, probes...) {
					st := st0.clone()
					st.events = nil
					args := f.texts(st, []string{spec})
					av := Opaque{tag: "js.value:" + fmt.Sprint(f.in.newObj(st, args[0], types.Typ[types.String]))}
					vs := f.in.sliceOf(st, []Val{av}, nil)
					outs := 0
					for _, o := range f.in.callVal(st, handler, []Val{Opaque{tag: "js.undefined"}, vs}, nil) {
						if !o.st.feasible() {
							continue
						}
						outs++
						f.oblig++
						f.settled(fn, spec, o, args)
					}
					if outs == 0 {
						giveUp("no outcome")
					}
				}
			})
		}
	})
}

// settled checks one outcome of calling the function from JavaScript.
func (f *front) settled(fn *ssa.Function, spec string, o Ret, args []Str) {
	st := o.st
	bad := func(want, got string) { f.found(fn, []string{spec}, st, args, want, got) }
	if u := unmodelled(st); u != "" {
		giveUp("an outcome depends on %s", u)
	}
	if o.panic != nil {
		bad("a promise", "panic: "+o.panic.msg)
		return
	}
	v := o.v
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if p, ok := v.(Opaque); !ok || !strings.HasPrefix(p.tag, "js.promise") {
		bad("a promise", describe(st, v))
		return
	}
	var settles []Event
	for _, e := range st.events {
		switch e.kind {
		case "js.resolve", "js.reject":
			settles = append(settles, e)
		case "js.Func":
			id, _ := st.constStr(e.args[0].(Str))
			if !jsReleased(st, id) {
				bad("every handler released", "a handler that stays alive, made at "+e.pos)
			}
		case "js.stale":
			bad("a promise that is settled", "the handler is released before it is used, at "+e.pos)
		}
	}
	if len(settles) != 1 {
		bad("a promise that is settled exactly once", fmt.Sprintf("settled %d times", len(settles)))
		return
	}
	s := settles[0]
	failed := failure(st, args, evParse)
	if failed != (s.kind == "js.reject") {
		bad(map[bool]string{true: "a rejected promise", false: "a fulfilled promise"}[failed], map[bool]string{true: "a fulfilled one", false: "a rejected one"}[failed])
		return
	}
	var it []Item
	switch x := s.args[0].(type) {
	case Str:
		it = x.it
	case Opaque:
		giveUp("a promise settled with %s", x.tag)
	default:
		bad("a text", describe(st, s.args[0]))
		return
	}
	if want := f.reported(st, it, args[0]); want != "" {
		bad(want, st.show(Str{it}))
	}
}

// ---------- syscall/js ----------

func jsFunc(in *Interp, st *State, v Val) (string, Val) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if a, ok := v.(Agg); ok && len(a.f) > 0 {
		v = a.f[0]
	}
	o, ok := v.(Opaque)
	if !ok || !strings.HasPrefix(o.tag, "js.func:") {
		return "", nil
	}
	id := strings.TrimPrefix(o.tag, "js.func:")
	n := 0
	fmt.Sscan(id, &n)
	return id, st.obj(n)
}

func jsReleased(st *State, id string) bool {
	for _, e := range st.events {
		if e.kind == "js.Release" {
			if s, _ := st.constStr(e.args[0].(Str)); s == id {
				return true
			}
		}
	}
	return false
}

// jsConv is what ValueOf accepts.
func jsConv(in *Interp, st *State, v Val, ctx *callCtx) (Val, *PanicInfo) {
	i, ok := v.(Iface)
	if !ok {
		switch v.(type) {
		case Nil:
			return Opaque{tag: "js.null"}, nil
		case Str, Lin, bool, Opaque, Agg:
			return v, nil
		}
		giveUp("JavaScript value of %T", v)
	}
	if n, ok := i.t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "syscall/js" {
		return i.v, nil
	}
	switch t := i.t.(type) {
	case *types.Basic:
		return i.v, nil
	case *types.Slice, *types.Map:
		_ = t
		return Opaque{tag: "js.object"}, nil
	}
	p := &PanicInfo{msg: "ValueOf: invalid value", pos: ctx.pos}
	if ctx.site != nil {
		p.fn = ctx.site.Parent().String()
	}
	return nil, p
}

func init() {
	js := func(name string, m modelFn) { models["syscall/js."+name] = m }
	method := func(t, name string, m modelFn) {
		models["(syscall/js."+t+")."+name] = m
	}
	js("FuncOf", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		id := in.newObj(st, args[0], nil)
		in.event(st, "js.Func", ctx.pos, lit(fmt.Sprint(id)))
		a, ok := in.zeroVal(ctx.rt).(Agg)
		if !ok {
			giveUp("js.Func is not a structure")
		}
		a.f[0] = Opaque{tag: fmt.Sprintf("js.func:%d", id)}
		return ret1(st, a)
	})
	method("Func", "Release", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		id, _ := jsFunc(in, st, args[0])
		in.event(st, "js.Release", ctx.pos, lit(id))
		return ret1(st, Tuple{})
	})
	js("Global", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Opaque{tag: "js.global"}) })
	js("Undefined", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, Opaque{tag: "js.undefined"})
	})
	js("Null", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Opaque{tag: "js.null"}) })
	js("ValueOf", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		v, p := jsConv(in, st, args[0], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		if o, ok := v.(Opaque); ok {
			return ret1(st, o)
		}
		if a, ok := v.(Agg); ok {
			return ret1(st, a.f[0])
		}
		return ret1(st, Opaque{tag: fmt.Sprintf("js.value:%d", in.newObj(st, v, nil))})
	})
	tag := func(v Val) string {
		if o, ok := v.(Opaque); ok {
			return o.tag
		}
		giveUp("JavaScript value %T", v)
		return ""
	}
	method("Value", "Get", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if n, ok := st.constStr(strOf(args[1])); ok && tag(args[0]) == "js.global" {
			return ret1(st, Opaque{tag: "js.get:" + n})
		}
		return in.unknownCall(st, "(js.Value).Get", args, ctx)
	})
	method("Value", "Set", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		v, p := jsConv(in, st, args[2], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		if tag(args[0]) == "js.global" {
			in.event(st, "js.Set", ctx.pos, strOf(args[1]), v)
		}
		return ret1(st, Tuple{})
	})
	// the value inside a JavaScript value made from a Go one
	inner := func(st *State, v Val) Val {
		if o, ok := v.(Opaque); ok && strings.HasPrefix(o.tag, "js.value:") {
			n := 0
			fmt.Sscan(strings.TrimPrefix(o.tag, "js.value:"), &n)
			return st.obj(n)
		}
		return v
	}
	method("Value", "String", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if s, ok := inner(st, args[0]).(Str); ok {
			return ret1(st, s)
		}
		return ret1(st, st.anyStr("JavaScript text"))
	})
	method("Value", "Type", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		switch inner(st, args[0]).(type) {
		case Str:
			return ret1(st, linC(4))
		case bool:
			return ret1(st, linC(2))
		case Lin:
			return ret1(st, linC(3))
		}
		switch t := tag(args[0]); {
		case t == "js.undefined":
			return ret1(st, linC(0))
		case t == "js.null":
			return ret1(st, linC(1))
		case strings.HasPrefix(t, "js.func"), t == "js.resolver", t == "js.rejecter", strings.HasPrefix(t, "js.get:"):
			return ret1(st, linC(7))
		}
		return ret1(st, linC(6))
	})
	is := func(name, want string) {
		method("Value", name, func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			return ret1(st, tag(args[0]) == want)
		})
	}
	is("IsUndefined", "js.undefined")
	is("IsNull", "js.null")
	is("IsNaN", "js.nan")
	method("Value", "Truthy", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if s, ok := inner(st, args[0]).(Str); ok {
			var out []Ret
			for _, b := range st.inLang(s, dfaWord("")) {
				out = append(out, Ret{st: b.st, v: !b.b})
			}
			return out
		}
		t := tag(args[0])
		return ret1(st, t != "js.undefined" && t != "js.null")
	})
	settle := func(in *Interp, st *State, kind string, list []Val, ctx *callCtx) []Ret {
		var v Val = Opaque{tag: "js.undefined"}
		if len(list) > 0 {
			x, p := jsConv(in, st, list[0], ctx)
			if p != nil {
				return []Ret{{st: st, panic: p}}
			}
			v = inner(st, x)
		}
		in.event(st, kind, ctx.pos, v)
		return ret1(st, Opaque{tag: "js.undefined"})
	}
	method("Value", "Invoke", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		list := in.varargs(st, args[1])
		switch t := tag(args[0]); t {
		case "js.resolver":
			return settle(in, st, "js.resolve", list, ctx)
		case "js.rejecter":
			return settle(in, st, "js.reject", list, ctx)
		}
		return in.unknownCall(st, "(js.Value).Invoke", args, ctx)
	})
	method("Value", "Call", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		n, _ := st.constStr(strOf(args[1]))
		list := in.varargs(st, args[2])
		t := tag(args[0])
		switch {
		case t == "js.get:Promise" && (n == "resolve" || n == "reject"):
			rs := settle(in, st, "js."+n, list, ctx)
			for i := range rs {
				if rs[i].panic == nil {
					rs[i].v = Opaque{tag: "js.promise"}
				}
			}
			return rs
		case (t == "js.resolver" || t == "js.rejecter") && n == "call" && len(list) > 0:
			return settle(in, st, map[string]string{"js.resolver": "js.resolve", "js.rejecter": "js.reject"}[t], list[1:], ctx)
		}
		return in.unknownCall(st, "(js.Value).Call", args, ctx)
	})
	method("Value", "New", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		list := in.varargs(st, args[1])
		switch tag(args[0]) {
		case "js.get:Error", "js.get:TypeError":
			if len(list) > 0 {
				v, p := jsConv(in, st, list[0], ctx)
				if p != nil {
					return []Ret{{st: st, panic: p}}
				}
				return ret1(st, Opaque{tag: fmt.Sprintf("js.value:%d", in.newObj(st, inner(st, v), nil))})
			}
		case "js.get:Promise":
			if len(list) != 1 {
				return []Ret{{st: st, panic: &PanicInfo{msg: "Promise without a handler", pos: ctx.pos}}}
			}
			id, f := jsFunc(in, st, list[0])
			if f == nil {
				break
			}
			if jsReleased(st, id) {
				in.event(st, "js.stale", ctx.pos)
				return ret1(st, Opaque{tag: "js.promise"})
			}
			vs := in.sliceOf(st, []Val{Opaque{tag: "js.resolver"}, Opaque{tag: "js.rejecter"}}, nil)
			var out []Ret
			for _, r := range in.callVal(st, f, []Val{Opaque{tag: "js.undefined"}, vs}, nil) {
				if r.panic == nil {
					r.v = Opaque{tag: "js.promise"}
				}
				out = append(out, r)
			}
			return out
		}
		return in.unknownCall(st, "(js.Value).New", args, ctx)
	})
}

func checkFronts(r *Run) {
	r.guard("the command line tools", func() {
		f := r.front(nil)
		f.parseTool()
		f.matchesTool()
		f.in.stubs = nil
	})
	r.wasi()
	r.wasmjs()
	r.sample(map[string]string{"arguments": "none to five texts of which nothing is known; equal, empty and marker texts", "outcomes": "every combination of parse and encoding failures"})
}

func init() {
	props["C20"] = prop{"The main functions (and the exported entry points) of the four front ends are interpreted, each in the build configuration it is for, on argument lists of zero to five texts of which nothing is known and on lists of equal, empty and marker texts. " +
		"The parser is replaced by what the other properties establish of it (a fresh result or an error, the same for the same text), encoding by success or failure, JavaScript by a model of functions, promises and conversions. In every outcome the sequence of writes, exits, settlements and releases is compared with what the arguments' own outcomes demand.", checkFronts}
}
