package main

// Models of the standard library: strings, bytes, strconv, fmt, errors, sort.

import (
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type modelFn = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret

var models = map[string]modelFn{}

func strOf(v Val) Str {
	switch s := v.(type) {
	case Str:
		return s
	case BytesV:
		return s.s
	case Nil:
		return Str{}
	}
	giveUp("string expected, found %T", v)
	return Str{}
}

func (in *Interp) unkBool(st *State) []Ret {
	st.vagueAt("a condition that is not known")
	n := st.clone()
	return []Ret{{st: st, v: true}, {st: n, v: false}}
}

func boolRets(ws []boolWorld) []Ret {
	var out []Ret
	for _, w := range ws {
		out = append(out, Ret{st: w.st, v: w.b})
	}
	return out
}

// laid expands s and reports, per world, the items and whether they are all cells.
type layWorld struct {
	st    *State
	it    []Item
	cells bool
}

func (st *State) lay(s Str) []layWorld {
	var out []layWorld
	for _, w := range st.expand(s) {
		it := w.flatten(s.it)
		out = append(out, layWorld{w, it, !hasOpq(it)})
	}
	return out
}

// charTest partitions on a string being in a language given for a constant argument.
func langTest(mk func(string) *DFA) modelFn {
	return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		s := strOf(args[0])
		if p, ok := st.constStr(strOf(args[1])); ok {
			return boolRets(st.inLang(s, mk(p)))
		}
		return in.unkBool(st)
	}
}

func prefixTest(suffix bool) modelFn {
	return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		s, p := strOf(args[0]), strOf(args[1])
		if c, ok := st.constStr(p); ok {
			if suffix {
				return boolRets(st.inLang(s, dfaSuffix(c)))
			}
			return boolRets(st.inLang(s, dfaPrefix(c)))
		}
		var out []Ret
		for _, a := range st.lay(s) {
			for _, b := range a.st.lay(p) {
				it := b.st.flatten(s.it)
				if !a.cells || !b.cells || hasOpq(it) {
					out = append(out, in.unkBool(b.st)...)
					continue
				}
				if len(b.it) > len(it) {
					out = append(out, Ret{st: b.st, v: false})
					continue
				}
				x := it[:len(b.it)]
				if suffix {
					x = it[len(it)-len(b.it):]
				}
				out = append(out, boolRets(b.st.eqStr(Str{x}, Str{b.it}))...)
			}
		}
		return out
	}
}

func (in *Interp) indexModel(st *State, s Str, sub string, last bool) []Ret {
	var out []Ret
	for _, w := range st.lay(s) {
		if w.cells {
			var ws []idxWorld
			if last {
				ws = w.st.findLast(w.it, sub)
			} else {
				ws = w.st.findFrom(w.it, 0, sub)
			}
			for _, x := range ws {
				out = append(out, Ret{st: x.st, v: linC(int64(x.i))})
			}
			continue
		}
		for _, b := range w.st.inLang(Str{w.it}, dfaContains(sub)) {
			if !b.b {
				out = append(out, Ret{st: b.st, v: linC(-1)})
				continue
			}
			it := b.st.flatten(w.it)
			if !hasOpq(it) {
				out = append(out, in.indexModel(b.st, Str{it}, sub, last)...)
				continue
			}
			i := linS(b.st.newInt(0, inf, "index"))
			if b.st.assumeRange(i.minus(b.st.strLen(Str{it})), -inf, -int64(len(sub))) {
				out = append(out, Ret{st: b.st, v: i})
			}
		}
	}
	return out
}

// anyOf: indices of the first (or last) character of s in a set (ASCII).
func (in *Interp) indexSet(st *State, s Str, cs Charset, last bool) []Ret {
	var out []Ret
	for _, w := range st.lay(s) {
		if !w.cells {
			n := w.st.clone()
			i := linS(w.st.newInt(0, inf, "index"))
			if w.st.assumeRange(i.minus(w.st.strLen(Str{w.it})), -inf, -1) {
				out = append(out, Ret{st: w.st, v: i})
			}
			out = append(out, Ret{st: n, v: linC(-1)})
			continue
		}
		cur := []*State{w.st}
		for k := 0; k < len(w.it) && len(cur) > 0; k++ {
			i := k
			if last {
				i = len(w.it) - 1 - k
			}
			var nx []*State
			for _, c := range cur {
				for _, b := range c.cellIn(w.it[i], cs) {
					if b.b {
						out = append(out, Ret{st: b.st, v: linC(int64(i))})
					} else {
						nx = append(nx, b.st)
					}
				}
			}
			cur = nx
		}
		for _, c := range cur {
			out = append(out, Ret{st: c, v: linC(-1)})
		}
	}
	return out
}

// cellIn partitions on a character belonging to a set.
func (st *State) cellIn(x Item, cs Charset) []boolWorld {
	have := st.itemCS(x)
	yes, no := have.and(cs), have.minus(cs)
	if no.empty() {
		return []boolWorld{{st, true}}
	}
	if yes.empty() {
		return []boolWorld{{st, false}}
	}
	o := st.clone()
	var out []boolWorld
	if st.setCS(x.s, yes) && st.propagate() {
		out = append(out, boolWorld{st, true})
	}
	if o.setCS(x.s, no) && o.propagate() {
		out = append(out, boolWorld{o, false})
	}
	return out
}

func asciiSet(s string) (Charset, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return Charset{}, false
		}
	}
	return csOf(s), true
}

// trimSet removes characters of a set from the ends.
func (in *Interp) trimSet(st *State, s Str, cs Charset, left, right bool) []Ret {
	var out []Ret
	for _, w := range st.lay(s) {
		if !w.cells {
			nl := cs
			L := w.st.strDFA(Str{w.it})
			if L.Used().and(nl).empty() {
				out = append(out, Ret{st: w.st, v: Str{w.it}})
				continue
			}
			// the words that remain: infixes not starting (ending) with a character of the set
			P, S := dfaLit(""), dfaLit("")
			W := dfaAny
			if left {
				P = dfaStar(cs)
				W = W.Minus(concatDFA(dfaBox([]Charset{cs}), dfaAny))
			}
			if right {
				S = dfaStar(cs)
				W = W.Minus(concatDFA(dfaAny, dfaBox([]Charset{cs})))
			}
			r, ok := w.st.opqStr(infix(L, P, W, S), "trimmed")
			if ok {
				out = append(out, Ret{st: w.st, v: r})
			}
			continue
		}
		type lw struct {
			st *State
			it []Item
		}
		cur := []lw{{w.st, w.it}}
		if left {
			var nx []lw
			for len(cur) > 0 {
				c := cur[0]
				cur = cur[1:]
				if len(c.it) == 0 {
					nx = append(nx, c)
					continue
				}
				for _, b := range c.st.cellIn(c.it[0], cs) {
					if b.b {
						cur = append(cur, lw{b.st, c.it[1:]})
					} else {
						nx = append(nx, lw{b.st, c.it})
					}
				}
			}
			cur = nx
		}
		if right {
			var nx []lw
			for len(cur) > 0 {
				c := cur[0]
				cur = cur[1:]
				if len(c.it) == 0 {
					nx = append(nx, c)
					continue
				}
				n := len(c.it) - 1
				for _, b := range c.st.cellIn(c.it[n], cs) {
					if b.b {
						cur = append(cur, lw{b.st, c.it[:n:n]})
					} else {
						nx = append(nx, lw{b.st, c.it})
					}
				}
			}
			cur = nx
		}
		for _, c := range cur {
			out = append(out, Ret{st: c.st, v: Str{c.it}})
		}
	}
	return out
}

func (in *Interp) replaceStr(st *State, s Str, old, nw string, n int) []Ret {
	if old == "" {
		return ret1(st, st.anyStr("replaced"))
	}
	var out []Ret
	for _, w := range st.lay(s) {
		if !w.cells {
			for _, b := range w.st.inLang(Str{w.it}, dfaContains(old)) {
				if !b.b {
					out = append(out, Ret{st: b.st, v: Str{b.st.flatten(w.it)}})
				} else if it := b.st.flatten(w.it); !hasOpq(it) {
					out = append(out, in.replaceStr(b.st, Str{it}, old, nw, n)...)
				} else {
					out = append(out, Ret{st: b.st, v: b.st.anyStr("replaced")})
				}
			}
			continue
		}
		k := n
		if k >= 0 {
			k++
		}
		for _, l := range w.st.splitCells(w.it, 0, old, k) {
			r := Str{}
			for i, p := range l.list {
				if i > 0 {
					r.it = append(r.it, lit(nw).it...)
				}
				r.it = append(r.it, p.it...)
			}
			out = append(out, Ret{st: l.st, v: r})
		}
	}
	return out
}

var spaceSet = csOf(" \t\n\v\f\r")

func (in *Interp) splitModel(st *State, s Str, sep string, n int) []Ret {
	var out []Ret
	for _, w := range st.splitStr(s, sep, n) {
		if w.sum != nil {
			out = append(out, Ret{st: w.st, v: *w.sum})
			continue
		}
		if n == 0 {
			out = append(out, Ret{st: w.st, v: Nil{}})
			continue
		}
		out = append(out, Ret{st: w.st, v: in.sliceOf(w.st, strList(w.list), types.Typ[types.String])})
	}
	return out
}

// constInts splits a state into the values of a small integer.
func (in *Interp) constInts(st *State, l Lin, max int64) []intConst {
	n := st.norm(l)
	if n.isConst() {
		return []intConst{{st, n.c, true}}
	}
	ws, ok := st.splitValues(n, max)
	if !ok {
		return []intConst{{st, 0, false}}
	}
	var out []intConst
	for _, w := range ws {
		out = append(out, intConst{w, w.norm(l).c, true})
	}
	return out
}

func init() {
	str := func(name string, m modelFn) {
		models["strings."+name] = m
	}
	both := func(name string, m modelFn) {
		models["strings."+name] = m
		models["bytes."+name] = m
	}
	both("HasPrefix", prefixTest(false))
	both("HasSuffix", prefixTest(true))
	both("Contains", langTest(dfaContains))
	str("ContainsRune", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		r := st.norm(args[1].(Lin))
		if r.isConst() {
			return boolRets(st.inLang(strOf(args[0]), dfaContains(string(rune(r.c)))))
		}
		return in.unkBool(st)
	})
	str("ContainsAny", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if c, ok := st.constStr(strOf(args[1])); ok {
			if cs, ok := asciiSet(c); ok {
				return boolRets(st.inLang(strOf(args[0]), concatDFA(dfaAny, dfaBox([]Charset{cs}), dfaAny)))
			}
		}
		return in.unkBool(st)
	})
	idx := func(last bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			s := strOf(args[0])
			if l, ok := args[1].(Lin); ok {
				n := st.norm(l)
				if n.isConst() && n.c < 128 && n.c >= 0 {
					return in.indexModel(st, s, string(rune(n.c)), last)
				}
			} else if c, ok := st.constStr(strOf(args[1])); ok {
				return in.indexModel(st, s, c, last)
			}
			return in.indexSet(st, st.anyStr("?"), csOf("a"), last)
		}
	}
	both("Index", idx(false))
	both("IndexByte", idx(false))
	both("IndexRune", idx(false))
	both("LastIndex", idx(true))
	both("LastIndexByte", idx(true))
	idxAny := func(last bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			if c, ok := st.constStr(strOf(args[1])); ok {
				if cs, ok := asciiSet(c); ok {
					return in.indexSet(st, strOf(args[0]), cs, last)
				}
			}
			return in.indexSet(st, st.anyStr("?"), csOf("a"), last)
		}
	}
	str("IndexAny", idxAny(false))
	str("LastIndexAny", idxAny(true))
	str("Count", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		c, ok := st.constStr(strOf(args[1]))
		var out []Ret
		if ok && c != "" {
			for _, w := range st.splitStr(strOf(args[0]), c, -1) {
				if w.sum != nil {
					out = append(out, Ret{st: w.st, v: w.sum.n.plusC(-1)})
				} else {
					out = append(out, Ret{st: w.st, v: linC(int64(len(w.list) - 1))})
				}
			}
			return out
		}
		return ret1(st, linS(st.newInt(0, inf, "count")))
	})
	split := func(hasN bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			n := -1
			if hasN {
				l := st.norm(args[2].(Lin))
				if !l.isConst() {
					return ret1(st, SumSlice{elem: tmplStr{dfaAny}, n: linS(st.newInt(0, inf, "count"))})
				}
				n = int(l.c)
			}
			sep, ok := st.constStr(strOf(args[1]))
			if !ok {
				return ret1(st, SumSlice{elem: tmplStr{dfaAny}, n: linS(st.newInt(0, inf, "count"))})
			}
			if sep == "" {
				var out []Ret
				for _, w := range st.lay(strOf(args[0])) {
					if !w.cells || !asciiItems(w.it) || n >= 0 {
						out = append(out, Ret{st: w.st, v: SumSlice{elem: tmplStr{patDFA(`(?s).`)}, n: linS(w.st.newInt(0, inf, "count"))}})
						continue
					}
					var vals []Val
					for _, x := range w.it {
						vals = append(vals, Str{[]Item{x}})
					}
					out = append(out, Ret{st: w.st, v: in.sliceOf(w.st, vals, types.Typ[types.String])})
				}
				return out
			}
			return in.splitModel(st, strOf(args[0]), sep, n)
		}
	}
	str("Split", split(false))
	str("SplitN", split(true))
	str("Join", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if _, ok := args[0].(SumSlice); ok {
			return ret1(st, st.anyStr("joined"))
		}
		var r Str
		for i, e := range in.elems(st, args[0]) {
			if i > 0 {
				r.it = append(r.it, strOf(args[1]).it...)
			}
			if _, bad := e.(Str); !bad {
				return ret1(st, st.anyStr("joined"))
			}
			r.it = append(r.it, strOf(e).it...)
		}
		return ret1(st, r)
	})
	str("Repeat", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		n := args[1].(Lin)
		for _, neg := range st.forkCmp(n, opLT) {
			if neg.b {
				out = append(out, Ret{st: neg.st, panic: &PanicInfo{msg: "strings: negative Repeat count", pos: ctx.pos}})
				continue
			}
			for _, w := range in.constInts(neg.st, n, 60) {
				if !w.ok || w.i > 200 {
					// a huge count runs out of memory
					c := w.st.clone()
					for _, big := range c.forkCmp(n.plusC(-(1 << 24)), opGT) {
						if big.b {
							out = append(out, Ret{st: big.st, panic: &PanicInfo{msg: "strings.Repeat with an unbounded count", pos: ctx.pos}})
						} else {
							out = append(out, Ret{st: big.st, v: big.st.anyStr("repeated")})
						}
					}
					continue
				}
				var r Str
				for i := int64(0); i < w.i; i++ {
					r.it = append(r.it, strOf(args[0]).it...)
				}
				out = append(out, Ret{st: w.st, v: r})
			}
		}
		return out
	})
	str("ToUpper", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, st.mapCase(strOf(args[0]), unicode.ToUpper, true))
	})
	str("ToLower", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, st.mapCase(strOf(args[0]), unicode.ToLower, false))
	})
	str("ToTitle", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, st.mapCase(strOf(args[0]), unicode.ToUpper, true))
	})
	str("Title", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		it := st.flatten(strOf(args[0]).it)
		start := true
		var out []Item
		for _, x := range it {
			if x.k == iOpq || x.k == iLit && x.b >= 128 {
				return ret1(st, st.anyStr("title"))
			}
			cs := st.itemCS(x)
			y := []Item{x}
			if start {
				y = st.mapCase(Str{y}, unicode.ToUpper, true).it
			}
			out = append(out, y...)
			// ASCII letters, digits and underscore are not separators
			word := csOf("_")
			for c := '0'; c <= '9'; c++ {
				word.add(int(c))
			}
			for c := 'a'; c <= 'z'; c++ {
				word.add(int(c))
				word.add(int(c - 32))
			}
			switch {
			case cs.and(word) == cs:
				start = false
			case cs.and(word).empty():
				start = true
			default:
				return ret1(st, st.anyStr("title"))
			}
		}
		return ret1(st, Str{out})
	})
	str("Clone", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, args[0]) })
	both("TrimSpace", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return in.wrapBytes(args[0], in.trimSet(st, strOf(args[0]), spaceSet, true, true))
	})
	trim := func(l, r bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			if c, ok := st.constStr(strOf(args[1])); ok {
				if cs, ok := asciiSet(c); ok {
					return in.wrapBytes(args[0], in.trimSet(st, strOf(args[0]), cs, l, r))
				}
			}
			return in.wrapBytes(args[0], ret1(st, st.anyStr("trimmed")))
		}
	}
	both("Trim", trim(true, true))
	both("TrimLeft", trim(true, false))
	both("TrimRight", trim(false, true))
	affix := func(suffix, cut bool) modelFn {
		test := prefixTest(suffix)
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			var out []Ret
			s := strOf(args[0])
			for _, r := range test(in, st, ctx, args) {
				v := s
				if r.v.(bool) {
					n := r.st.strLen(strOf(args[1]))
					all := r.st.strLen(s)
					if suffix {
						v = r.st.subStr(s, linC(0), all.minus(n))
					} else {
						v = r.st.subStr(s, n, all)
					}
				}
				if r.st.dead {
					continue
				}
				if cut {
					out = append(out, Ret{st: r.st, v: Tuple{v, r.v}})
				} else {
					out = append(out, Ret{st: r.st, v: v})
				}
			}
			if !cut {
				return in.wrapBytes(args[0], out)
			}
			return out
		}
	}
	both("TrimPrefix", affix(false, false))
	both("TrimSuffix", affix(true, false))
	str("CutPrefix", affix(false, true))
	str("CutSuffix", affix(true, true))
	repl := func(all bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			n := -1
			if !all {
				l := st.norm(args[3].(Lin))
				if !l.isConst() {
					return ret1(st, st.anyStr("replaced"))
				}
				n = int(l.c)
			}
			o, ok1 := st.constStr(strOf(args[1]))
			w, ok2 := st.constStr(strOf(args[2]))
			if !ok1 || !ok2 {
				return ret1(st, st.anyStr("replaced"))
			}
			return in.replaceStr(st, strOf(args[0]), o, w, n)
		}
	}
	str("Replace", repl(false))
	str("ReplaceAll", repl(true))
	str("EqualFold", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, ok1 := st.constStr(strOf(args[0]))
		b, ok2 := st.constStr(strOf(args[1]))
		if ok1 && ok2 {
			return ret1(st, strings.EqualFold(a, b))
		}
		s, c := strOf(args[0]), b
		if ok1 {
			s, c = strOf(args[1]), a
		}
		if ok1 || ok2 {
			if _, ok := asciiSet(c); ok {
				return boolRets(st.inLang(s, patDFA(`(?i:`+regexQuote(c)+`)`)))
			}
		}
		return in.unkBool(st)
	})
	str("Compare", func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, w := range st.cmpStr(strOf(args[0]), strOf(args[1])) {
			out = append(out, Ret{st: w.st, v: linC(int64(w.c))})
		}
		return out
	})
	models["internal/bytealg.CompareString"] = models["strings.Compare"]
	models["internal/stringslite.HasPrefix"] = models["strings.HasPrefix"]
	models["internal/stringslite.HasSuffix"] = models["strings.HasSuffix"]
	models["internal/stringslite.Index"] = models["strings.Index"]
	models["internal/stringslite.IndexByte"] = models["strings.IndexByte"]
	models["internal/stringslite.TrimPrefix"] = models["strings.TrimPrefix"]
	models["internal/stringslite.TrimSuffix"] = models["strings.TrimSuffix"]
	models["internal/stringslite.Clone"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, args[0]) }
	str("Clone", models["internal/stringslite.Clone"])
	models["internal/bytealg.IndexByteString"] = models["strings.IndexByte"]
	models["internal/bytealg.LastIndexByteString"] = models["strings.LastIndexByte"]
	models["internal/bytealg.CountString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if n := st.norm(args[1].(Lin)); n.isConst() && n.c < 128 {
			return models["strings.Count"](in, st, ctx, []Val{args[0], lit(string(rune(n.c)))})
		}
		return ret1(st, linS(st.newInt(0, inf, "count")))
	}
	models["unicode/utf8.RuneCountInString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, w := range st.lay(strOf(args[0])) {
			if w.cells && asciiItems(w.it) {
				out = append(out, Ret{st: w.st, v: linC(int64(len(w.it)))})
				continue
			}
			L := w.st.strDFA(Str{w.it})
			if L.Used().and(nonASCII).empty() {
				out = append(out, Ret{st: w.st, v: w.st.strLen(Str{w.it})})
				continue
			}
			i := linS(w.st.newInt(0, inf, "runes"))
			w.st.assumeRange(i.minus(w.st.strLen(Str{w.it})), -inf, 0)
			out = append(out, Ret{st: w.st, v: i})
		}
		return out
	}
	models["unicode/utf8.ValidString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if L := st.strDFA(strOf(args[0])); L.Used().and(nonASCII).empty() {
			return ret1(st, true)
		}
		return in.unkBool(st)
	}

	// builders and buffers
	// the text a builder holds. A builder whose contents a loop or a join has
	// lost track of holds an arbitrary string from then on.
	bufStr := func(in *Interp, st *State, v Val) (Ptr, Str, bool) {
		p, ok := v.(Ptr)
		if !ok {
			return p, Str{}, false
		}
		if a, ok := in.load(st, p).(Agg); ok && len(a.f) == 1 {
			if c, ok := a.f[0].(Str); ok {
				return p, c, true
			}
		}
		c := st.anyStr("buffer")
		in.store(st, p, Agg{[]Val{c}})
		return p, c, true
	}
	bufAppend := func(in *Interp, st *State, v Val, s Str, ctx *callCtx) bool {
		p, c, ok := bufStr(in, st, v)
		if !ok {
			return false
		}
		in.store(st, p, Agg{[]Val{Str{append(c.it[:len(c.it):len(c.it)], s.it...)}}})
		return true
	}
	bufText := func(in *Interp, st *State, v Val) (Ptr, Str) {
		p, c, ok := bufStr(in, st, v)
		if !ok {
			giveUp("buffer %T", v)
		}
		return p, c
	}
	for _, tn := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		w := func(conv func(in *Interp, st *State, v Val) Str, res func(st *State, s Str) Val) modelFn {
			return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
				s := conv(in, st, args[1])
				if !bufAppend(in, st, args[0], s, ctx) {
					giveUp("write to %T", args[0])
				}
				return ret1(st, res(st, s))
			}
		}
		str2 := func(in *Interp, st *State, v Val) Str {
			if s, ok := asBytes(in, st, v); ok {
				return s
			}
			return st.anyStr("bytes")
		}
		char := func(in *Interp, st *State, v Val) Str {
			if it, ok := in.runeStr(st, v.(Lin)); ok {
				return it
			}
			return st.anyStr("char")
		}
		nErr := func(st *State, s Str) Val { return Tuple{st.strLen(s), Nil{}} }
		models[tn+"WriteString"] = w(str2, nErr)
		models[tn+"Write"] = w(str2, nErr)
		models[tn+"WriteRune"] = w(char, nErr)
		models[tn+"WriteByte"] = w(char, func(st *State, s Str) Val { return Nil{} })
		models[tn+"String"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			if _, isNil := args[0].(Nil); isNil {
				return ret1(st, lit("<nil>"))
			}
			_, c := bufText(in, st, args[0])
			return ret1(st, c)
		}
		models[tn+"Len"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			_, s := bufText(in, st, args[0])
			return ret1(st, st.strLen(s))
		}
		models[tn+"Reset"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			in.store(st, args[0].(Ptr), Agg{[]Val{Str{}}})
			return ret1(st, Tuple{})
		}
		models[tn+"Grow"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Tuple{}) }
		models[tn+"Cap"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			c := linS(st.newInt(0, inf, "cap"))
			_, s := bufText(in, st, args[0])
			st.assumeRange(c.minus(st.strLen(s)), 0, inf)
			return ret1(st, c)
		}
		models[tn+"Truncate"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			p, s := bufText(in, st, args[0])
			in.store(st, p, Agg{[]Val{st.subStr(s, linC(0), args[1].(Lin))}})
			return ret1(st, Tuple{})
		}
		models[tn+"Bytes"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			_, s := bufText(in, st, args[0])
			return ret1(st, BytesV{s})
		}
	}

	// strconv
	atoi := func(in *Interp, st *State, ctx *callCtx, s Str, bits int, uns bool) []Ret {
		var out []Ret
		for _, w := range st.parseInt(s, bits, uns) {
			if w.err {
				out = append(out, Ret{st: w.st, v: Tuple{linS(w.st.newInt(-inf, inf, "result with error")), in.errIface("strconv", w.st.anyStr("error text"))}})
			} else {
				out = append(out, Ret{st: w.st, v: Tuple{w.lin, Nil{}}})
			}
		}
		return out
	}
	models["strconv.Atoi"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return atoi(in, st, ctx, strOf(args[0]), 64, false)
	}
	pint := func(uns bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			b, n := st.norm(args[1].(Lin)), st.norm(args[2].(Lin))
			if b.isConst() && b.c == 10 && n.isConst() {
				bits := int(n.c)
				if bits == 0 {
					bits = 64
				}
				return atoi(in, st, ctx, strOf(args[0]), bits, uns)
			}
			n2 := st.clone()
			return []Ret{{st: st, v: Tuple{linS(st.newInt(-inf, inf, "parsed")), Nil{}}},
				{st: n2, v: Tuple{linC(0), in.errIface("strconv", n2.anyStr("error text"))}}}
		}
	}
	models["strconv.ParseInt"] = pint(false)
	models["strconv.ParseUint"] = pint(true)
	models["strconv.ParseFloat"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		text := strOf(args[0])
		fail := func(st *State) {
			out = append(out, Ret{st: st, v: Tuple{Float{}, in.errIface("strconv", st.anyStr("error text"))}})
		}
		// an exponent of three digits or more may be out of range, which is an error
		for _, w := range st.inLang(text, patDFA(`[+-]?[0-9]+(?:[eE][+-]?[0-9]{1,2})?`)) {
			if !w.b {
				for _, z := range w.st.inLang(text, patDFA(`[+-]?0+(?:[eE][+-]?[0-9]+)?`)) {
					if z.b {
						out = append(out, Ret{st: z.st, v: Tuple{floatOf(linC(0)), Nil{}}})
						continue
					}
					for _, o := range z.st.inLang(text, patDFA(`[+-]?0*[1-9][0-9]{0,30}[eE][+]?0*(?:309|3[1-9][0-9]|[4-9][0-9]{2}|[1-9][0-9]{3,})`)) {
						if o.b { // beyond the largest number
							fail(o.st)
							continue
						}
						for _, k := range o.st.inLang(text, patDFA(`[+-]?(?:[0-9_.]|[0-9][eExXpP]|[eEpP][+-]?[0-9]|[a-fA-FnNiItTyY]|[+-][0-9.iInN])*`)) {
							if !k.b { // not the text of a number
								fail(k.st)
								continue
							}
							n := k.st.clone()
							k.st.vagueAt("the value of a number")
							n.vagueAt("the value of a number")
							out = append(out, Ret{st: k.st, v: Tuple{Float{}, Nil{}}})
							fail(n)
						}
					}
				}
				continue
			}
			for _, x := range in.bigWorlds(w.st, text) {
				if x.err {
					fail(x.st)
					continue
				}
				prec := linC(0)
				if b := st.norm(args[1].(Lin)); b.isConst() && b.c == 32 {
					prec = linC(24)
				}
				for _, y := range rounded(x.st, x.b, prec) {
					out = append(out, Ret{st: y.st, v: Tuple{Float{y.b}, Nil{}}})
				}
			}
		}
		return out
	}
	models["strconv.Itoa"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, w := range st.render(args[0].(Lin), 0, '0', false) {
			out = append(out, Ret{st: w.st, v: w.s})
		}
		return out
	}
	models["strconv.FormatInt"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if b := st.norm(args[1].(Lin)); b.isConst() && b.c == 10 {
			return models["strconv.Itoa"](in, st, ctx, args[:1])
		}
		return ret1(st, st.anyStr("digits"))
	}
	models["strconv.FormatUint"] = models["strconv.FormatInt"]
	models["strconv.Quote"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, st.anyStr("quoted")) }
	models["strconv.AppendInt"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		b, ok := asBytes(in, st, args[0])
		if !ok {
			giveUp("AppendInt to %T", args[0])
		}
		var out []Ret
		for _, r := range models["strconv.FormatInt"](in, st, ctx, args[1:]) {
			out = append(out, Ret{st: r.st, v: BytesV{Str{append(append([]Item(nil), b.it...), strOf(r.v).it...)}}})
		}
		return out
	}

	// errors
	models["errors.New"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, in.errIface("errors.New", strOf(args[0])))
	}
	models["errors.Is"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if _, ok := args[0].(Nil); ok {
			if _, ok := args[1].(Nil); ok {
				return ret1(st, true)
			}
			return ret1(st, false)
		}
		return in.errIs(st, args[0], args[1], 0)
	}
	models["errors.Unwrap"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if i, ok := args[0].(Iface); ok {
			if e, ok := i.v.(*ErrV); ok && len(e.wrapped) == 1 {
				return ret1(st, e.wrapped[0])
			}
			if _, ok := i.v.(Opaque); !ok {
				return ret1(st, Nil{})
			}
			return ret1(st, Unknown{ctx.rt})
		}
		return ret1(st, Nil{})
	}
	models["errors.As"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return in.errAs(st, args[0], args[1], 0)
	}
	models["errors.Join"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var ws []Val
		for _, e := range in.elems(st, args[0]) {
			if _, ok := e.(Nil); !ok {
				ws = append(ws, e)
			}
		}
		if len(ws) == 0 {
			return ret1(st, Nil{})
		}
		return ret1(st, in.errIface("errors.Join", st.anyStr("error text"), ws...))
	}

	// sorting
	sortStrs := func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if _, ok := args[0].(Slice); !ok {
			return ret1(st, Tuple{})
		}
		sl := args[0].(Slice)
		return in.insertionSort(st, sl, ctx, func(st *State, a, b Val) []boolWorld {
			switch x := a.(type) {
			case Str:
				var out []boolWorld
				for _, w := range st.cmpStr(x, strOf(b)) {
					out = append(out, boolWorld{w.st, w.c < 0})
				}
				return out
			case Lin:
				return st.forkCmp(x.minus(b.(Lin)), opLT)
			}
			giveUp("ordering of %T", a)
			return nil
		})
	}
	models["sort.Strings"] = sortStrs
	models["sort.Ints"] = sortStrs
	models["slices.Sort"] = sortStrs
	byLess := func(three bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			v := args[0]
			if i, ok := v.(Iface); ok {
				v = i.v
			}
			sl, ok := v.(Slice)
			if !ok {
				return ret1(st, Tuple{})
			}
			_ = three
			return in.insertionSortFn(st, sl, ctx, args[1], three)
		}
	}
	models["sort.Slice"] = byLess(false)
	models["sort.SliceStable"] = byLess(false)
	models["slices.SortFunc"] = byLess(true)
	models["slices.SortStableFunc"] = byLess(true)
}

func regexQuote(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			sb.WriteByte('\\')
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (in *Interp) wrapBytes(arg Val, rs []Ret) []Ret {
	if _, ok := arg.(BytesV); !ok {
		return rs
	}
	for i := range rs {
		if s, ok := rs[i].v.(Str); ok {
			rs[i].v = BytesV{s}
		}
	}
	return rs
}

func (in *Interp) errIs(st *State, e, target Val, depth int) []Ret {
	if depth > 10 {
		return in.unkBool(st)
	}
	i, ok := e.(Iface)
	if !ok {
		return ret1(st, false)
	}
	if i.t == nil {
		return in.unkBool(st)
	}
	var out []Ret
	comparable := true
	if _, ok := i.v.(Agg); ok {
		comparable = types.Comparable(i.t)
	}
	var rest []*State
	if comparable {
		for _, o := range in.equal(st, e, target, false) {
			if o.v.(bool) {
				out = append(out, Ret{st: o.st, v: true})
			} else {
				rest = append(rest, o.st)
			}
		}
	} else {
		rest = []*State{st}
	}
	for _, s := range rest {
		for _, w := range in.unwrapErr(s, i) {
			if w.panic != nil {
				out = append(out, w)
				continue
			}
			ws, _ := w.v.(Tuple)
			cur := []*State{w.st}
			for _, x := range ws {
				var nx []*State
				for _, c := range cur {
					for _, r := range in.errIs(c, x, target, depth+1) {
						if r.panic == nil && !r.v.(bool) {
							nx = append(nx, r.st)
						} else {
							out = append(out, r)
						}
					}
				}
				cur = nx
			}
			for _, c := range cur {
				out = append(out, Ret{st: c, v: false})
			}
		}
	}
	return out
}

// unwrapErr lists the wrapped errors (as a tuple).
func (in *Interp) unwrapErr(st *State, i Iface) []Ret {
	if e, ok := i.v.(*ErrV); ok {
		return ret1(st, Tuple(append([]Val(nil), e.wrapped...)))
	}
	if i.t == nil {
		return ret1(st, Tuple{})
	}
	fn := in.w.prog.LookupMethod(i.t, nil, "Unwrap")
	if fn == nil {
		return ret1(st, Tuple{})
	}
	var out []Ret
	for _, r := range in.callFn(st, fn, []Val{i.v}, nil, &callCtx{fn: fn}) {
		if r.panic != nil {
			out = append(out, r)
			continue
		}
		if _, ok := r.v.(Iface); ok {
			out = append(out, Ret{st: r.st, v: Tuple{r.v}})
		} else {
			out = append(out, Ret{st: r.st, v: Tuple{}})
		}
	}
	return out
}

func (in *Interp) errAs(st *State, e, target Val, depth int) []Ret {
	ti, ok := target.(Iface)
	if !ok {
		return []Ret{{st: st, panic: &PanicInfo{msg: "errors: target cannot be nil"}}}
	}
	p, ok := ti.v.(Ptr)
	if !ok {
		return in.unkBool(st)
	}
	want := ti.t.Underlying().(*types.Pointer).Elem()
	i, ok := e.(Iface)
	if !ok {
		return ret1(st, false)
	}
	if i.t == nil {
		n := st.clone()
		in.rawStore(st, p, Unknown{want})
		return []Ret{{st: st, v: true}, {st: n, v: false}}
	}
	_, toI := want.Underlying().(*types.Interface)
	if types.Identical(i.t, want) {
		in.store(st, p, i.v)
		return ret1(st, true)
	}
	if toI && types.AssignableTo(i.t, want) {
		in.store(st, p, i)
		return ret1(st, true)
	}
	if er, ok := i.v.(*ErrV); ok && !toI {
		switch stdError(in, er, want) {
		case 1:
			in.rawStore(st, p, Unknown{want})
			return ret1(st, true)
		case -1:
			st.vagueAt("the type of an error")
			n := st.clone()
			in.rawStore(st, p, Unknown{want})
			return []Ret{{st: st, v: true}, {st: n, v: false}}
		}
	}
	var out []Ret
	for _, w := range in.unwrapErr(st, i) {
		if w.panic != nil {
			out = append(out, w)
			continue
		}
		ws := w.v.(Tuple)
		cur := []*State{w.st}
		for _, x := range ws {
			var nx []*State
			for _, c := range cur {
				for _, r := range in.errAs(c, x, target, depth+1) {
					if r.panic == nil && !r.v.(bool) {
						nx = append(nx, r.st)
					} else {
						out = append(out, r)
					}
				}
			}
			cur = nx
		}
		for _, c := range cur {
			out = append(out, Ret{st: c, v: false})
		}
	}
	return out
}

func (in *Interp) insertionSort(st *State, sl Slice, ctx *callCtx, less func(st *State, a, b Val) []boolWorld) []Ret {
	type w struct {
		st *State
		l  []Val
	}
	vals := in.elems(st, sl)
	if len(vals) > 12 {
		giveUp("sorting %d elements", len(vals))
	}
	cur := []w{{st, nil}}
	for _, v := range vals {
		var nx []w
		for _, c := range cur {
			// insert v, scanning from the right
			var rec func(st *State, pos int)
			rec = func(st *State, pos int) {
				if pos == 0 {
					nx = append(nx, w{st, insertAt(c.l, 0, v)})
					return
				}
				for _, b := range less(st, v, c.l[pos-1]) {
					if b.b {
						rec(b.st, pos-1)
					} else {
						nx = append(nx, w{b.st, insertAt(c.l, pos, v)})
					}
				}
			}
			rec(c.st, len(c.l))
		}
		cur = nx
	}
	var out []Ret
	for _, c := range cur {
		for i, v := range c.l {
			in.store(c.st, sl.arr.field(sl.off+i), v)
		}
		out = append(out, Ret{st: c.st, v: Tuple{}})
	}
	return out
}

func insertAt(l []Val, i int, v Val) []Val {
	out := append([]Val(nil), l[:i]...)
	out = append(out, v)
	return append(out, l[i:]...)
}

// insertionSortFn sorts with a comparison function: less(i, j) on indices, or cmp(a, b).
func (in *Interp) insertionSortFn(st *State, sl Slice, ctx *callCtx, f Val, three bool) []Ret {
	if sl.n > 12 {
		giveUp("sorting %d elements", sl.n)
	}
	var out []Ret
	var step func(st *State, i, j int)
	site := ctx.site
	step = func(st *State, i, j int) { // element j is being moved left; i is the next to insert
		if i >= sl.n {
			out = append(out, Ret{st: st, v: Tuple{}})
			return
		}
		if j == 0 {
			step(st, i+1, i+1)
			return
		}
		var args []Val
		if three {
			el := in.elems(st, sl)
			args = []Val{el[j], el[j-1]}
		} else {
			args = []Val{linC(int64(j)), linC(int64(j - 1))}
		}
		for _, r := range in.callVal(st, f, args, site) {
			if r.panic != nil {
				out = append(out, r)
				continue
			}
			var bs []boolWorld
			switch v := r.v.(type) {
			case bool:
				bs = []boolWorld{{r.st, v}}
			case Lin:
				bs = r.st.forkCmp(v, opLT)
			default:
				giveUp("comparison result %T", v)
			}
			for _, b := range bs {
				if b.b {
					el := in.elems(b.st, sl)
					in.store(b.st, sl.arr.field(sl.off+j), el[j-1])
					in.store(b.st, sl.arr.field(sl.off+j-1), el[j])
					step(b.st, i, j-1)
				} else {
					step(b.st, i+1, i+1)
				}
			}
		}
	}
	step(st, 0, 0)
	return out
}

var _ = ssa.BuilderMode(0)
