package main

// The abstract interpreter: a forward analysis over go/ssa that computes, for a set of inputs given
// as an abstract state, a partition of the possible outcomes of a function.

import (
	"time"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PanicInfo struct {
	msg string
	pos string
	fn  string
	val Val

	exit bool // the process ends: no deferred call runs
}

type Ret struct {
	st    *State
	v     Val
	panic *PanicInfo
}

// deadline ends the analysis: what is left is undecided.
var deadline time.Time

// propagations counts the refinements of states, where the time is looked at too.
var propagations int64

func outOfTime() {
	now := time.Now()
	if !deadline.IsZero() && now.After(deadline) || !unitDeadline.IsZero() && now.After(unitDeadline) {
		giveUp("out of time")
	}
}

// unitDeadline ends the current unit of work.
var unitDeadline time.Time

// frame is one activation; prov is the place where an object was last written.
type frame struct {
	up   *frame
	fn   *ssa.Function
	site ssa.Instruction
}

type prov struct {
	fr  *frame
	ins ssa.Instruction
}

// chain lists the source positions from the place outwards.
func (in *Interp) chain(p *prov) []string {
	if p == nil {
		return nil
	}
	var out []string
	fr, ins := p.fr, p.ins
	for fr != nil {
		s := fr.fn.String()
		if ins != nil && ins.Parent() == fr.fn {
			s += " (" + in.where(ins) + ")"
		}
		out = append(out, strings.ReplaceAll(s, in.w.modPath, "edtf"))
		ins, fr = fr.site, fr.up
	}
	return out
}

func (in *Interp) here() *prov { return &prov{in.frame, in.cur} }

type callCtx struct {
	site ssa.CallInstruction
	fn   *ssa.Function // the function called
	pos  string
	rt   types.Type // result type (tuple or single)
}

type Interp struct {
	namedZones bool // time.FixedZone was called
	w          *World
	globals    map[*ssa.Global]int
	infos      map[*ssa.Function]*fnInfo
	steps      int64
	maxSteps   int64
	depth      int
	stack      []*ssa.Function
	summary    bool // join outcomes of module functions
	memo       map[string][]memoRet
	visited    map[*ssa.Function]bool
	calls      map[string]int // models used
	base       *State
	initDone   bool
	mapOrder   int  // 0 insertion order, 1 reversed
	mapRange   bool // some map of more than one entry was iterated over
	sumLimit   int
	mergeLimit int
	objTypes   map[int]types.Type
	unroll     int
	trace      bool
	initErr    string
	cells      int
	hot        map[string]int64
	argv       func(st *State) Val       // command line arguments
	stubs      map[*ssa.Function]modelFn // functions replaced by what is established of them
	onBlock    func(st *State)           // called where the program waits for ever
	frame      *frame
	cur        ssa.Instruction
	site       ssa.Instruction
	failAt     string // innermost function when the analysis gave up
}

func (in *Interp) reset() {
	in.failAt = ""
	in.stack = nil
	in.frame, in.site, in.cur = nil, nil, nil
}

type fnInfo struct {
	idx     map[ssa.Value]int
	n       int
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	exitFor map[ssa.Instruction]*ssa.BasicBlock          // instruction deciding whether a loop goes on
	live    map[*ssa.BasicBlock][]int
	typ     []types.Type
	rpo     map[*ssa.BasicBlock]int
	inLoop  map[*ssa.BasicBlock]bool
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if f, ok := in.infos[fn]; ok {
		return f
	}
	f := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, exitFor: map[ssa.Instruction]*ssa.BasicBlock{}}
	add := func(v ssa.Value) {
		f.typ = append(f.typ, v.Type())
		f.idx[v] = f.n
		f.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := f.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.loops[s] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x] {
						continue
					}
					body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for h, body := range f.loops {
		for b := range body {
			n := len(b.Instrs)
			ifi, ok := b.Instrs[n-1].(*ssa.If)
			if !ok {
				continue
			}
			if body[b.Succs[0]] && body[b.Succs[1]] {
				continue
			}
			var mark func(v ssa.Value, d int)
			mark = func(v ssa.Value, d int) {
				if d > 3 {
					return
				}
				if i, ok := v.(ssa.Instruction); ok {
					if old := f.exitFor[i]; old == nil || len(f.loops[old]) > len(body) {
						f.exitFor[i] = h
					}
					switch x := v.(type) {
					case *ssa.Extract:
						mark(x.Tuple, d+1)
					case *ssa.UnOp:
						mark(x.X, d+1)
					case *ssa.Phi:
						for _, e := range x.Edges {
							mark(e, d+1)
						}
					}
				}
			}
			mark(ifi.Cond, 0)
		}
	}
	f.inLoop = map[*ssa.BasicBlock]bool{}
	for _, body := range f.loops {
		for b := range body {
			f.inLoop[b] = true
		}
	}
	f.rpo = map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if !seen[b.Succs[k]] {
				dfs(b.Succs[k])
			}
		}
		post = append(post, b)
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			dfs(b)
		}
	}
	for k, b := range post {
		f.rpo[b] = len(post) - k
	}
	in.infos[fn] = f
	return f
}

func newInterp(w *World) *Interp {
	return &Interp{w: w, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*fnInfo{}, maxSteps: 200_000_000,
		memo: map[string][]memoRet{}, visited: map[*ssa.Function]bool{}, calls: map[string]int{}, sumLimit: 6, mergeLimit: 6,
		objTypes: map[int]types.Type{}, unroll: 6, hot: map[string]int64{}}
}

// start builds the state after package initialisation.
func (in *Interp) start() *State {
	st := newState()
	for _, p := range in.w.prog.AllPackages() {
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			et := g.Type().Underlying().(*types.Pointer).Elem()
			var v Val
			if in.w.isModule(p.Pkg) {
				v = in.zeroVal(et)
			} else {
				v = in.stdGlobal(g, et)
			}
			in.globals[g] = in.newObj(st, v, et)
		}
	}
	for _, p := range in.w.initOrder {
		f := p.Func("init")
		if f == nil {
			continue
		}
		rs := in.call(st, f, nil, nil)
		if len(rs) != 1 {
			giveUp("initialisation of %s has %d outcomes", p.Pkg.Path(), len(rs))
		}
		if rs[0].panic != nil {
			giveUp("initialisation of %s panics: %s at %s", p.Pkg.Path(), rs[0].panic.msg, rs[0].panic.pos)
		}
		st = rs[0].st
	}
	st.freeze()
	st.events = nil
	in.base = st
	in.initDone = true
	return st
}

func (in *Interp) stdGlobal(g *ssa.Global, et types.Type) Val {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	switch name {
	case "time.UTC":
		return Opaque{t: et, tag: "time.UTC"}
	case "time.Local":
		return Opaque{t: et, tag: "time.Local"}
	}
	if types.Identical(et, types.Universe.Lookup("error").Type()) {
		return Iface{t: in.w.errorStringT, v: &ErrV{kind: name, msg: lit(name), id: name}}
	}
	switch et.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return Opaque{t: et, tag: name}
	}
	return Unknown{et}
}

func (in *Interp) newObj(st *State, v Val, t types.Type) int {
	i := st.alloc(v)
	st.htyp[len(st.htyp)-1] = t
	if in.initDone {
		st.hpos[len(st.hpos)-1] = in.here()
	}
	return i
}

func (in *Interp) noteGlobalWrite(st *State, p Ptr) {
	if !in.initDone {
		return
	}
	where := "?"
	if len(in.stack) > 0 {
		where = in.stack[len(in.stack)-1].String()
	}
	name := fmt.Sprintf("object %d", p.obj)
	for g, o := range in.globals {
		if o == p.obj {
			name = g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	s := fmt.Sprintf("%s written in %s", name, where)
	st.wrote = append(st.wrote[:len(st.wrote):len(st.wrote)], s)
}

func (in *Interp) event(st *State, kind string, pos string, args ...Val) {
	st.events = append(st.events[:len(st.events):len(st.events)], Event{kind: kind, args: args, pos: pos})
}

// ---------- function execution ----------

type deferRec struct {
	site ssa.CallInstruction
	fn   Val
	args []Val
}

type loopRec struct {
	header *ssa.BasicBlock
	forks  int
	entry  []Val // heap at loop entry
	havoc  bool
	hset   map[int]bool
	snap   []Val
	prev   *loopRec
}

type item struct {
	b         *ssa.BasicBlock
	i         int
	prev      *ssa.BasicBlock
	env       []Val
	st        *State
	loops     map[*ssa.BasicBlock]*loopRec
	defers    []deferRec
	panicking *PanicInfo
	recovered bool
	atHead    bool // waiting at the head of a block
}

func (it *item) fork() *item {
	n := *it
	n.env = append([]Val(nil), it.env...)
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	if it.loops != nil {
		n.loops = make(map[*ssa.BasicBlock]*loopRec, len(it.loops))
		for k, v := range it.loops {
			n.loops[k] = v
		}
	}
	return &n
}

func (in *Interp) call(st *State, fn *ssa.Function, args []Val, bind []Val) []Ret {
	in.w.build(fn)
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fn)
	}
	in.visited[fn] = true
	in.hot[fn.String()]++
	if len(in.stack) > 80 {
		giveUp("call depth at %s", fn)
	}
	in.stack = append(in.stack, fn)
	up := in.frame
	in.frame = &frame{up: up, fn: fn, site: in.site}
	in.site = nil
	finished := false
	defer func() {
		if !finished && in.failAt == "" {
			in.failAt = fn.String()
			if in.cur != nil {
				in.failAt += " (" + in.where(in.cur) + ")"
			}
		}
		in.stack = in.stack[:len(in.stack)-1]
		in.frame = up
	}()
	inf := in.info(fn)
	env := make([]Val, inf.n)
	copy(env, args)
	copy(env[len(fn.Params):], bind)
	var out []Ret
	work := []*item{{b: fn.Blocks[0], env: env, st: st}}
	if in.summary && in.initDone {
		pre := st.clone()
		for len(work) > 0 {
			// the item that is furthest behind
			best := len(work) - 1
			rank := func(it *item) int { return inf.rpo[it.b] }
			for k := range work {
				if rank(work[k]) < rank(work[best]) {
					best = k
				}
			}
			it := work[best]
			work = append(work[:best], work[best+1:]...)
			if k, ok := inf.mergeKey(it); ok {
				same := []*item{it}
				rest := work[:0]
				for _, o := range work {
					if k2, ok := inf.mergeKey(o); ok && o.b == it.b && k2 == k {
						same = append(same, o)
					} else {
						rest = append(rest, o)
					}
				}
				work = rest
				for _, m := range in.mergeItems(pre, fn, inf, same) {
					m.atHead = false
					work = in.runItem(fn, inf, m, work, &out)
				}
				continue
			}
			it.atHead = false
			work = in.runItem(fn, inf, it, work, &out)
		}
		finished = true
		return out
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		work = in.runItem(fn, inf, it, work, &out)
	}
	finished = true
	return out
}

func (in *Interp) where(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		if v, ok := i.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		for _, o := range i.Block().Instrs {
			if o.Pos().IsValid() {
				p = o.Pos()
				break
			}
		}
	}
	if !p.IsValid() && i.Parent() != nil {
		p = i.Parent().Pos()
	}
	return in.w.pos(p)
}

type outcome struct {
	st    *State
	v     Val
	panic *PanicInfo
}

// goTo moves an item to a successor block, evaluating phis; nil when the path is covered already.
func (in *Interp) goTo(inf *fnInfo, it *item, to *ssa.BasicBlock) *item {
	from := it.b
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.val(inf, it.env, ph.Edges[pi]))
	}
	for k, ph := range phis {
		it.env[inf.idx[ph]] = vals[k]
	}
	it.prev = from
	it.b = to
	it.i = len(phis)
	if body, ok := inf.loops[to]; ok {
		if it.loops == nil {
			it.loops = map[*ssa.BasicBlock]*loopRec{}
		}
		if !body[from] { // entering the loop
			it.loops[to] = &loopRec{header: to, entry: append([]Val(nil), it.st.heap...)}
			return it
		}
		lr := it.loops[to]
		if lr == nil {
			return it
		}
		if lr.havoc {
			// everything changed since the havoc must be part of it
			grew := false
			hs := lr.hset
			for k := range lr.snap {
				if k < len(it.st.heap) && !hs[k] && !shallowSame(lr.snap[k], it.st.heap[k]) {
					if !grew {
						n := map[int]bool{}
						for a := range hs {
							n[a] = true
						}
						hs = n
						grew = true
					}
					hs[k] = true
				}
			}
			if !grew {
				return nil
			}
			in.havocLoop(inf, it, to, phis, hs, lr)
			return it
		}
		if lr.forks >= in.unroll {
			hs := map[int]bool{}
			for k := range lr.entry {
				if k < len(it.st.heap) && !shallowSame(lr.entry[k], it.st.heap[k]) {
					hs[k] = true
				}
			}
			in.havocLoop(inf, it, to, phis, hs, lr)
		}
	}
	return it
}

func (in *Interp) havocLoop(inf *fnInfo, it *item, to *ssa.BasicBlock, phis []*ssa.Phi, hs map[int]bool, lr *loopRec) {
	st := it.st
	for k := range hs {
		st.heap[k] = Unknown{st.htyp[k]}
	}
	for _, ph := range phis {
		it.env[inf.idx[ph]] = in.havocVal(st, it.env[inf.idx[ph]], ph.Type(), inf.monotone(to, ph))
	}
	n := &loopRec{header: to, entry: lr.entry, havoc: true, hset: hs, forks: lr.forks}
	n.snap = append([]Val(nil), st.heap...)
	it.loops[to] = n
}

const noDir = 2

// monotone: +1 when the loop only ever adds non-negative constants to the variable, -1 when it only
// subtracts, 0 when it never changes it, noDir otherwise.
func (f *fnInfo) monotone(h *ssa.BasicBlock, ph *ssa.Phi) int {
	body := f.loops[h]
	dir := 0
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ph || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil || (x.Op != token.ADD && x.Op != token.SUB) {
				return false
			}
			k, exact := constant.Int64Val(constant.ToInt(c.Value))
			if !exact {
				return false
			}
			if x.Op == token.SUB {
				k = -k
			}
			d := 0
			if k > 0 {
				d = 1
			} else if k < 0 {
				d = -1
			}
			if d != 0 {
				if dir != 0 && dir != d {
					return false
				}
				dir = d
			}
			return walk(x.X)
		}
		return false
	}
	for k, p := range h.Preds {
		if body[p] && !walk(ph.Edges[k]) {
			return noDir
		}
	}
	return dir
}

// havocVal: any value of the type, kept as simple as possible (no case split).
func (in *Interp) havocVal(st *State, old Val, t types.Type, dir int) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u)
			if l, ok := old.(Lin); ok {
				a, b := st.bounds(l)
				if (dir == 0 || dir == 1) && a > lo {
					lo = a
				}
				if (dir == 0 || dir == -1) && b < hi {
					hi = b
				}
			}
			if lo == hi {
				return linC(lo)
			}
			return linS(st.newInt(lo, hi, "loop"))
		case u.Info()&types.IsString != 0:
			return Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, "loop")}}}
		}
	case *types.Slice:
		if _, ok := old.(BytesV); ok {
			return BytesV{Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, "loop")}}}}
		}
		return SumSlice{elem: Unknown{u.Elem()}, n: linS(st.newInt(0, inf, "length"))}
	}
	return Unknown{t}
}

func shallowSame(a, b Val) bool {
	switch x := a.(type) {
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if len(x.f) > 0 && &x.f[0] == &y.f[0] {
			return true
		}
		for i := range x.f {
			if !shallowSame(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.it) != len(y.it) {
			return false
		}
		for i := range x.it {
			if x.it[i] != y.it[i] {
				return false
			}
		}
		return true
	case Lin:
		y, ok := b.(Lin)
		return ok && x.c == y.c && sameTerms(x.t, y.t)
	case MapV:
		y, ok := b.(MapV)
		if !ok || len(x.keys) != len(y.keys) {
			return false
		}
		for i := range x.keys {
			if !shallowSame(x.keys[i], y.keys[i]) || !shallowSame(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case SumSlice:
		return false
	case Tuple:
		return false
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && shallowSame(x.v, y.v)
	case BytesV:
		y, ok := b.(BytesV)
		return ok && shallowSame(x.s, y.s)
	case Unknown:
		_, ok := b.(Unknown)
		return ok
	case Float:
		y, ok := b.(Float)
		return ok && x.small() && y.small() && shallowSame(x.lin, y.lin)
	case BigV:
		y, ok := b.(BigV)
		return ok && reflect.DeepEqual(x, y)
	case StrIter, MapIter:
		return reflect.DeepEqual(a, b)
	}
	switch b.(type) {
	case StrIter, MapIter, Agg, Str, Lin, MapV, Slice, SumSlice, Tuple, Iface, BytesV, Unknown, Float, BigV:
		return false
	}
	return a == b
}

func (in *Interp) runItem(fn *ssa.Function, inf *fnInfo, it *item, work []*item, out *[]Ret) []*item {
	for {
		if it.st.dead {
			return work
		}
		ins := it.b.Instrs[it.i]
		in.cur = ins
		in.steps++
		if memHigh.Load() {
			giveUp("out of memory")
		}
		if in.steps&0xff == 0 {
			outOfTime()
		}
		if in.steps > in.maxSteps {
			giveUp("analysis budget exhausted in %s", fn)
		}
		switch x := ins.(type) {
		case *ssa.Jump:
			n := in.goTo(inf, it, it.b.Succs[0])
			if n == nil {
				return work
			}
			it = n
			if in.summary && in.initDone && len(it.b.Preds) > 1 {
				it.atHead = true
				return append(work, it)
			}
			continue
		case *ssa.If:
			c := in.val(inf, it.env, x.Cond)
			b, ok := c.(bool)
			if !ok {
				// unknown condition: both
				it.st.vagueAt("a condition that is not known")
				o := it.fork()
				o.st = it.st.clone()
				if h := inf.exitFor[ins]; h != nil {
					bump(it, h)
					bump(o, h)
				}
				if n := in.goTo(inf, o, o.b.Succs[1]); n != nil {
					n.atHead = true
					work = append(work, n)
				}
				b = true
			}
			k := 1
			if b {
				k = 0
			}
			n := in.goTo(inf, it, it.b.Succs[k])
			if n == nil {
				return work
			}
			it = n
			if in.summary && in.initDone && len(it.b.Preds) > 1 {
				it.atHead = true
				return append(work, it)
			}
			continue
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = in.val(inf, it.env, x.Results[0])
			default:
				t := make(Tuple, len(x.Results))
				for k, r := range x.Results {
					t[k] = in.val(inf, it.env, r)
				}
				v = t
			}
			*out = append(*out, Ret{st: it.st, v: v})
			return work
		case *ssa.Panic:
			pv := in.val(inf, it.env, x.X)
			return in.unwind(fn, inf, it, &PanicInfo{msg: "panic: " + describe(it.st, pv), pos: in.where(x), fn: fn.String(), val: pv}, work, out)
		case *ssa.Defer:
			f, args := in.callee(inf, it, &x.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferRec{x, f, args})
			it.i++
			continue
		case *ssa.RunDefers:
			its := in.runDefers(fn, inf, it, work, out)
			for _, n := range its {
				n.i++
				work = append(work, n)
			}
			return work
		}
		if in.summary {
			if more := in.settleOperands(inf, it, ins); more != nil {
				return append(work, more...)
			}
		}
		outs := in.eval(fn, inf, it, ins)
		if len(outs) == 0 {
			return work
		}
		v, isVal := ins.(ssa.Value)
		h := inf.exitFor[ins]
		multi := len(outs) > 1
		for k := len(outs) - 1; k >= 0; k-- {
			o := outs[k]
			n := it
			if k > 0 {
				n = it.fork()
			}
			n.st = o.st
			if o.panic != nil {
				work = in.unwind(fn, inf, n, o.panic, work, out)
				if k == 0 {
					return work
				}
				continue
			}
			if isVal {
				n.env[inf.idx[v]] = o.v
			}
			if multi && h != nil {
				bump(n, h)
			}
			n.i++
			if k > 0 {
				work = append(work, n)
			}
		}
	}
}

// settleOperands gives the instruction's unknown operands (left behind by joins) a shape; when that
// needs a case split the resulting items are returned.
func (in *Interp) settleOperands(inf *fnInfo, it *item, ins ssa.Instruction) []*item {
	var ops []ssa.Value
	switch x := ins.(type) {
	case *ssa.Store:
		ops = []ssa.Value{x.Addr}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.Package() != nil && in.w.isModule(f.Package().Pkg) {
			return nil
		}
		if !x.Call.IsInvoke() {
			ops = append(ops, x.Call.Args...)
		} else {
			ops = append(append(ops, x.Call.Args...), x.Call.Value)
		}
		if f == nil {
			ops = append(ops, x.Call.Value)
		}
	case *ssa.MakeInterface, *ssa.Defer, *ssa.Go, *ssa.MakeClosure, *ssa.ChangeType, *ssa.ChangeInterface:
		return nil
	case *ssa.Extract:
		return nil
	default:
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				ops = append(ops, *op)
			}
		}
	}
	for _, op := range ops {
		k, ok := inf.idx[op]
		if !ok {
			continue
		}
		u, ok := it.env[k].(Unknown)
		if !ok {
			continue
		}
		ws := in.materialize(it.st, u)
		if len(ws) == 1 {
			it.st = ws[0].st
			it.env[k] = ws[0].v
			continue
		}
		var out []*item
		for i, w := range ws {
			n := it
			if i < len(ws)-1 {
				n = it.fork()
			}
			n.st = w.st
			n.env[k] = w.v
			out = append(out, n)
		}
		return out
	}
	return nil
}

func bump(it *item, h *ssa.BasicBlock) {
	if lr := it.loops[h]; lr != nil && !lr.havoc {
		n := *lr
		n.forks++
		it.loops[h] = &n
	}
}

// runDefers runs the deferred calls of an item in reverse order.
func (in *Interp) runDefers(fn *ssa.Function, inf *fnInfo, it *item, work []*item, out *[]Ret) []*item {
	cur := []*item{it}
	for {
		var next []*item
		progress := false
		for _, c := range cur {
			if len(c.defers) == 0 {
				next = append(next, c)
				continue
			}
			progress = true
			d := c.defers[len(c.defers)-1]
			c.defers = c.defers[:len(c.defers)-1]
			old := c.st.panicking
			c.st.panicking = c.panicking
			for _, r := range in.callVal(c.st, d.fn, d.args, d.site) {
				n := c.fork()
				n.st = r.st
				if r.panic != nil {
					n.panicking = r.panic
				} else if c.panicking != nil && r.st.panicking == nil {
					n.panicking = nil
					n.recovered = true
				}
				n.st.panicking = old
				next = append(next, n)
			}
		}
		cur = next
		if !progress {
			return cur
		}
	}
}

func (in *Interp) unwind(fn *ssa.Function, inf *fnInfo, it *item, p *PanicInfo, work []*item, out *[]Ret) []*item {
	if len(it.defers) == 0 || p.exit {
		*out = append(*out, Ret{st: it.st, panic: p})
		return work
	}
	it.panicking = p
	for _, n := range in.runDefers(fn, inf, it, work, out) {
		if n.panicking != nil {
			*out = append(*out, Ret{st: n.st, panic: n.panicking})
			continue
		}
		if fn.Recover != nil {
			n.b, n.i, n.prev = fn.Recover, 0, nil
			work = append(work, n)
			continue
		}
		*out = append(*out, Ret{st: n.st, v: in.zeroResult(fn.Signature.Results())})
	}
	return work
}

func (in *Interp) zeroResult(t *types.Tuple) Val {
	switch t.Len() {
	case 0:
		return Tuple{}
	case 1:
		return in.zeroVal(t.At(0).Type())
	}
	return in.zeroVal(t)
}

// ---------- operands ----------

func (in *Interp) val(inf *fnInfo, env []Val, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		o, ok := in.globals[x]
		if !ok {
			giveUp("global %s", x)
		}
		return Ptr{obj: o}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	return env[inf.idx[v]]
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return in.zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			return lit(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return linC(i)
			}
			return linC(inf)
		case b.Info()&types.IsFloat != 0:
			if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
				if i, ok := constant.Int64Val(iv); ok {
					return floatOf(linC(i))
				}
			}
			return Float{}
		}
	}
	return Opaque{t: c.Type(), tag: "const"}
}

func intRange(b *types.Basic) (int64, int64) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Uint8:
		return 0, 255
	case types.Int16:
		return -32768, 32767
	case types.Uint16:
		return 0, 65535
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	}
	return -inf, inf
}

// materialize turns "any value of a type" into values the interpreter can work with.
func (in *Interp) materialize(st *State, v Val) []valWorld {
	if tup, ok := v.(Tuple); ok {
		ws := []struct {
			st *State
			t  Tuple
		}{{st, Tuple{}}}
		any := false
		for _, e := range tup {
			if _, ok := e.(Unknown); ok {
				any = true
			}
		}
		if !any {
			return []valWorld{{st, v}}
		}
		for _, e := range tup {
			var nx []struct {
				st *State
				t  Tuple
			}
			for _, w := range ws {
				for _, m := range in.materialize(w.st, e) {
					nx = append(nx, struct {
						st *State
						t  Tuple
					}{m.st, append(w.t[:len(w.t):len(w.t)], m.v)})
				}
			}
			ws = nx
		}
		var out []valWorld
		for _, w := range ws {
			out = append(out, valWorld{w.st, w.t})
		}
		return out
	}
	if t, ok := v.(tmplStr); ok {
		s, ok := st.opqStr(t.lang, "element")
		if !ok {
			return nil
		}
		return []valWorld{{st, s}}
	}
	u, ok := v.(Unknown)
	if !ok {
		return []valWorld{{st, v}}
	}
	st.vagueAt("a value that is not known")
	one := func(v Val) []valWorld { return []valWorld{{st, v}} }
	if n, ok := types.Unalias(u.t).(*types.Named); ok {
		switch typeName(n) {
		case "time.Time":
			return one(&TimeV{opaque: true, id: st.newInt(-inf, inf, "instant"), zone: "UTC"})
		case "math/big.Float":
			return one(BigV{})
		}
	}
	switch t := u.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			n := st.clone()
			return []valWorld{{st, true}, {n, false}}
		case t.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return one(linS(st.newInt(lo, hi, "any")))
		case t.Info()&types.IsString != 0:
			return one(Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, "any")}}})
		case t.Info()&types.IsFloat != 0:
			return one(Float{})
		}
		return one(Opaque{t: u.t})
	case *types.Pointer:
		n := st.clone()
		o := in.newObj(st, Unknown{t.Elem()}, t.Elem())
		return []valWorld{{st, Ptr{obj: o}}, {n, Nil{}}}
	case *types.Interface:
		n := st.clone()
		return []valWorld{{st, Iface{t: nil, v: Opaque{t: u.t}}}, {n, Nil{}}}
	case *types.Slice:
		return one(SumSlice{elem: Unknown{t.Elem()}, n: linS(st.newInt(0, inf, "length"))})
	case *types.Struct, *types.Array:
		return one(in.expandUnknown(u))
	case *types.Tuple:
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = Unknown{t.At(i).Type()}
		}
		return in.materialize(st, tp)
	}
	return one(Opaque{t: u.t})
}

// ---------- instructions ----------

func one(st *State, v Val) []outcome { return []outcome{{st: st, v: v}} }

func (in *Interp) pan(st *State, ins ssa.Instruction, format string, args ...interface{}) outcome {
	return outcome{st: st, panic: &PanicInfo{msg: fmt.Sprintf(format, args...), pos: in.where(ins), fn: ins.Parent().String()}}
}

func bools(ws []boolWorld, neg bool) []outcome {
	var out []outcome
	for _, w := range ws {
		out = append(out, outcome{st: w.st, v: w.b != neg})
	}
	return out
}

func (in *Interp) eval(fn *ssa.Function, inf *fnInfo, it *item, ins ssa.Instruction) []outcome {
	st := it.st
	get := func(v ssa.Value) Val { return in.val(inf, it.env, v) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(st, in.zeroVal(et), et)
		return one(st, Ptr{obj: o})
	case *ssa.BinOp:
		return in.binop(st, ins, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		v := get(x.X)
		switch x.Op {
		case token.MUL:
			return in.deref(st, ins, v, x.Type())
		case token.NOT:
			b, ok := v.(bool)
			if !ok {
				giveUp("negation of %T", v)
			}
			return one(st, !b)
		case token.SUB:
			switch l := v.(type) {
			case Lin:
				return one(st, in.wrapInt(st, l.scale(-1), x.Type()))
			case Float:
				if l.small() {
					return one(st, floatOf(l.lin.scale(-1)))
				}
				return one(st, Float{})
			}
		case token.XOR:
			l := st.norm(v.(Lin))
			b := x.Type().Underlying().(*types.Basic)
			_, hi := intRange(b)
			if b.Info()&types.IsUnsigned != 0 && hi < infinity {
				return one(st, linC(hi).minus(l))
			}
			if b.Info()&types.IsUnsigned == 0 {
				return one(st, l.scale(-1).plusC(-1))
			}
			return one(st, linS(st.newInt(0, infinity, "not")))
		case token.ARROW:
			in.event(st, "chan", in.where(ins))
			var out []outcome
			if ch, ok := v.(Opaque); ok && ch.tag == "chan" {
				for _, e := range st.events {
					if e.kind == "chan send" {
						giveUp("receive from a channel that is sent to")
					}
				}
				// nothing is ever sent on a channel the analysis has seen no sender of
				if in.onBlock == nil {
					giveUp("receive from a channel")
				}
				in.onBlock(st)
				return nil
			}
			for _, w := range in.materialize(st, Unknown{x.Type()}) {
				out = append(out, outcome{st: w.st, v: w.v})
			}
			return out
		}
		giveUp("operator %v on %T", x.Op, v)
	case *ssa.Call:
		f, args := in.callee(inf, it, &x.Call)
		var out []outcome
		for _, r := range in.callVal(st, f, args, x) {
			if r.panic != nil {
				p := *r.panic
				out = append(out, outcome{st: r.st, panic: &p})
				continue
			}
			for _, w := range in.materialize(r.st, r.v) {
				out = append(out, outcome{st: w.st, v: w.v})
			}
		}
		return out
	case *ssa.ChangeType:
		return one(st, get(x.X))
	case *ssa.ChangeInterface:
		return one(st, get(x.X))
	case *ssa.Convert:
		return in.convert(st, ins, get(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(st, ins, get(x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return one(st, Iface{t: x.X.Type(), v: get(x.X)})
	case *ssa.Extract:
		t, ok := get(x.Tuple).(Tuple)
		if !ok {
			giveUp("extract from %T", get(x.Tuple))
		}
		return one(st, t[x.Index])
	case *ssa.Field:
		switch a := get(x.X).(type) {
		case Agg:
			return one(st, a.f[x.Field])
		}
		giveUp("field of %T", get(x.X))
	case *ssa.FieldAddr:
		switch p := get(x.X).(type) {
		case Ptr:
			return one(st, p.field(x.Field))
		case Nil:
			return []outcome{in.pan(st, ins, "nil pointer dereference (field %s)", fieldName(x))}
		case Opaque:
			t := x.Type().Underlying().(*types.Pointer).Elem()
			o := in.newObj(st, Unknown{t}, t)
			return one(st, Ptr{obj: o})
		}
		giveUp("field address of %T", get(x.X))
	case *ssa.Index:
		return in.index(st, ins, get(x.X), get(x.Index), x.Type())
	case *ssa.IndexAddr:
		return in.indexAddr(st, ins, get(x.X), get(x.Index), x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Lookup:
		v := get(x.X)
		if s, ok := v.(Str); ok {
			return in.strIndex(st, ins, s, get(x.Index))
		}
		return in.mapLookup(st, ins, v, get(x.Index), x)
	case *ssa.MapUpdate:
		m, ok := get(x.Map).(MapRef)
		if !ok {
			if _, isNil := get(x.Map).(Nil); isNil {
				return []outcome{in.pan(st, ins, "assignment to entry in nil map")}
			}
			if _, any := get(x.Map).(Opaque); any {
				return one(st, nil)
			}
			giveUp("update of %T", get(x.Map))
		}
		if m.obj < len(st.base) {
			in.noteGlobalWrite(st, Ptr{obj: m.obj})
		}
		k, v := get(x.Key), get(x.Value)
		var out []outcome
		mv := st.obj(m.obj).(MapV)
		for _, w := range in.findKey(st, mv, k) {
			n := MapV{keys: append([]Val(nil), mv.keys...), vals: append([]Val(nil), mv.vals...), approx: mv.approx}
			if w.i >= 0 {
				n.vals[w.i] = v
			} else {
				n.keys, n.vals = append(n.keys, k), append(n.vals, v)
			}
			w.st.setObj(m.obj, n)
			out = append(out, outcome{st: w.st})
		}
		return out
	case *ssa.MakeMap:
		o := in.newObj(st, MapV{}, x.Type())
		return one(st, MapRef{o})
	case *ssa.MakeChan:
		in.event(st, "chan", in.where(ins))
		return one(st, Opaque{t: x.Type(), tag: "chan"})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.b = append(c.b, get(b))
		}
		return one(st, c)
	case *ssa.MakeSlice:
		return in.makeSlice(st, ins, get(x.Len), get(x.Cap), x.Type().Underlying().(*types.Slice).Elem())
	case *ssa.Slice:
		return in.slice(st, ins, x, get)
	case *ssa.SliceToArrayPointer:
		giveUp("slice to array conversion")
	case *ssa.Store:
		v := get(x.Val)
		switch p := get(x.Addr).(type) {
		case Ptr:
			in.store(st, p, v)
			return one(st, nil)
		case Nil:
			return []outcome{in.pan(st, ins, "nil pointer dereference (store)")}
		case Opaque:
			return one(st, nil)
		}
		giveUp("store to %T", get(x.Addr))
	case *ssa.Range:
		switch v := get(x.X).(type) {
		case Str:
			o := in.newObj(st, StrIter{s: v}, nil)
			return one(st, Ptr{obj: o})
		case MapRef:
			o := in.newObj(st, MapIter{m: st.obj(v.obj).(MapV)}, nil)
			return one(st, Ptr{obj: o})
		case Nil:
			o := in.newObj(st, MapIter{}, nil)
			return one(st, Ptr{obj: o})
		case Opaque:
			mt, ok := x.X.Type().Underlying().(*types.Map)
			if !ok {
				giveUp("range over %T", v)
			}
			o := in.newObj(st, MapIter{any: mt}, nil)
			return one(st, Ptr{obj: o})
		default:
			giveUp("range over %T", v)
		}
	case *ssa.Next:
		if p, ok := get(x.Iter).(Ptr); ok {
			return in.next(st, ins, p, x)
		}
		rg, ok := x.Iter.(*ssa.Range)
		if !ok {
			giveUp("iteration over %T", get(x.Iter))
		}
		mt, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			giveUp("iteration over %T", get(x.Iter))
		}
		return in.nextAny(st, mt)
	case *ssa.TypeAssert:
		return in.typeAssert(st, ins, get(x.X), x)
	case *ssa.Go:
		in.event(st, "go", in.where(ins))
		f, args := in.callee(inf, it, &x.Call)
		var out []outcome
		for _, r := range in.callVal(st, f, args, x) {
			out = append(out, outcome{st: r.st, panic: r.panic})
		}
		return out
	case *ssa.Send:
		in.event(st, "chan send", in.where(ins))
		return one(st, nil)
	case *ssa.Select:
		if len(x.States) == 0 && x.Blocking && in.onBlock != nil {
			in.onBlock(st)
			return nil
		}
		giveUp("select statement")
	}
	giveUp("instruction %T", ins)
	return nil
}

func fieldName(x *ssa.FieldAddr) string {
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return s.Field(x.Field).Name()
		}
	}
	return "?"
}

func (in *Interp) deref(st *State, ins ssa.Instruction, v Val, t types.Type) []outcome {
	switch p := v.(type) {
	case Ptr:
		x := in.load(st, p)
		if u, ok := x.(Unknown); ok {
			var out []outcome
			for _, w := range in.materialize(st, u) {
				in.rawStore(w.st, p, w.v)
				out = append(out, outcome{st: w.st, v: w.v})
			}
			return out
		}
		return one(st, x)
	case Nil:
		return []outcome{in.pan(st, ins, "nil pointer dereference")}
	case Opaque:
		var out []outcome
		for _, w := range in.materialize(st, Unknown{t}) {
			out = append(out, outcome{st: w.st, v: w.v})
		}
		return out
	}
	giveUp("load from %T", v)
	return nil
}

func (in *Interp) rawStore(st *State, p Ptr, v Val) {
	n := len(st.wrote)
	in.store(st, p, v)
	st.wrote = st.wrote[:n]
}

// wrapInt: a result that may leave the range of its type becomes unknown.
func (in *Interp) wrapInt(st *State, l Lin, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return l
	}
	lo, hi := intRange(b)
	if lo <= -inf && hi >= inf {
		return l
	}
	a, z := st.bounds(l)
	if a >= lo && z <= hi {
		return l
	}
	if n := st.norm(l); n.isConst() {
		size := hi - lo + 1
		if hi >= inf {
			return linS(st.newInt(lo, hi, "wrapped"))
		}
		return linC(((n.c-lo)%size+size)%size + lo)
	}
	return linS(st.newInt(lo, hi, "wrapped"))
}

// bitsOf reads a linear form as a bit vector: bit i is a constant, a 0/1 symbol or its negation.
type bit struct {
	c   int8 // 0,1 or 2 (symbol)
	s   SymID
	neg bool
}

func (st *State) bitsOf(l Lin) ([40]bit, bool) {
	var out [40]bit
	l = st.norm(l)
	if l.c < 0 {
		return out, false
	}
	c := l.c
	for i := 0; i < 40; i++ {
		if c&(1<<uint(i)) != 0 {
			out[i].c = 1
		}
	}
	if c >= 1<<40 {
		return out, false
	}
	for _, t := range l.t {
		lo, hi := st.symBounds(t.s)
		if lo != 0 || hi != 1 {
			return out, false
		}
		k := t.k
		neg := false
		if k < 0 {
			k, neg = -k, true
		}
		i := 0
		for i < 40 && int64(1)<<uint(i) != k {
			i++
		}
		if i == 40 || out[i].c == 2 || neg != (out[i].c == 1) {
			return out, false
		}
		out[i] = bit{2, t.s, neg}
	}
	return out, true
}

func linOfBits(b [40]bit) Lin {
	l := Lin{}
	for i := range b {
		k := int64(1) << uint(i)
		switch b[i].c {
		case 1:
			l = l.plusC(k)
		case 2:
			if b[i].neg {
				l = l.plusC(k).plus(linS(b[i].s).scale(-k))
			} else {
				l = l.plus(linS(b[i].s).scale(k))
			}
		}
	}
	return l
}

func (in *Interp) bitop(st *State, op token.Token, a, b Lin, t types.Type) Val {
	na, nb := st.norm(a), st.norm(b)
	if na.isConst() && nb.isConst() {
		var r int64
		switch op {
		case token.AND:
			r = na.c & nb.c
		case token.OR:
			r = na.c | nb.c
		case token.XOR:
			r = na.c ^ nb.c
		case token.AND_NOT:
			r = na.c &^ nb.c
		}
		return linC(r)
	}
	x, ok1 := st.bitsOf(na)
	y, ok2 := st.bitsOf(nb)
	if ok1 && ok2 {
		var r [40]bit
		ok := true
		for i := range r {
			p, q := x[i], y[i]
			if op == token.AND_NOT {
				op2 := q
				switch q.c {
				case 0:
					op2.c = 1
				case 1:
					op2.c = 0
				default:
					op2.neg = !q.neg
				}
				q = op2
			}
			if p.c == 2 && q.c == 2 {
				if p.s == q.s {
					same := p.neg == q.neg
					switch {
					case op == token.XOR && same:
						r[i] = bit{}
					case op == token.XOR:
						r[i] = bit{c: 1}
					case same:
						r[i] = p
					case op == token.OR:
						r[i] = bit{c: 1}
					default:
						r[i] = bit{}
					}
					continue
				}
				ok = false
				break
			}
			if p.c == 2 {
				p, q = q, p
			}
			// p is constant
			switch op {
			case token.OR:
				if p.c == 1 {
					r[i] = bit{c: 1}
				} else {
					r[i] = q
				}
			case token.XOR:
				r[i] = q
				if p.c == 1 {
					if q.c == 2 {
						r[i].neg = !q.neg
					} else {
						r[i].c = 1 - q.c
					}
				}
			default:
				if p.c == 1 {
					r[i] = q
				}
			}
		}
		if ok {
			return linOfBits(r)
		}
	}
	lo, hi := int64(-inf), int64(inf)
	if bt, ok := t.Underlying().(*types.Basic); ok {
		lo, hi = intRange(bt)
	}
	_, ah := st.bounds(na)
	al, _ := st.bounds(na)
	bl, bh := st.bounds(nb)
	if op == token.AND && (al >= 0 || bl >= 0) {
		lo = 0
		if al >= 0 && ah < hi {
			hi = ah
		}
		if bl >= 0 && bh < hi {
			hi = bh
		}
	}
	if op == token.AND_NOT && al >= 0 {
		lo, hi = 0, ah
	}
	return linS(st.newInt(lo, hi, "bits"))
}

func (in *Interp) binop(st *State, ins ssa.Instruction, op token.Token, a, b Val, xt, rt types.Type) []outcome {
	switch op {
	case token.EQL, token.NEQ:
		return in.equal(st, a, b, op == token.NEQ)
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		if op == token.ADD {
			if len(x.it)+len(y.it) > 3000 {
				giveUp("string too long")
			}
			return one(st, Str{append(x.it[:len(x.it):len(x.it)], y.it...)})
		}
		var out []outcome
		for _, w := range st.cmpStr(x, y) {
			r := false
			switch op {
			case token.LSS:
				r = w.c < 0
			case token.LEQ:
				r = w.c <= 0
			case token.GTR:
				r = w.c > 0
			case token.GEQ:
				r = w.c >= 0
			}
			out = append(out, outcome{st: w.st, v: r})
		}
		return out
	case Lin:
		y, ok := b.(Lin)
		if !ok {
			giveUp("arithmetic on %T", b)
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			m := map[token.Token]cmpOp{token.LSS: opLT, token.LEQ: opLE, token.GTR: opGT, token.GEQ: opGE}[op]
			if ws, ok := st.forkUnix(x, y); ok {
				var out []outcome
				for _, w := range ws {
					r := false
					switch m {
					case opLT:
						r = w.c < 0
					case opLE:
						r = w.c <= 0
					case opGT:
						r = w.c > 0
					case opGE:
						r = w.c >= 0
					}
					out = append(out, outcome{st: w.st, v: r})
				}
				return out
			}
			return bools(st.forkCmp(x.minus(y), m), false)
		case token.ADD:
			return one(st, in.wrapInt(st, x.plus(y), rt))
		case token.SUB:
			return one(st, in.wrapInt(st, x.minus(y), rt))
		case token.MUL:
			return in.mul(st, x, y, rt)
		case token.QUO, token.REM:
			return in.div(st, ins, op, x, y, rt)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return one(st, in.bitop(st, op, x, y, rt))
		case token.SHL, token.SHR:
			nx, ny := st.norm(x), st.norm(y)
			if nx.isConst() && ny.isConst() && ny.c >= 0 && ny.c < 63 {
				if op == token.SHR {
					return one(st, linC(nx.c>>uint(ny.c)))
				}
				if c := nx.c << uint(ny.c); c>>uint(ny.c) == nx.c {
					return one(st, in.wrapInt(st, linC(c), rt))
				}
			}
			if ny.isConst() && ny.c >= 0 && ny.c < 40 {
				if op == token.SHL {
					if a, b := st.bounds(nx); a > -(1<<20) && b < 1<<20 {
						return one(st, in.wrapInt(st, nx.scale(1<<uint(ny.c)), rt))
					}
				} else {
					return in.div(st, ins, token.QUO, nx, linC(1<<uint(ny.c)), rt)
				}
			}
			if bt, ok := rt.Underlying().(*types.Basic); ok {
				lo, hi := intRange(bt)
				return one(st, linS(st.newInt(lo, hi, "shift")))
			}
		}
	case Float:
		y, ok := b.(Float)
		if !ok {
			giveUp("arithmetic on %T", b)
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			m := map[token.Token]cmpOp{token.LSS: opLT, token.LEQ: opLE, token.GTR: opGT, token.GEQ: opGE}[op]
			var out []outcome
			for _, w := range cmpBig(in, st, x.BigV, y.BigV) {
				out = append(out, outcome{st: w.st, v: m == opLT && w.c < 0 || m == opLE && w.c <= 0 || m == opGT && w.c > 0 || m == opGE && w.c >= 0})
			}
			return out
		case token.ADD:
			if x.small() && y.small() {
				return one(st, floatOf(x.lin.plus(y.lin)))
			}
		case token.SUB:
			if x.small() && y.small() {
				return one(st, floatOf(x.lin.minus(y.lin)))
			}
		case token.MUL:
			if x.small() && y.small() {
				if ny := st.norm(y.lin); ny.isConst() {
					return one(st, floatOf(x.lin.scale(ny.c)))
				}
				if nx := st.norm(x.lin); nx.isConst() {
					return one(st, floatOf(y.lin.scale(nx.c)))
				}
			}
		}
		return one(st, Float{})
	case Opaque:
		st.vagueAt("an operation on a value that is not known")
		if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			n := st.clone()
			return []outcome{{st: st, v: true}, {st: n, v: false}}
		}
		return one(st, Opaque{t: rt})
	}
	giveUp("operator %v on %T", op, a)
	return nil
}

func (in *Interp) mul(st *State, x, y Lin, rt types.Type) []outcome {
	nx, ny := st.norm(x), st.norm(y)
	if ny.isConst() || nx.isConst() {
		if nx.isConst() {
			nx, ny = ny, nx
		}
		lo, hi := st.bounds(nx)
		if satMul(lo, ny.c) > -inf/2 && satMul(hi, ny.c) < inf/2 && satMul(lo, ny.c) < inf/2 && satMul(hi, ny.c) > -inf/2 {
			if r, ok := (Lin{}).add(nx, ny.c); ok {
				return one(st, in.wrapInt(st, r, rt))
			}
		}
		return one(st, linS(st.newInt(-inf, inf, "product")))
	}
	for k, f := range []Lin{ny, nx} {
		if ws, ok := st.splitValues(f, 60); ok {
			var out []outcome
			o := nx
			if k == 1 {
				o = ny
			}
			for _, w := range ws {
				c := w.norm(f)
				out = append(out, in.mul(w, o, c, rt)...)
			}
			return out
		}
	}
	return one(st, linS(st.newInt(-inf, inf, "product")))
}

// div models truncated division and remainder.
func (in *Interp) div(st *State, ins ssa.Instruction, op token.Token, x, y Lin, rt types.Type) []outcome {
	var out []outcome
	for _, z := range st.forkCmp(y, opEQ) {
		if z.b {
			out = append(out, in.pan(z.st, ins, "integer division by zero"))
			continue
		}
		s := z.st
		ny := s.norm(y)
		if !ny.isConst() {
			if ws, ok := s.splitValues(ny, 60); ok {
				for _, w := range ws {
					out = append(out, in.div(w, ins, op, x, w.norm(y), rt)...)
				}
				continue
			}
			out = append(out, outcome{st: s, v: linS(s.newInt(-inf, inf, "quotient"))})
			continue
		}
		k := ny.c
		nx := s.norm(x)
		if nx.isConst() {
			if op == token.QUO {
				out = append(out, outcome{st: s, v: linC(nx.c / k)})
			} else {
				out = append(out, outcome{st: s, v: linC(nx.c % k)})
			}
			continue
		}
		ak := k
		if ak < 0 {
			ak = -ak
		}
		for _, w := range s.forkCmp(nx, opLT) {
			t := w.st
			m := nx // magnitude
			if w.b {
				m = nx.scale(-1)
			}
			// m = ak*q + r, 0 <= r < ak
			q, r, ok := splitDigits(t, m, ak)
			if !ok {
				lo, hi := t.bounds(m)
				if lo < 0 {
					lo = 0
				}
				if op == token.REM && 400%ak == 0 && hi-lo > 40 {
					// keep the residue: split on it when there are few
					rs := t.residues(m, ak)
					if len(rs) <= 4 {
						for i, rv := range rs {
							u := t
							if i < len(rs)-1 {
								u = t.clone()
							}
							var set resSet
							for v := int64(0); v < 400; v++ {
								if v%ak == rv {
									set.add(v)
								}
							}
							if u.assumeRes(m, &set) {
								c := rv
								if w.b {
									c = -c
								}
								out = append(out, outcome{st: u, v: linC(c)})
							}
						}
						continue
					}
				}
				var qs SymID
				if hi >= inf {
					qs = t.newInt(0, inf, "quotient")
				} else {
					qs = t.newInt(lo/ak, hi/ak, "quotient")
				}
				rs := t.newInt(0, ak-1, "remainder")
				si := *t.syms[rs]
				si.tag = &modTag{m, ak}
				t.syms[rs] = &si
				if hi < inf {
					if !t.assumeRange(m.minus(linS(qs).scale(ak)).minus(linS(rs)), 0, 0) {
						continue
					}
				}
				q, r = linS(qs), linS(rs)
			}
			if w.b {
				q, r = q.scale(-1), r.scale(-1)
			}
			if k < 0 {
				q = q.scale(-1)
			}
			if op == token.QUO {
				out = append(out, outcome{st: t, v: t.norm(q)})
			} else {
				out = append(out, outcome{st: t, v: t.norm(r)})
			}
		}
	}
	return out
}

type modTag struct {
	l Lin
	m int64
}

// splitDigits: exact quotient and remainder when the form splits into a multiple of k and a part in 0..k-1.
func splitDigits(st *State, m Lin, k int64) (q, r Lin, ok bool) {
	for _, t := range m.t {
		if t.k%k == 0 {
			q.t = append(q.t, Term{t.s, t.k / k})
		} else {
			r.t = append(r.t, t)
		}
	}
	q.c = floorDiv(m.c, k)
	r.c = m.c - q.c*k
	lo, hi := st.bounds(r)
	if lo >= 0 && hi < k {
		return q, r, true
	}
	return Lin{}, Lin{}, false
}

// equal compares two values.
func (in *Interp) equal(st *State, a, b Val, neg bool) []outcome {
	unk := func() []outcome {
		st.vagueAt("a comparison of values that are not known")
		n := st.clone()
		return []outcome{{st: st, v: !neg}, {st: n, v: neg}}
	}
	is := func(b bool) []outcome { return one(st, b != neg) }
	switch x := a.(type) {
	case Lin:
		if y, ok := b.(Lin); ok {
			if ws, ok := st.forkUnix(x, y); ok {
				var out []outcome
				for _, w := range ws {
					out = append(out, outcome{st: w.st, v: (w.c == 0) != neg})
				}
				return out
			}
			d := x.minus(y)
			// remainder against a constant: keep the residue
			if nd := st.norm(d); len(nd.t) == 1 && (nd.t[0].k == 1 || nd.t[0].k == -1) {
				if mt, ok := st.syms[nd.t[0].s].tag.(*modTag); ok && 400%mt.m == 0 {
					v := -nd.c * nd.t[0].k
					var yes, no resSet
					for i := int64(0); i < 400; i++ {
						if i%mt.m == v {
							yes.add(i)
						} else {
							no.add(i)
						}
					}
					o := st.clone()
					var out []outcome
					if st.assumeRes(mt.l, &yes) && st.assumeRange(d, 0, 0) {
						out = append(out, outcome{st: st, v: !neg})
					}
					if o.assumeRes(mt.l, &no) {
						for _, w := range o.assume(d, opNE) {
							out = append(out, outcome{st: w, v: neg})
						}
					}
					return out
				}
			}
			// a single bit
			nd := st.norm(d)
			if len(nd.t) == 1 {
				if lo, hi := st.symBounds(nd.t[0].s); lo == 0 && hi == 1 {
					return bools(st.forkCmp(nd, opEQ), neg)
				}
			}
			return bools(st.forkCmp(d, opEQ), neg)
		}
	case bool:
		if y, ok := b.(bool); ok {
			return is(x == y)
		}
	case Str:
		if y, ok := b.(Str); ok {
			return bools(st.eqStr(x, y), neg)
		}
	case Nil:
		switch y := b.(type) {
		case Nil:
			return is(true)
		case SumSlice:
			if lo, _ := st.bounds(y.n); lo > 0 {
				return is(false)
			}
			return unk()
		case Unknown:
			return unk()
		}
		return is(false)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return is(x == y)
		case Nil:
			return is(false)
		case Opaque:
			return is(false)
		}
	case Iface:
		switch y := b.(type) {
		case Nil:
			return is(false)
		case Iface:
			if x.t == nil || y.t == nil {
				return unk()
			}
			if !types.Identical(x.t, y.t) {
				return is(false)
			}
			return in.equal(st, x.v, y.v, neg)
		case Opaque:
			return unk()
		}
		// mixed interface / concrete comparison
		return in.equal(st, x.v, b, neg)
	case Slice, SumSlice, BytesV, MapRef, *Closure:
		if _, ok := b.(Nil); ok {
			if s, ok := a.(SumSlice); ok {
				if lo, _ := st.bounds(s.n); lo == 0 {
					return unk()
				}
			}
			return is(false)
		}
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			return is(x == y || x.id != "" && x.id == y.id)
		}
	case Agg:
		if y, ok := b.(Agg); ok && len(x.f) == len(y.f) {
			cur := []*State{st}
			var out []outcome
			for i := range x.f {
				var nx []*State
				for _, s := range cur {
					for _, o := range in.equal(s, x.f[i], y.f[i], false) {
						if o.v.(bool) {
							nx = append(nx, o.st)
						} else {
							out = append(out, outcome{st: o.st, v: neg})
						}
					}
				}
				cur = nx
			}
			for _, s := range cur {
				out = append(out, outcome{st: s, v: !neg})
			}
			return out
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			var out []outcome
			for _, w := range st.cmpTime(x, y) {
				if w.c == 0 && x.zone != y.zone {
					n := w.st.clone()
					out = append(out, outcome{st: n, v: !neg}, outcome{st: w.st, v: neg})
					continue
				}
				out = append(out, outcome{st: w.st, v: (w.c == 0) != neg})
			}
			return out
		}
	case Float:
		if y, ok := b.(Float); ok {
			var out []outcome
			for _, w := range cmpBig(in, st, x.BigV, y.BigV) {
				out = append(out, outcome{st: w.st, v: (w.c == 0) != neg})
			}
			return out
		}
		return unk()
	case Opaque:
		switch y := b.(type) {
		case Nil:
			return is(false)
		case Opaque:
			if x.tag != "" && x.tag == y.tag {
				return is(true)
			}
			if x.tag != "" && y.tag != "" && x.tag != y.tag {
				return is(false)
			}
			return unk()
		}
		return unk()
	}
	switch b.(type) {
	case Nil, Opaque, Iface:
		if _, again := a.(Iface); !again {
			if _, n := a.(Nil); !n {
				return in.equal(st, b, a, neg)
			}
		}
	}
	giveUp("comparison of %T and %T", a, b)
	return nil
}

// ---------- conversions ----------

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (in *Interp) convert(st *State, ins ssa.Instruction, v Val, from, to types.Type) []outcome {
	tb, _ := to.Underlying().(*types.Basic)
	switch x := v.(type) {
	case Lin:
		if tb == nil {
			break
		}
		switch {
		case tb.Info()&types.IsInteger != 0:
			lo, hi := intRange(tb)
			a, b := st.bounds(x)
			if a >= lo && b <= hi {
				return one(st, x)
			}
			if lo <= -inf && hi >= inf {
				return one(st, x)
			}
			if n := st.norm(x); n.isConst() {
				return one(st, in.wrapInt(st, n, to))
			}
			// within the range the value is kept, outside it is anything
			var out []outcome
			for _, w := range st.forkCmp(x.plusC(-hi), opGT) {
				if hi < inf && w.b {
					out = append(out, outcome{st: w.st, v: linS(w.st.newInt(lo, hi, "truncated"))})
					continue
				}
				if lo <= -inf {
					out = append(out, outcome{st: w.st, v: x})
					continue
				}
				for _, z := range w.st.forkCmp(x.plusC(-lo), opLT) {
					if z.b {
						out = append(out, outcome{st: z.st, v: linS(z.st.newInt(lo, hi, "truncated"))})
					} else {
						out = append(out, outcome{st: z.st, v: x})
					}
				}
			}
			return out
		case tb.Info()&types.IsString != 0:
			s, ok := in.runeStr(st, x)
			if !ok {
				return one(st, Str{[]Item{{k: iOpq, s: st.newOpq(patDFA(`(?s).`), "rune")}}})
			}
			return one(st, s)
		case tb.Info()&types.IsFloat != 0:
			a, b := st.bounds(x)
			lim := int64(1) << 53
			if tb.Kind() == types.Float32 {
				lim = 1 << 24
			}
			if a >= -lim && b <= lim {
				return one(st, floatOf(x))
			}
			return one(st, Float{})
		}
	case Float:
		if tb == nil {
			break
		}
		if tb.Info()&types.IsFloat != 0 {
			return one(st, x)
		}
		if tb.Info()&types.IsInteger != 0 {
			if x.small() {
				return in.convert(st, ins, x.lin, types.Typ[types.Int64], to)
			}
			if x.trunc != nil && x.huge == 0 {
				return in.convert(st, ins, *x.trunc, types.Typ[types.Int64], to)
			}
			lo, hi := intRange(tb)
			return one(st, linS(st.newInt(lo, hi, "from float")))
		}
	case Str:
		if tb != nil {
			return one(st, x)
		}
		if isByteSlice(to) {
			return one(st, BytesV{x})
		}
		if isRuneSlice(to) {
			var out []outcome
			for _, w := range st.expand(x) {
				it := w.flatten(x.it)
				if hasOpq(it) || !asciiItems(it) {
					out = append(out, outcome{st: w, v: SumSlice{elem: Unknown{types.Typ[types.Int32]}, n: linS(w.newInt(0, inf, "runes"))}})
					continue
				}
				vals := make([]Val, len(it))
				for i, e := range it {
					vals[i] = w.itemLin(e).plusC(48)
				}
				out = append(out, outcome{st: w, v: in.sliceOf(w, vals, types.Typ[types.Int32])})
			}
			return out
		}
	case BytesV:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return one(st, x.s)
		}
		return one(st, x)
	case Slice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			s := Str{}
			for i := 0; i < x.n; i++ {
				e := in.load(st, x.arr.field(x.off+i))
				l, ok := e.(Lin)
				if !ok {
					giveUp("string of %T", e)
				}
				c, ok := in.runeStr(st, l)
				if !ok {
					c = Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, "bytes")}}}
				}
				s.it = append(s.it, c.it...)
			}
			return one(st, s)
		}
		return one(st, x)
	case SumSlice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return one(st, Str{[]Item{{k: iOpq, s: st.newOpq(dfaAny, "bytes")}}})
		}
		return one(st, x)
	case Nil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return one(st, Str{})
		}
		return one(st, x)
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		giveUp("unsafe conversion")
	}
	return one(st, v)
}

// runeStr: the string of one ASCII character code.
func (in *Interp) runeStr(st *State, l Lin) (Str, bool) {
	l = st.norm(l)
	if l.isConst() {
		if l.c < 0 || l.c > 0x10ffff {
			return lit("\uFFFD"), true
		}
		return lit(string(rune(l.c))), true
	}
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 48 && st.syms[l.t[0].s].kind == kCell {
		return Str{[]Item{{k: iCell, s: l.t[0].s}}}, true
	}
	lo, hi := st.bounds(l)
	if lo >= 0 && hi < 128 {
		c := st.newCell(csRange(byte(lo), byte(hi)), "char")
		st.assumeRange(linS(c).plusC(48).minus(l), 0, 0)
		return Str{[]Item{{k: iCell, s: c}}}, true
	}
	return Str{}, false
}

// ---------- slices, arrays, maps ----------

func (in *Interp) sliceOf(st *State, vals []Val, elem types.Type) Slice {
	o := in.newObj(st, Agg{vals}, types.NewArray(elem, int64(len(vals))))
	return Slice{arr: Ptr{obj: o}, n: len(vals), cp: len(vals)}
}

func (in *Interp) makeSlice(st *State, ins ssa.Instruction, ln, cp Val, elem types.Type) []outcome {
	l := st.norm(ln.(Lin))
	var out []outcome
	for _, w := range st.forkCmp(l, opLT) {
		if w.b {
			out = append(out, in.pan(w.st, ins, "makeslice: len out of range"))
			continue
		}
		l := w.st.norm(l)
		if !l.isConst() || l.c > 2000 {
			out = append(out, outcome{st: w.st, v: SumSlice{elem: Unknown{elem}, n: l}})
			continue
		}
		c := w.st.norm(cp.(Lin))
		n := l.c
		k := n
		if c.isConst() && c.c > n && c.c < 2000 {
			k = c.c
		}
		vals := make([]Val, k)
		for i := range vals {
			vals[i] = in.zeroVal(elem)
		}
		s := in.sliceOf(w.st, vals, elem)
		s.n = int(n)
		out = append(out, outcome{st: w.st, v: s})
	}
	return out
}

type intConst struct {
	st *State
	i  int64
	ok bool
}

// constIndex enumerates the values of an index in [0,n); panics for the rest.
func (in *Interp) constIndex(st *State, ins ssa.Instruction, idx Lin, n int64, out *[]outcome) []intConst {
	var res []intConst
	for _, a := range st.forkCmp(idx, opLT) {
		if a.b {
			*out = append(*out, in.pan(a.st, ins, "index out of range (negative index)"))
			continue
		}
		for _, b := range a.st.forkCmp(idx.plusC(-n), opGE) {
			if b.b {
				*out = append(*out, in.pan(b.st, ins, "index out of range with length %d", n))
				continue
			}
			ws, ok := b.st.splitValues(idx, n+1)
			if !ok {
				giveUp("index is not bounded")
			}
			for _, w := range ws {
				res = append(res, intConst{w, w.norm(idx).c, true})
			}
		}
	}
	return res
}

func (in *Interp) index(st *State, ins ssa.Instruction, v, idx Val, t types.Type) []outcome {
	switch x := v.(type) {
	case Agg:
		var out []outcome
		for _, w := range in.constIndex(st, ins, idx.(Lin), int64(len(x.f)), &out) {
			for _, m := range in.materialize(w.st, x.f[w.i]) {
				out = append(out, outcome{st: m.st, v: m.v})
			}
		}
		return out
	case Str:
		return in.strIndex(st, ins, x, idx)
	}
	giveUp("index of %T", v)
	return nil
}

func (in *Interp) indexAddr(st *State, ins ssa.Instruction, v, idx Val, elem types.Type) []outcome {
	var out []outcome
	i := idx.(Lin)
	switch x := v.(type) {
	case Ptr: // array
		a, ok := in.load(st, x).(Agg)
		if !ok {
			u, isU := in.load(st, x).(Unknown)
			if !isU {
				giveUp("index address of %T", in.load(st, x))
			}
			a = in.expandUnknown(u).(Agg)
			in.rawStore(st, x, a)
		}
		for _, w := range in.constIndex(st, ins, i, int64(len(a.f)), &out) {
			out = append(out, outcome{st: w.st, v: x.field(int(w.i))})
		}
		return out
	case Slice:
		for _, w := range in.constIndex(st, ins, i, int64(x.n), &out) {
			out = append(out, outcome{st: w.st, v: x.arr.field(x.off + int(w.i))})
		}
		return out
	case Nil:
		return []outcome{in.pan(st, ins, "index out of range with length 0")}
	case SumSlice, BytesV:
		var n Lin
		var ev Val
		if s, ok := v.(SumSlice); ok {
			n, ev = s.n, s.elem
		} else {
			b := v.(BytesV)
			n = st.strLen(b.s)
			for _, o := range in.strIndex(st, ins, b.s, idx) {
				if o.panic != nil {
					out = append(out, o)
					continue
				}
				obj := in.newObj(o.st, o.v, elem)
				out = append(out, outcome{st: o.st, v: Ptr{obj: obj}})
			}
			return out
		}
		for _, a := range st.forkCmp(i, opLT) {
			if a.b {
				out = append(out, in.pan(a.st, ins, "index out of range (negative index)"))
				continue
			}
			for _, b := range a.st.forkCmp(i.minus(n), opGE) {
				if b.b {
					out = append(out, in.pan(b.st, ins, "index out of range of a slice of unknown length"))
					continue
				}
				for _, m := range in.materialize(b.st, ev) {
					obj := in.newObj(m.st, m.v, elem)
					out = append(out, outcome{st: m.st, v: Ptr{obj: obj}})
				}
			}
		}
		return out
	case Opaque:
		obj := in.newObj(st, Unknown{elem}, elem)
		return one(st, Ptr{obj: obj})
	}
	giveUp("index address of %T", v)
	return nil
}

func (in *Interp) strIndex(st *State, ins ssa.Instruction, s Str, idx Val) []outcome {
	var out []outcome
	i := idx.(Lin)
	for _, e := range st.expand(s) {
		it := e.flatten(s.it)
		if !hasOpq(it) {
			for _, w := range in.constIndex(e, ins, i, int64(len(it)), &out) {
				out = append(out, outcome{st: w.st, v: w.st.norm(w.st.itemLin(it[w.i]).plusC(48))})
			}
			continue
		}
		n := e.strLen(Str{it})
		for _, a := range e.forkCmp(i, opLT) {
			if a.b {
				out = append(out, in.pan(a.st, ins, "index out of range (negative index)"))
				continue
			}
			for _, b := range a.st.forkCmp(i.minus(n), opGE) {
				if b.b {
					out = append(out, in.pan(b.st, ins, "string index out of range"))
					continue
				}
				ni := b.st.norm(i)
				it2 := b.st.flatten(it)
				if ni.isConst() && int(ni.c) < len(it2) && !hasOpq(it2[:ni.c+1]) {
					out = append(out, outcome{st: b.st, v: b.st.norm(b.st.itemLin(it2[ni.c]).plusC(48))})
					continue
				}
				// the first character of a language
				if ni.isConst() && ni.c == 0 && len(it2) > 0 && it2[0].k == iOpq {
					L := b.st.syms[it2[0].s].lang
					var cs Charset
					for _, ed := range L.edges(0) {
						if L.liveStates()[ed.to] {
							cs = cs.or(ed.cs)
						}
					}
					if cs.max() < 128 && !L.acc[0] && !cs.empty() {
						// split the segment into its first character and the rest, per character class
						done := true
						for _, ed := range groupEdges(L) {
							w := b.st.clone()
							if w.splitFirst(it2[0].s, ed.cs, ed.to) {
								f := w.flatten(it2)
								out = append(out, outcome{st: w, v: w.norm(w.itemLin(f[0]).plusC(48))})
							}
						}
						if done {
							continue
						}
					}
				}
				out = append(out, outcome{st: b.st, v: linS(b.st.newInt(0, 255, "byte"))})
			}
		}
	}
	return out
}

func groupEdges(d *DFA) []dedge {
	var out []dedge
	live := d.liveStates()
	for _, e := range d.edges(0) {
		if live[e.to] {
			out = append(out, e)
		}
	}
	return out
}

// splitFirst: the segment starts with a character of cs leading to automaton state q.
func (st *State) splitFirst(s SymID, cs Charset, q int32) bool {
	si := st.syms[s]
	rest := si.lang.from(q)
	c := Item{k: iCell, s: st.newCell(cs, si.name)}
	if cs.count() == 1 {
		c = Item{k: iLit, b: byte(cs.first())}
	}
	r, ok := st.opqStr(rest, si.name)
	if !ok {
		return false
	}
	n := *st.syms[s]
	n.isSub = true
	n.sub = append([]Item{c}, r.it...)
	st.syms[s] = &n
	if n.lenSym != 0 {
		return st.assumeRange(linS(n.lenSym).minus(st.strLen(Str{n.sub})), 0, 0)
	}
	return true
}

func (in *Interp) slice(st *State, ins ssa.Instruction, x *ssa.Slice, get func(ssa.Value) Val) []outcome {
	v := get(x.X)
	lin := func(o ssa.Value) (Lin, bool) {
		if o == nil {
			return Lin{}, false
		}
		return get(o).(Lin), true
	}
	lo, hasLo := lin(x.Low)
	hi, hasHi := lin(x.High)
	if x.Max != nil {
		giveUp("three-index slice")
	}
	switch s := v.(type) {
	case Str:
		return in.substr(st, ins, s, lo, hi, hasHi)
	case BytesV:
		var out []outcome
		for _, o := range in.substr(st, ins, s.s, lo, hi, hasHi) {
			if o.panic == nil {
				o.v = BytesV{o.v.(Str)}
			}
			out = append(out, o)
		}
		return out
	case Nil:
		var out []outcome
		for _, w := range st.forkCmp(lo.plus(hi), opEQ) {
			if w.b {
				out = append(out, outcome{st: w.st, v: Nil{}})
			} else {
				out = append(out, in.pan(w.st, ins, "slice bounds out of range"))
			}
		}
		return out
	case Ptr, Slice:
		var base Slice
		if p, ok := v.(Ptr); ok {
			a, ok := in.load(st, p).(Agg)
			if !ok {
				giveUp("slice of %T", in.load(st, p))
			}
			base = Slice{arr: p, n: len(a.f), cp: len(a.f)}
		} else {
			base = s.(Slice)
		}
		if !hasHi {
			hi = linC(int64(base.n))
		}
		var out []outcome
		for _, a := range in.constIndexPanic(st, ins, hi, int64(base.cp)+1, "slice bounds out of range", &out) {
			l := lo
			if !hasLo {
				l = linC(0)
			}
			for _, b := range in.constIndexPanic(a.st, ins, l, a.i+1, "slice bounds out of range", &out) {
				out = append(out, outcome{st: b.st, v: Slice{arr: base.arr, off: base.off + int(b.i), n: int(a.i - b.i), cp: base.cp - int(b.i)}})
			}
		}
		return out
	case SumSlice:
		if !hasHi {
			hi = s.n
		}
		var out []outcome
		for _, a := range st.forkCmp(lo, opLT) {
			if a.b {
				out = append(out, in.pan(a.st, ins, "slice bounds out of range"))
				continue
			}
			for _, b := range a.st.forkCmp(hi.minus(s.n), opGT) {
				if b.b {
					out = append(out, in.pan(b.st, ins, "slice bounds out of range"))
					continue
				}
				for _, c := range b.st.forkCmp(lo.minus(hi), opGT) {
					if c.b {
						out = append(out, in.pan(c.st, ins, "slice bounds out of range"))
						continue
					}
					out = append(out, outcome{st: c.st, v: SumSlice{elem: s.elem, n: hi.minus(lo)}})
				}
			}
		}
		return out
	case Opaque:
		return one(st, s)
	}
	giveUp("slice of %T", v)
	return nil
}

func (in *Interp) constIndexPanic(st *State, ins ssa.Instruction, idx Lin, n int64, msg string, out *[]outcome) []intConst {
	var res []intConst
	for _, a := range st.forkCmp(idx, opLT) {
		if a.b {
			*out = append(*out, in.pan(a.st, ins, "%s", msg))
			continue
		}
		for _, b := range a.st.forkCmp(idx.plusC(-n), opGE) {
			if b.b {
				*out = append(*out, in.pan(b.st, ins, "%s", msg))
				continue
			}
			ws, ok := b.st.splitValues(idx, n+1)
			if !ok {
				giveUp("bound is not constant")
			}
			for _, w := range ws {
				res = append(res, intConst{w, w.norm(idx).c, true})
			}
		}
	}
	return res
}

func (in *Interp) substr(st *State, ins ssa.Instruction, s Str, lo, hi Lin, hasHi bool) []outcome {
	var out []outcome
	for _, e := range st.expand(s) {
		it := e.flatten(s.it)
		n := e.strLen(Str{it})
		h := hi
		if !hasHi {
			h = n
		}
		if !hasOpq(it) {
			for _, a := range in.constIndexPanic(e, ins, h, int64(len(it))+1, "slice bounds out of range", &out) {
				for _, b := range in.constIndexPanic(a.st, ins, lo, a.i+1, "slice bounds out of range", &out) {
					out = append(out, outcome{st: b.st, v: Str{it[b.i:a.i:a.i]}})
				}
			}
			continue
		}
		for _, a := range e.forkCmp(lo, opLT) {
			if a.b {
				out = append(out, in.pan(a.st, ins, "slice bounds out of range"))
				continue
			}
			for _, b := range a.st.forkCmp(h.minus(n), opGT) {
				if b.b {
					out = append(out, in.pan(b.st, ins, "slice bounds out of range"))
					continue
				}
				for _, c := range b.st.forkCmp(lo.minus(h), opGT) {
					if c.b {
						out = append(out, in.pan(c.st, ins, "slice bounds out of range"))
						continue
					}
					out = append(out, outcome{st: c.st, v: c.st.subStr(Str{it}, lo, h)})
				}
			}
		}
	}
	return out
}

// subStr takes s[lo:hi] (bounds already established) as precisely as the layout allows.
func (st *State) subStr(s Str, lo, hi Lin) Str {
	it := st.flatten(s.it)
	// position of a bound: an item boundary at which the length so far equals it
	find := func(b Lin) int {
		acc := Lin{}
		for i := 0; i <= len(it); i++ {
			if st.eqLin(acc, b) {
				return i
			}
			if i < len(it) {
				if it[i].k == iOpq {
					acc = acc.plus(linS(st.lenSymOf(it[i].s)))
				} else {
					acc.c++
				}
			}
		}
		return -1
	}
	a, b := find(lo), find(hi)
	if a >= 0 && b >= a {
		return Str{it[a:b:b]}
	}
	// drop a constant number of characters from the ends of a single segment
	if len(it) == 1 {
		L := st.syms[it[0].s].lang
		if u := L.Used(); u.and(nonASCII).empty() {
			d := L
			n := st.strLen(Str{it})
			nl := st.norm(lo)
			k := st.norm(n.minus(hi))
			if nl.isConst() && k.isConst() && nl.c < 50 && k.c < 50 && k.c >= 0 {
				d = dropSuffix(dropPrefix(d, int(nl.c)), int(k.c))
				if r, ok := st.opqStr(d, "substring"); ok {
					return r
				}
			}
			nh := st.norm(hi)
			if nl.isConst() && nh.isConst() && nh.c >= nl.c && nh.c-nl.c < 50 {
				d = takePrefix(dropPrefix(d, int(nl.c)), int(nh.c-nl.c))
				if r, ok := st.opqStr(d, "substring"); ok {
					return r
				}
			}
		}
	}
	o := st.newOpq(dfaAny, "substring")
	r := Str{[]Item{{k: iOpq, s: o}}}
	l := st.lenSymOf(o)
	st.assumeRange(linS(l).minus(hi).plus(lo), 0, 0)
	return r
}

func (in *Interp) findKey(st *State, m MapV, k Val) []idxWorld {
	cur := []*State{st}
	var out []idxWorld
	for i, key := range m.keys {
		var nx []*State
		for _, s := range cur {
			for _, o := range in.equal(s, key, k, false) {
				if o.v.(bool) {
					out = append(out, idxWorld{o.st, i})
				} else {
					nx = append(nx, o.st)
				}
			}
		}
		cur = nx
	}
	for _, s := range cur {
		out = append(out, idxWorld{s, -1})
	}
	return out
}

func (in *Interp) mapLookup(st *State, ins ssa.Instruction, v, k Val, x *ssa.Lookup) []outcome {
	var et types.Type
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		et = mt.Elem()
	}
	ret := func(st *State, v Val, ok bool) outcome {
		if x.CommaOk {
			return outcome{st: st, v: Tuple{v, ok}}
		}
		return outcome{st: st, v: v}
	}
	var mv MapV
	switch m := v.(type) {
	case Nil:
	case MapRef:
		var ok bool
		mv, ok = st.obj(m.obj).(MapV)
		if !ok {
			giveUp("lookup in %T", st.obj(m.obj))
		}
	case Opaque:
		n := st.clone()
		out := []outcome{ret(n, in.zeroVal(et), false)}
		for _, w := range in.materialize(st, Unknown{et}) {
			out = append(out, ret(w.st, w.v, true))
		}
		return out
	default:
		giveUp("lookup in %T", v)
	}
	var out []outcome
	for _, w := range in.findKey(st, mv, k) {
		if w.i >= 0 {
			for _, m := range in.materialize(w.st, mv.vals[w.i]) {
				out = append(out, ret(m.st, m.v, true))
			}
		} else {
			out = append(out, ret(w.st, in.zeroVal(et), false))
		}
	}
	return out
}

func (in *Interp) next(st *State, ins ssa.Instruction, p Ptr, x *ssa.Next) []outcome {
	switch itr := st.obj(p.obj).(type) {
	case StrIter:
		var out []outcome
		for _, e := range st.expand(itr.s) {
			it := e.flatten(itr.s.it)
			pos := itr.pos
			if pos >= len(it) {
				out = append(out, outcome{st: e, v: Tuple{false, linC(0), linC(0)}})
				continue
			}
			if it[pos].k == iOpq || hasOpq(it[:pos]) {
				n := e.clone()
				ln := e.strLen(Str{it})
				i := e.newInt(0, inf, "offset")
				if e.assumeRange(linS(i).minus(ln), -inf, -1) {
					out = append(out, outcome{st: e, v: Tuple{true, linS(i), linS(e.newInt(0, 0x10ffff, "rune"))}})
				}
				out = append(out, outcome{st: n, v: Tuple{false, linC(0), linC(0)}})
				continue
			}
			n := 1
			var r Lin
			if it[pos].k == iLit && it[pos].b >= 128 {
				rr, k := decodeLit(it[pos:])
				r, n = linC(int64(rr)), k
			} else {
				r = e.itemLin(it[pos]).plusC(48)
			}
			e.setObj(p.obj, StrIter{s: Str{it}, pos: pos + n})
			out = append(out, outcome{st: e, v: Tuple{true, linC(int64(pos)), r}})
		}
		return out
	case MapIter:
		if itr.any != nil {
			return in.nextAny(st, itr.any)
		}
		if itr.pos >= len(itr.m.keys) {
			return one(st, Tuple{false, Nil{}, Nil{}})
		}
		i := itr.pos
		if len(itr.m.keys) > 1 {
			in.mapRange = true
		}
		if in.mapOrder == 1 {
			i = len(itr.m.keys) - 1 - i
		}
		itr.pos++
		st.setObj(p.obj, itr)
		return one(st, Tuple{true, itr.m.keys[i], itr.m.vals[i]})
	}
	giveUp("iteration over %T", st.obj(p.obj))
	return nil
}

// nextAny: the next entry of a map of which nothing is known, or the end.
func (in *Interp) nextAny(st *State, t *types.Map) []outcome {
	in.mapRange = true
	out := one(st.clone(), Tuple{false, Nil{}, Nil{}})
	for _, k := range in.materialize(st, Unknown{t.Key()}) {
		for _, v := range in.materialize(k.st, Unknown{t.Elem()}) {
			out = append(out, outcome{st: v.st, v: Tuple{true, k.v, v.v}})
		}
	}
	return out
}

// stdError tells whether an error of the standard library has a type (1: yes, 0: no, -1: not known).
func stdError(in *Interp, e *ErrV, t types.Type) int {
	n := namedOf(t)
	switch {
	case strings.HasPrefix(n, in.w.modPath), e.kind == "errors.New", e.kind == "fmt.Errorf", e.kind == "errors.Join":
		return 0
	case e.kind == "strconv":
		if n == "strconv.NumError" {
			return 1
		}
		return 0
	case e.kind == "time.Parse":
		if n == "time.ParseError" {
			return 1
		}
		return 0
	}
	return -1
}

func (in *Interp) typeAssert(st *State, ins ssa.Instruction, v Val, x *ssa.TypeAssert) []outcome {
	ok := func(st *State, v Val) outcome {
		if x.CommaOk {
			return outcome{st: st, v: Tuple{v, true}}
		}
		return outcome{st: st, v: v}
	}
	fail := func(st *State) outcome {
		if x.CommaOk {
			return outcome{st: st, v: Tuple{in.zeroVal(x.AssertedType), false}}
		}
		return in.pan(st, ins, "interface conversion to %v fails", x.AssertedType)
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch i := v.(type) {
	case Nil:
		return []outcome{fail(st)}
	case Iface:
		if i.t == nil {
			st.vagueAt("the type of a value")
			n := st.clone()
			out := []outcome{fail(n)}
			if toIface {
				return append(out, ok(st, i))
			}
			for _, w := range in.materialize(st, Unknown{x.AssertedType}) {
				if _, isNil := w.v.(Nil); isNil {
					continue
				}
				out = append(out, ok(w.st, w.v))
			}
			return out
		}
		if toIface {
			if types.AssignableTo(i.t, x.AssertedType) {
				return []outcome{ok(st, i)}
			}
			return []outcome{fail(st)}
		}
		if e, isErr := i.v.(*ErrV); isErr {
			switch stdError(in, e, x.AssertedType) {
			case 1:
				return []outcome{ok(st, Unknown{x.AssertedType})}
			case 0:
				return []outcome{fail(st)}
			}
			st.vagueAt("the type of an error")
			return []outcome{fail(st.clone()), ok(st, Unknown{x.AssertedType})}
		}
		if types.Identical(i.t, x.AssertedType) {
			return []outcome{ok(st, i.v)}
		}
		return []outcome{fail(st)}
	case Opaque:
		return in.typeAssert(st, ins, Iface{v: i}, x)
	}
	giveUp("type assertion on %T", v)
	return nil
}

// ---------- calls ----------

func (in *Interp) callee(inf *fnInfo, it *item, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(inf, it.env, a))
	}
	if c.IsInvoke() {
		return invokeRef{in.val(inf, it.env, c.Value), c.Method}, args
	}
	return in.val(inf, it.env, c.Value), args
}

type invokeRef struct {
	recv Val
	m    *types.Func
}

func (in *Interp) callVal(st *State, f Val, args []Val, site ssa.CallInstruction) []Ret {
	ctx := &callCtx{site: site}
	if site != nil {
		ctx.pos = in.where(site)
		if v := site.Value(); v != nil {
			ctx.rt = v.Type()
		} else {
			ctx.rt = site.Common().Signature().Results()
		}
	}
	pan := func(format string, a ...interface{}) []Ret {
		p := &PanicInfo{msg: fmt.Sprintf(format, a...), pos: ctx.pos}
		if site != nil {
			p.fn = site.Parent().String()
		}
		return []Ret{{st: st, panic: p}}
	}
	switch c := f.(type) {
	case *ssa.Builtin:
		return in.builtin(st, c, args, ctx)
	case *Closure:
		if c.model != nil {
			return c.model(in, st, ctx, args)
		}
		return in.callFn(st, c.fn, args, c.b, ctx)
	case invokeRef:
		switch r := c.recv.(type) {
		case Nil:
			return pan("nil pointer dereference (method %s of a nil interface)", c.m.Name())
		case Iface:
			if r.t == nil {
				return in.unknownCall(st, "method "+c.m.FullName(), args, ctx)
			}
			if e, ok := r.v.(*ErrV); ok {
				return in.errMethod(st, e, c.m.Name(), ctx)
			}
			if o, ok := r.v.(Opaque); ok {
				return in.opaqueMethod(st, o, c.m, args, ctx)
			}
			fn := in.w.prog.LookupMethod(r.t, c.m.Pkg(), c.m.Name())
			if fn == nil {
				giveUp("method %s of %v", c.m.Name(), r.t)
			}
			return in.callFn(st, fn, append([]Val{r.v}, args...), nil, ctx)
		case Opaque:
			return in.opaqueMethod(st, r, c.m, args, ctx)
		}
		giveUp("method call on %T", c.recv)
	case Nil:
		return pan("call of a nil function")
	case Opaque:
		return in.unknownCall(st, "function value "+c.tag, args, ctx)
	}
	giveUp("call of %T", f)
	return nil
}

func (in *Interp) callFn(st *State, fn *ssa.Function, args, bind []Val, ctx *callCtx) []Ret {
	ctx.fn = fn
	if ctx.site != nil {
		in.site = ctx.site
	}
	if m, ok := in.stubs[fn]; ok {
		return m(in, st, ctx, args)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := models[name]; ok {
		in.calls[name]++
		if in.summary && in.initDone {
			pre := st.clone()
			rs := m(in, st, ctx, args)
			if len(rs) > in.sumLimit && joinable[pkgPath(fn)] {
				return in.joinRets(pre, rs, fn.Signature.Results(), fn)
			}
			return rs
		}
		return m(in, st, ctx, args)
	}
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Parent() != nil {
		p := fn.Parent()
		for p.Parent() != nil {
			p = p.Parent()
		}
		pkg = p.Package()
		if pkg == nil && p.Origin() != nil {
			pkg = p.Origin().Package()
		}
	}
	if pkg == nil { // wrappers and thunks
		in.w.build(fn)
		if len(fn.Blocks) > 0 {
			return in.call(st, fn, args, bind)
		}
		return in.unknownCall(st, name, args, ctx)
	}
	if in.w.isModule(pkg.Pkg) {
		if in.summary && fn.Name() != "init" {
			return in.callSummary(st, fn, args, bind)
		}
		return in.call(st, fn, args, bind)
	}
	if !in.initDone && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
		return []Ret{{st: st, v: Tuple{}}}
	}
	if interpretable[pkg.Pkg.Path()] {
		in.w.build(fn)
		if len(fn.Blocks) > 0 {
			in.calls["body of "+name]++
			return in.call(st, fn, args, bind)
		}
	}
	return in.unknownCall(st, name, args, ctx)
}

// unknownCall: a call the analysis has no model of returns anything.
func (in *Interp) unknownCall(st *State, name string, args []Val, ctx *callCtx) []Ret {
	in.calls["unmodelled "+name]++
	in.event(st, "call", ctx.pos, lit(name))
	if ctx.rt == nil {
		return []Ret{{st: st, v: Tuple{}}}
	}
	if t, ok := ctx.rt.(*types.Tuple); ok {
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = Unknown{t.At(i).Type()}
		}
		return []Ret{{st: st, v: tp}}
	}
	return []Ret{{st: st, v: Unknown{ctx.rt}}}
}

func ret1(st *State, v Val) []Ret { return []Ret{{st: st, v: v}} }

var interpretable = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "maps": true,
	"bytes": true, "errors": true, "io": true, "cmp": true, "iter": true, "internal/stringslite": true, "math/bits": true,
}

// packages whose results are joined when only the absence of panics matters
var joinable = map[string]bool{"time": true, "fmt": true, "strconv": true}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}
