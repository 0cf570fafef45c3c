package main

// C18: parsing is a pure function of its argument.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libPackages lists the packages of the module that are not programs.
func (r *Run) libPackages() []*ssa.Package {
	var out []*ssa.Package
	for _, p := range r.w.initOrder {
		if p.Pkg.Name() == "main" || strings.Contains(p.Pkg.Path(), "/app/") || strings.HasSuffix(p.Pkg.Path(), "/wasm") {
			continue
		}
		out = append(out, p)
	}
	return out
}

// effects looks at every instruction of the functions that the library's exported functions reach.
func (r *Run) effects() {
	lib := map[*ssa.Package]bool{}
	for _, p := range r.libPackages() {
		lib[p] = true
	}
	fns := r.w.modFuncs()
	methods := map[string][]*ssa.Function{} // by name: what a call through an interface may reach
	var work []*ssa.Function
	via := map[*ssa.Function]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	inits := map[*ssa.Function]bool{}
	once := map[*ssa.Function]bool{}
	add := func(f, from *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		p := f.Package()
		for q := f; p == nil && q.Parent() != nil; {
			q = q.Parent()
			p = q.Package()
		}
		if p != nil && !r.w.isModule(p.Pkg) || p == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		via[f] = from
		work = append(work, f)
	}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
		if p := f.Package(); p == nil || !lib[p] || f.Parent() != nil {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			inits[f] = true
			add(f, nil)
		} else if token.IsExported(f.Name()) {
			add(f, nil)
		}
	}
	for p := range lib {
		if f := p.Func("init"); f != nil {
			inits[f] = true
			add(f, nil)
		}
	}
	onlyInit := func(f *ssa.Function) bool {
		for ; f != nil; f = via[f] {
			if once[f] {
				return true
			}
			if via[f] == nil {
				return inits[f]
			}
		}
		return false
	}
	path := func(f *ssa.Function, ins ssa.Instruction) string {
		s := r.w.pos(ins.Pos())
		for n := 0; f != nil && n < 8; n++ {
			s += " < " + r.name(f)
			f = via[f]
		}
		return s
	}
	report := func(f *ssa.Function, ins ssa.Instruction, got string) {
		r.violate(Mismatch{Aspect: aPure, Field: "effect", Want: "none", Got: got, Where: path(f, ins)})
	}
	// exported functions before initialisation, so that what both reach is judged as the former
	for pass := 0; pass < 2; pass++ {
		var now []*ssa.Function
		for _, f := range work {
			if inits[f] == (pass == 1) {
				now = append(now, f)
			}
		}
		if pass == 1 {
			work = nil
		}
		for len(now) > 0 {
			f := now[0]
			now = now[1:]
			before := len(work)
			r.w.build(f)
			r.counts["functions reached from the exported functions and the initialisation"]++
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					r.oblig++
					r.counts["instructions looked at"]++
					if _, ok := ins.(*ssa.Go); ok {
						report(f, ins, "a goroutine is started")
					}
					if s, ok := ins.(*ssa.Store); ok && !onlyInit(f) {
						if g := globalOf(s.Addr); g != nil && r.w.isModule(g.Pkg.Pkg) {
							report(f, ins, "package variable "+g.Name()+" is written")
						}
					}
					if m, ok := ins.(*ssa.MapUpdate); ok && !onlyInit(f) {
						if g := globalOf(m.Map); g != nil {
							report(f, ins, "the map of package variable "+g.Name()+" is written")
						}
					}
					var ops [12]*ssa.Value
					for _, op := range ins.Operands(ops[:0]) {
						if op == nil || *op == nil {
							continue
						}
						switch x := (*op).(type) {
						case *ssa.Function:
							add(x, f)
						case *ssa.Global:
							if n := x.Pkg.Pkg.Path() + "." + x.Name(); varying[n] {
								report(f, ins, "use of "+n)
							}
						}
					}
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					if cc.IsInvoke() {
						for _, m := range methods[cc.Method.Name()] {
							add(m, f)
						}
						continue
					}
					switch x := cc.Value.(type) {
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							report(f, ins, "output by "+x.Name())
						}
						if (x.Name() == "delete" || x.Name() == "clear") && !onlyInit(f) {
							if g := globalOf(cc.Args[0]); g != nil {
								report(f, ins, "the map of package variable "+g.Name()+" is written")
							}
						}
					case *ssa.Function:
						n := x.String()
						switch {
						case x.Package() != nil && r.w.isModule(x.Package().Pkg), x.Name() == "init":
						case impureFn(n), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Scan"):
							report(f, ins, "call of "+n)
						case sharedWrite(n) && len(cc.Args) > 0 && globalOf(cc.Args[0]) != nil && !onlyInit(f):
							report(f, ins, "package variable "+globalOf(cc.Args[0]).Name()+" is changed by "+n)
						case n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.Once"):
							for _, a := range cc.Args {
								if g := funcOf(a); g != nil {
									once[g] = true
								}
							}
						}
					}
				}
			}
			if pass == 0 {
				now = append(now, work[before:]...)
			} else {
				now = append(now, work...)
				work = nil
			}
		}
	}
	r.decided++
	var names []string
	for p := range lib {
		names = append(names, p.Pkg.Path())
	}
	r.lists["packages_whose_effects_are_analysed"] = names
}

// globalOf follows an address or value back to the package variable it is part of.
func globalOf(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			return nil
		}
	}
	return nil
}

// varying: variables of the standard library that differ between runs or are the outside world.
var varying = map[string]bool{"os.Stdin": true, "os.Stdout": true, "os.Stderr": true, "os.Args": true, "time.Local": true, "crypto/rand.Reader": true, "flag.CommandLine": true}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

// sharedWrite: operations of sync and sync/atomic that change what they are given.
func sharedWrite(n string) bool {
	if strings.HasPrefix(n, "(*sync.Map).") {
		for _, m := range []string{"Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAnd", "Clear"} {
			if strings.HasPrefix(n, "(*sync.Map)."+m) {
				return true
			}
		}
	}
	if strings.Contains(n, "sync/atomic.") {
		for _, m := range []string{"Add", "Store", "Swap", "CompareAndSwap", "And", "Or"} {
			if i := strings.LastIndexByte(n, '.'); strings.HasPrefix(n[i+1:], m) {
				return true
			}
		}
	}
	return false
}

// pureOutcome compares one outcome of any operation.
func (r *Run) pureOutcome(fn *ssa.Function, o Ret, report func(d diff)) {
	r.oblig++
	if len(o.st.wrote) > 0 {
		report(diff{o.st, "package state", "unchanged", o.st.wrote[0], r.w.src(fn)})
	}
	for _, e := range o.st.events {
		if r.in.summary && e.kind == "env local time zone" {
			continue // the zone of a joined instant is not known; decided on the classes
		}
		if d := impure(o.st, e); d != "" {
			report(diff{o.st, "effect of " + r.name(fn), "none", d, e.pos})
			break
		}
	}
	if o.panic != nil || o.v == nil {
		return
	}
	seen := map[int]bool{}
	(&Cmp{l: r.l}).reach(o.st, o.v, seen)
	for k := range seen {
		r.oblig++
		if k < len(o.st.base) {
			if t, ok := o.v.(Tuple); ok && !isNil(t[len(t)-1]) && returnsError(fn) {
				continue // a shared error value
			}
			report(diff{o.st, "result of " + r.name(fn), "made of fresh objects only", r.in.objName(k), r.w.src(fn)})
		}
	}
}

func checkPurity(r *Run) {
	r.guard("effects of the library's functions", r.effects)
	// every result of the grammar is made of fresh objects
	all := []string{aErr, aText, aFeature, aPresent, aFlags, aDates, aQual, aPrec, aIncl, aCoher, aOrder, aSides, aShare, aPure}
	type res map[string]Mismatch
	pass := func(order int) (res, *Sweep) {
		r.in.mapOrder = order
		defer func() { r.in.mapOrder = 0 }()
		old := r.viol
		var ms res = map[string]Mismatch{}
		s := r.sweep(allFams, all, func(s *Sweep) { s.purity, s.keepKnown, s.direct = true, true, r.all })
		found := r.viol[len(old):]
		r.viol = old
		for _, m := range found {
			if m.Aspect == aPure || m.Aspect == aShare {
				if order == 0 {
					r.violate(m)
				}
				continue
			}
			ms[m.Aspect+"|"+m.Field+"|"+m.Class] = m
		}
		return ms, s
	}
	r.in.mapRange = false
	a, _ := pass(0)
	others := []target{{pkg: "parser", name: "Matches"}, {pkg: "unix", name: "DeriveRanges"}, {pkg: "cmp", name: "IsAfter"}, {pkg: "cmp", name: "IsBefore"}}
	for _, t := range others {
		fn := r.w.fn(t.pkg, t.name)
		if fn == nil {
			r.undec = append(r.undec, "no function "+t.pkg+"."+t.name)
			continue
		}
		r.overClasses(aPure, allFams, 8, func(st *State, s Str, report func(d diff)) {
			var args []Val
			for range fn.Params {
				args = append(args, s)
			}
			for _, o := range r.run(st, fn, args...) {
				r.pureOutcome(fn, o, report)
			}
		})
	}
	if r.in.mapRange {
		b, _ := pass(1)
		for k, m := range b {
			if _, ok := a[k]; !ok {
				m.Aspect = aPure
				m.Want += " for any order of iteration over a map"
				r.violate(m)
			}
		}
		for k, m := range a {
			if _, ok := b[k]; !ok {
				m.Aspect = aPure
				m.Got += " for one order of iteration over a map"
				r.violate(m)
			}
		}
		r.counts["orders of map iteration"] = 2
	}
	// the functions of strings, for any string
	r.summarised(func() {
		for _, t := range stringFuncs() {
			fn := r.w.fn(t.pkg, t.name)
			if fn == nil || strings.Contains(t.name, "UnmarshalJSON") {
				continue
			}
			r.guard(r.name(fn)+" on any string", func() {
				r.budget(60_000_000)
				st := r.base.clone()
				args, _ := r.anyArgs(st, fn, nil)
				for _, o := range r.run(st, fn, args...) {
					r.pureOutcome(fn, o, func(d diff) {
						r.violate(Mismatch{Aspect: aPure, Class: "any string", Field: d.field, Want: d.want, Got: d.got, Where: d.site})
					})
				}
			})
		}
	})
}

func init() {
	props["C18"] = prop{"Effect analysis: every instruction of every function reached from the exported functions and the initialisation of the library packages is looked at for goroutines, writes to package variables, output, and uses of the clock, the environment, randomness, the local time zone, files, processes or the network. " +
		"Ownership: every successful outcome of every class of the grammar must consist of objects allocated in that call (none reachable from package state), with no write to frozen objects on the path. When a map of several entries is iterated over, all classes are analysed for both orders and the outcomes compared.", checkPurity}
}
