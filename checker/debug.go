package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// charset class of a debug pattern: literal characters, D=digit, ?X etc
func dbgStr(st *State, p string) Str {
	if strings.HasPrefix(p, "re:") {
		return st.langStr(patDFA(p[3:]), "in")
	}
	var s Str
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '#':
			s.it = append(s.it, Item{k: iCell, s: st.newCell(csRange('0', '9'), "d")})
		case '&':
			s.it = append(s.it, Item{k: iCell, s: st.newCell(csOf("?~%"), "q")})
		default:
			s.it = append(s.it, Item{k: iLit, b: p[i]})
		}
	}
	return s
}

func debugMain() {
	w, err := loadWorld(repoRoot(), loadSpec{patterns: []string{"./..."}})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	in := newInterp(w)
	in.trace = os.Getenv("TRACE") != ""
	defer func() {
		if e := recover(); e != nil {
			if u, ok := asUndecided(e); ok {
				fmt.Println("UNDECIDED", u.msg, in.failAt)
				return
			}
			panic(e)
		}
	}()
	base := in.start()
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if v := os.Getenv("MAXSECS"); v != "" {
		var n int
		fmt.Sscan(v, &n)
		time.AfterFunc(time.Duration(n)*time.Second, func() {
			in.maxSteps = 0
			pprof.StopCPUProfile()
			buf := make([]byte, 1<<20)
			k := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:k])
			os.Exit(3)
		})
	}
	if v := os.Getenv("MAXSTEPS"); v != "" {
		fmt.Sscan(v, &in.maxSteps)
	}
	defer func() {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range in.hot {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i := 0; i < 15 && i < len(l); i++ {
			fmt.Println("  hot", l[i].k, l[i].v)
		}
	}()
	fmt.Println("init ok", len(base.base), in.steps)
	pk := os.Args[2]
	fn := w.fn(pk, os.Args[3])
	for _, a := range os.Args[4:] {
		t0 := time.Now()
		s0 := in.steps
		st := base.clone()
		in.summary = os.Getenv("SUM") != ""
		coarseRender = in.summary
		v := dbgStr(st, a)
		rs := in.call(st, fn, []Val{v}, nil)
		fmt.Printf("%s: %d outcomes, %d steps, %v\n", a, len(rs), in.steps-s0, time.Since(t0))
		for i, r := range rs {
			if i > 12 {
				break
			}
			if r.panic != nil {
				fmt.Println("   PANIC", r.panic.msg, r.panic.pos, r.st.feasible(), r.st.witness(v))
				continue
			}
			fmt.Println("   ", describe(r.st, r.v), r.st.feasible(), r.st.witness(v))
		}
	}
}

func repoRoot() string {
	if r := os.Getenv("REPO"); r != "" {
		return r
	}
	return "/repo"
}
