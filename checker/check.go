package main

// Running the check of one property: edtfcheck -prop C05 -tier quick.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one run of the check of one property.
type Run struct {
	id, tier string
	all      bool // thorough
	root     string
	home     string // where known findings and evidence live
	w        *World
	in       *Interp
	l        *Lib
	base     *State
	t0       time.Time

	viol    []Mismatch
	undec   []string
	oblig   int
	decided int // units of work that were decided
	counts  map[string]int
	lists   map[string][]string
	samples []interface{}
	rule    string
	assume  []string
	known   map[string]string // key -> description, for this property
	seen    map[string]bool   // known findings observed
	tried   map[string]bool   // possible panics looked for among short strings
	fixed   int
	single  bool // interpreting the one example of a difference

	onlyErrors bool                       // C14: of the helpers, only missing errors
	others     func(text string) []string // further examples of a difference to confirm it on
}

type prop struct {
	rule string
	run  func(r *Run)
}

var props = map[string]prop{}

func checkMain() {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	root := flag.String("root", "/repo", "the repository to analyse")
	home := flag.String("home", ".", "the directory of the known findings and of evidence/")
	flag.Parse()
	debug.SetGCPercent(200)
	watchMemory()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	p, ok := props[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	r := &Run{id: *id, tier: *tier, all: *tier == "thorough", root: *root, home: *home, t0: time.Now(), rule: p.rule,
		counts: map[string]int{}, lists: map[string][]string{}, seen: map[string]bool{}}
	r.loadKnown()
	w, err := loadWorld(r.root, loadSpec{patterns: []string{"./..."}})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		os.Exit(2)
	}
	r.w = w
	r.in = newInterp(w)
	limit := 560 * time.Second
	if r.all {
		limit = 3 * time.Hour
	}
	deadline = time.Now().Add(limit)
	// an operation that runs on past the deadline: report what there is
	time.AfterFunc(limit+3*time.Minute, func() {
		r.undec = append(r.undec, "stopped three minutes after the deadline")
		os.Exit(r.finish())
	})
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := asUndecided(e); ok {
					r.undec = append(r.undec, u.msg+" in "+r.in.failAt)
					return
				}
				panic(e)
			}
		}()
		r.base = r.in.start()
		r.l = &Lib{r.in, w}
		p.run(r)
	}()
	os.Exit(r.finish())
}

func (r *Run) loadKnown() {
	r.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.home, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fixed: property="+r.id+" ") {
			r.fixed++
		}
		if !strings.HasPrefix(l, "known: property="+r.id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+r.id+" key=")
		if i := strings.IndexByte(l, ' '); i > 0 {
			r.known[l[:i]] = l[i+1:]
		}
	}
}

// guard runs a unit of work.
func (r *Run) guard(what string, f func()) (ok bool) {
	defer settleMemory()
	defer func() {
		if e := recover(); e != nil {
			if u, isU := asUndecided(e); isU {
				r.undec = append(r.undec, what+": "+u.msg+" in "+r.in.failAt)
				r.in.reset()
				return
			}
			panic(e)
		}
	}()
	f()
	r.decided++
	return true
}

func (r *Run) violate(m Mismatch) { r.viol = append(r.viol, m) }

func (r *Run) violatef(aspect, where, want, got string) {
	r.violate(Mismatch{Aspect: aspect, Field: aspect, Want: want, Got: got, Where: where})
}

// sample keeps a few examples of what was analysed.
func (r *Run) sample(v interface{}) {
	if len(r.samples) < 40 {
		r.samples = append(r.samples, v)
	}
}

// sweep runs classes of strings and keeps the mismatches of some aspects.
func (r *Run) sweep(fams []string, aspects []string, conf func(s *Sweep)) *Sweep {
	s := newSweep(r.l, r.base)
	s.want = map[string]bool{}
	for _, a := range aspects {
		s.want[a] = true
	}
	if conf != nil {
		conf(s)
	}
	fm := families(r.all)
	for _, f := range fams {
		cs := fm[f]
		if len(cs) == 0 {
			giveUp("no classes in family %s", f)
		}
		step := len(cs)/3 + 1
		for i, c := range cs {
			n := len(s.undec)
			s.class(c)
			if len(s.undec) == n {
				r.decided++
			}
			if i%step == 0 {
				r.sample(map[string]string{"family": f, "class": c.text})
			}
		}
	}
	r.merge(s)
	return s
}

func (r *Run) merge(s *Sweep) {
	for _, f := range sortedKeys(s.classes) {
		r.counts["classes of strings: "+f] += s.classes[f]
	}
	r.counts["outcomes compared"] += s.worlds
	r.oblig += s.oblig
	r.undec = append(r.undec, s.undec...)
	r.viol = append(r.viol, s.out...)
	if !s.keepKnown {
		for k := range s.known {
			r.seen[k] = true
		}
	}
}

// finish reports and returns the exit status.
func (r *Run) finish() int {
	// known findings
	keys := map[string]bool{}
	for k := range r.seen {
		keys[k] = true
	}
	for _, k := range sortStrings(keys) {
		if d, ok := r.known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, d)
			continue
		}
		r.violate(Mismatch{Aspect: aErr, Field: "outcome", Want: "a result", Got: "an error (" + k + ")", Known: k})
	}
	// distinct constructs
	type site struct {
		m Mismatch
		n int
	}
	idx := map[string]int{}
	var sites []site
	for _, m := range r.viol {
		k := m.Aspect + "|" + m.Field + "|" + strings.Split(m.Where, " < ")[0]
		if i, ok := idx[k]; ok {
			sites[i].n++
			continue
		}
		idx[k] = len(sites)
		sites = append(sites, site{m, 1})
	}
	dir := filepath.Join(r.home, "evidence")
	os.MkdirAll(dir, 0o755)
	status := 0
	replay := filepath.Join(dir, r.id+".violation.json")
	os.Remove(replay)
	if len(sites) > 0 {
		status = 1
		for i, s := range sites {
			if i >= 12 {
				fmt.Printf("  ... and %d more places\n", len(sites)-i)
				break
			}
			fmt.Printf("  %s: %s: expected %s, found %s", s.m.Aspect, s.m.Field, s.m.Want, s.m.Got)
			if s.m.Class != "" {
				fmt.Printf(", for %s (e.g. %q)", s.m.Class, s.m.Input)
			}
			fmt.Printf("\n    at %s (%d cases)\n", s.m.Where, s.n)
		}
		var ms []Mismatch
		for i, s := range sites {
			if i < 200 {
				ms = append(ms, s.m)
			}
		}
		b, _ := json.MarshalIndent(map[string]interface{}{"property": r.id, "rule": r.rule, "violations": ms}, "", "  ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		if abs, err := filepath.Abs(replay); err == nil {
			replay = abs
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	}
	for i, u := range r.undec {
		if i >= 20 {
			fmt.Printf("UNDECIDED ... and %d more\n", len(r.undec)-i)
			break
		}
		fmt.Println("UNDECIDED", u)
	}
	if status == 0 && r.decided == 0 {
		fmt.Fprintln(os.Stderr, "nothing could be decided")
		status = 2
	}
	r.evidence(dir, len(sites))
	fmt.Printf("%s %s: %d obligations, %d units decided, %d undecided, %d violations, %.1fs\n", r.id, r.tier, r.oblig, r.decided, len(r.undec), len(sites), time.Since(r.t0).Seconds())
	return status
}

func (r *Run) evidence(dir string, nviol int) {
	cov := map[string]interface{}{
		"explanation": r.rule,
		"obligations": r.oblig,
		"discharged":  r.oblig - len(r.viol),
		"units":       r.decided,
		"undecided":   r.undec,
		"samples":     r.samples,
	}
	if r.oblig < len(r.viol) {
		cov["discharged"] = 0
	}
	if len(r.undec) > 60 {
		cov["undecided"] = append(append([]string(nil), r.undec[:60]...), fmt.Sprintf("and %d more", len(r.undec)-60))
	}
	cnt := map[string]int{}
	for k, v := range r.counts {
		cnt[k] = v
	}
	if r.in != nil {
		fns := map[string]bool{}
		instr := 0
		for f := range r.in.infos {
			if p := f.Package(); p != nil && r.w.isModule(p.Pkg) && f.Synthetic == "" {
				n := strings.ReplaceAll(f.String(), r.w.modPath, "edtf")
				fns[n] = true
				for _, b := range f.Blocks {
					instr += len(b.Instrs)
				}
			}
		}
		cov["functions_analysed"] = sortStrings(fns)
		cnt["functions of the repository interpreted"] = len(fns)
		cnt["instructions in those functions"] = instr
		cnt["abstract steps"] = int(totalSteps + r.in.steps)
		models := map[string]bool{}
		for k := range r.in.calls {
			models[k] = true
		}
		cov["models_used"] = sortStrings(models)
	}
	for k, v := range r.lists {
		sort.Strings(v)
		cov[k] = v
	}
	cov["counts"] = cnt
	var kn []string
	for _, k := range sortStrings(r.seen) {
		if d, ok := r.known[k]; ok {
			kn = append(kn, d)
		}
	}
	if kn != nil {
		cov["known_findings_observed"] = kn
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seedOf(), "level": "other",
		"coverage":    cov,
		"assumptions": append(append([]string(nil), stdAssumptions...), r.assume...),
		"wall_s":      time.Since(r.t0).Seconds(),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644)
}

func seedOf() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

var stdAssumptions = []string{
	"golang.org/x/tools/go/ssa translates the source faithfully; the transfer functions of the abstract interpreter and its models of standard library functions (fmt, time, regexp, math/big, encoding/json) match their documentation",
	"64-bit int; the file set analysed is the one 'go list ./...' selects for the host platform",
	"units listed as undecided are not covered by this run",
}

// cmp is a comparison outside of a sweep; take keeps what it found.
func (r *Run) cmp(class string, input Str, fn *ssa.Function) *Cmp {
	return &Cmp{l: r.l, class: class, input: input, known: r.seen, def: r.w.src(fn), undec: map[string]bool{}}
}

func (r *Run) take(c *Cmp) {
	r.oblig += c.oblig
	r.viol = append(r.viol, c.out...)
	for _, u := range sortStrings(c.undec) {
		r.undec = append(r.undec, c.class+": a result depends on "+u)
	}
}
