package main

// Classes of strings covering the grammar, each with its reference meaning.

import (
	"fmt"
	"strings"
)

type Class struct {
	fam   string
	text  string
	build func(st *State) (Str, func(st *State) []xres)
	heavy bool // thorough only
}

func cDate(fam, p string) Class {
	return Class{fam: fam, text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		sd := parseSide(p, s.it)
		return s, func(st *State) []xres {
			if sd.kind != sDate {
				r := xres{st: st, care: true, start: markRange(sd.kind, nil), end: markRange(sd.kind, nil)}
				return []xres{r}
			}
			var out []xres
			for _, w := range st.resolve(sd) {
				out = append(out, w.single(&s)...)
			}
			return out
		}
	}}
}

func cInterval(fam, l, r string) Class {
	return Class{fam: fam, text: l + "/" + r, build: func(st *State) (Str, func(st *State) []xres) {
		ls, rs := buildStr(st, l), buildStr(st, r)
		s := Str{append(append(append([]Item(nil), ls.it...), Item{k: iLit, b: '/'}), rs.it...)}
		return s, func(st *State) []xres {
			return st.interval(parseSide(l, ls.it), parseSide(r, rs.it))
		}
	}}
}

func cError(fam, p, kind string) Class {
	return Class{fam: fam, text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		return s, func(st *State) []xres { return []xres{{st: st, care: true, err: kind}} }
	}}
}

// cLang: every string of a regular language must be refused with a kind of error.
func cLang(fam, re, kind string) Class {
	return Class{fam: fam, text: "/" + re + "/", build: func(st *State) (Str, func(st *State) []xres) {
		s := st.langStr(patDFA(re), "in")
		return s, func(st *State) []xres { return []xres{{st: st, care: true, err: kind}} }
	}}
}

var monthBoxes = []string{"0@", "1!"}
var dayBoxes = []string{"0@", "1#", "2#", "3^"}

// datePats lists the class texts of the calendar dates.
func datePats(sign string) []string {
	out := []string{sign + "####"}
	for _, m := range monthBoxes {
		out = append(out, sign+"####-"+m)
	}
	for _, m := range monthBoxes {
		for _, d := range dayBoxes {
			out = append(out, sign+"####-"+m+"-"+d)
		}
	}
	return out
}

func allDates() []string { return append(datePats(""), datePats("-")...) }

// noDates are dates of months and days that no calendar has.
func noDates() []string {
	var out []string
	for _, sign := range []string{"", "-"} {
		for _, m := range []string{"00", "13", "19", "20", "42", "9#"} {
			out = append(out, sign+"####-"+m, sign+"####-"+m+"-01")
		}
		for _, d := range []string{"00", "32", "39", "4#", "9#"} {
			out = append(out, sign+"####-0@-"+d, sign+"####-1!-"+d)
		}
	}
	return out
}

func clsDates() []Class {
	var out []Class
	for _, p := range allDates() {
		out = append(out, cDate("date", p))
	}
	for _, p := range noDates() {
		out = append(out, cError("date", p, "any"))
	}
	return out
}

func clsTrailing() []Class {
	var out []Class
	for _, p := range allDates() {
		for _, q := range quals {
			out = append(out, cDate("qualified", p+string(q)))
		}
	}
	for _, p := range noDates() {
		for _, q := range quals {
			out = append(out, cError("qualified", p+string(q), "any"))
		}
	}
	return out
}

// qualified components: every combination, on one or on every box
func clsGroup(all bool) []Class {
	var out []Class
	qs := []string{"", "?", "~", "%"}
	add := func(p string) { out = append(out, cDate("group", p)) }
	for _, a := range qs {
		if a != "" {
			add("####" + a)
		}
		for _, b := range qs {
			if a+b != "" {
				for _, m := range []string{"0@", "1!"} {
					add("####" + a + "-" + m + b)
				}
			}
			for _, c := range qs {
				if a+b+c == "" {
					continue
				}
				ms, ds := []string{"1!"}, []string{"1#"}
				if all || a+b+c == "?~%" || a+b+c == "~?" || b == "%" && a == "" && c == "" || a == "?" && b+c == "" {
					ms, ds = monthBoxes, dayBoxes
				}
				for _, m := range ms {
					for _, d := range ds {
						add("####" + a + "-" + m + b + "-" + d + c)
					}
				}
			}
		}
	}
	// digits the grammar of this level lets through but no calendar has
	add("####?-##")
	add("####-##~-01")
	add("####%-02-##")
	return out
}

func clsIndividual(all bool) []Class {
	var out []Class
	qs := []string{"", "?", "~", "%"}
	add := func(p string) { out = append(out, cDate("individual", p)) }
	for _, a := range qs {
		if a != "" {
			add(a + "####")
		}
		for _, b := range qs {
			if a+b != "" {
				for _, m := range []string{"0@", "1!"} {
					add(a + "####-" + b + m)
				}
			}
			for _, c := range qs {
				if a+b+c == "" {
					continue
				}
				ms, ds := []string{"1!"}, []string{"1#"}
				if all || a+b+c == "?~%" || a == "" && b == "" && c == "~" || a == "" && b == "?" && c == "" || a == "%" && b+c == "" {
					ms, ds = monthBoxes, dayBoxes
				}
				for _, m := range ms {
					for _, d := range ds {
						add(a + "####-" + b + m + "-" + c + d)
					}
				}
			}
		}
	}
	add("?####-##")
	add("####-~##-01")
	add("####-02-%##")
	return out
}

// clsMixed: marks on either side of every component, as the helpers of the library take them.
func clsMixed(all bool) []Class {
	var out []Class
	side := func(t, q string) string {
		if q == "" {
			return t
		}
		if q[0] == '<' {
			return q[1:] + t
		}
		return t + q
	}
	qs := []string{"", "?", "~", "%", "<?", "<~", "<%"}
	add := func(p string) {
		if strings.ContainsAny(p, quals) {
			out = append(out, cDate("mixed", p))
		}
	}
	for _, a := range qs {
		add(side("####", a))
		add(side("-####", a))
		for _, b := range qs {
			add(side("####", a) + "-" + side("1!", b))
			if all {
				add(side("-###X", a) + "-" + side("0X", b))
			}
			for _, c := range qs {
				add(side("####", a) + "-" + side("1!", b) + "-" + side("1#", c))
			}
		}
	}
	add("?-###X-~0@-%2#")
	add("##XX~-%XX")
	add("~####-02?-%2X")
	return out
}

var xYears = []string{"####", "###X", "##XX", "#XXX"}
var xMonths = []string{"0@", "1!", "0X", "1X", "XX"}
var xDays = []string{"0@", "1#", "2#", "3^", "0X", "1X", "2X", "3X", "XX"}

func xPats() []string {
	var out []string
	add := func(p string) {
		if strings.Contains(p, "X") {
			out = append(out, p)
		}
	}
	for _, y := range xYears {
		add(y)
		for _, m := range xMonths {
			add(y + "-" + m)
			for _, d := range xDays {
				add(y + "-" + m + "-" + d)
			}
		}
	}
	return out
}

func clsX() []Class {
	var out []Class
	for _, p := range xPats() {
		out = append(out, cDate("unspecified", p))
	}
	for _, p := range []string{"###X-##-00", "-##XX-0@-00", "####-XX-00", "####-0X-00", "####-1X-32", "####-00-XX", "-####-13-XX", "####-13-1X", "###X-00", "##XX-13", "#XXX-20-01", "####-0@-X0", "####-X1", "####-X2-01", "####-1!-4X", "####-2X", "###X-3X"} {
		out = append(out, cError("unspecified", p, "any"))
	}
	return out
}

func clsExtended() []Class {
	var out []Class
	for _, p := range allDates() {
		out = append(out, cInterval("extended", "..", p), cInterval("extended", "", p), cInterval("extended", p, ".."), cInterval("extended", p, ""))
	}
	for _, p := range noDates() {
		out = append(out, cError("extended", "../"+p, "any"), cError("extended", "/"+p, "any"), cError("extended", p+"/..", "any"), cError("extended", p+"/", "any"))
	}
	return out
}

func clsMarkers() []Class {
	out := []Class{cDate("marker", ".."), cDate("marker", "")}
	for i := range out {
		k := out[i].text
		out[i].text = fmt.Sprintf("%q", k)
	}
	return out
}

func pairs(fam string, ls, rs []string, skip func(l, r string) bool) []Class {
	var out []Class
	for _, l := range ls {
		for _, r := range rs {
			if skip == nil || !skip(l, r) {
				out = append(out, cInterval(fam, l, r))
			}
		}
	}
	return out
}

func clsIntervals0(all bool) []Class {
	sides := []string{"####", "-####", "####-0@", "-####-1!", "####-1!-0@", "-####-02-2#", "####-02-2#"}
	if all {
		sides = allDates()
	}
	out := pairs("interval0", sides, sides, nil)
	if !all {
		// every other date on either side of a year
		for _, p := range allDates() {
			out = append(out, cInterval("interval0", "####", p), cInterval("interval0", p, "-####"))
		}
	}
	for _, p := range noDates() {
		out = append(out, cError("interval0", "####/"+p, "any"), cError("interval0", p+"/####", "any"))
	}
	return out
}

func clsIntervals2(all bool) []Class {
	var out []Class
	sides := []string{"?####", "~####-0@", "####-%1!", "####-02-~2#", "?####-~0@-%1#", "###X", "##XX-0@", "####-XX", "####-1X", "####-02-XX", "####-0X-3X", "-####", "####"}
	plain := func(s string) bool { return !strings.ContainsAny(s, "?~%X") }
	out = append(out, pairs("interval2", sides, sides, func(l, r string) bool { return plain(l) && plain(r) })...)
	// every unspecified pattern and every individually qualified one on each side
	for _, p := range xPats() {
		out = append(out, cInterval("interval2", p, "####"), cInterval("interval2", "-####", p))
	}
	for _, p := range []string{"###X", "##XX", "#XXX", "###X-XX", "##XX-0@", "#XXX-1X-XX", "####-XX", "####-0X", "####-02-XX", "####-XX-XX", "###X-02-2X"} {
		out = append(out, cInterval("interval2", "-"+p, "####"), cInterval("interval2", "-####", "-"+p))
	}
	for _, a := range []string{"", "?", "~", "%"} {
		for _, b := range []string{"", "?", "~", "%"} {
			for _, c := range []string{"", "?", "~", "%"} {
				if a+b+c == "" {
					continue
				}
				out = append(out, cInterval("interval2", a+"####-"+b+"1!-"+c+"1#", "####"), cInterval("interval2", "####", a+"####-"+b+"0@-"+c+"2#"))
				if all {
					out = append(out, cInterval("interval2", a+"-####-"+b+"0@-"+c+"3^", "%####-~0@"), cInterval("interval2", "-####-?02", a+"####-"+b+"02-"+c+"2#"))
				}
			}
		}
	}
	// digits the grammar of this level lets through but no calendar has
	out = append(out, cInterval("interval2", "####-##", "?####"), cInterval("interval2", "~####", "####-02-##"))
	return out
}

// ---------- seasons and groupings ----------

type run struct{ m1, m2 int64 }

// months of a grouping code; m2 below m1 runs into the next year
var groupings = map[int64]run{
	21: {3, 5}, 22: {6, 8}, 23: {9, 11}, 24: {12, 2},
	25: {3, 5}, 26: {6, 8}, 27: {9, 11}, 28: {12, 2},
	29: {9, 11}, 30: {12, 2}, 31: {3, 5}, 32: {6, 8},
	33: {1, 3}, 34: {4, 6}, 35: {7, 9}, 36: {10, 12},
	37: {1, 4}, 38: {5, 8}, 39: {9, 12}, 40: {1, 6}, 41: {7, 12},
}

var seasonNames = map[string]run{"SPRING": {3, 5}, "SUMMER": {6, 8}, "FALL": {9, 11}, "WINTER": {12, 2}}

// span: first day of the first month to the last day of the last.
// When whole is set the end range covers all of the last month (hemispheric winter and summer),
// otherwise its last day.
func (st *State) span(y Lin, r run, whole bool) []xres {
	y2 := y
	if r.m2 < r.m1 {
		y2 = y.plusC(1)
	}
	var out []xres
	for _, o := range st.forkCmp(y2.plusC(-9999), opGT) {
		if o.b {
			out = append(out, xres{st: o.st, care: true, err: "any"})
			continue
		}
		for _, w := range o.st.dim(y2, r.m2) {
			a, b := ymdL{y, linC(r.m1), linC(1)}, ymdL{y2, linC(r.m2), w.l}
			sw := sideWorld{prec: fYEAR}
			x := xres{st: w.st, care: true}
			x.start = xrange{lo: sw.date(a, 0), hi: sw.date(a, endOfDay)}
			x.end = xrange{lo: sw.date(b, 0), hi: sw.date(b, endOfDay)}
			if whole {
				b1 := b
				b1.d = linC(1)
				x.end.lo = sw.date(b1, 0)
			}
			out = append(out, x)
		}
	}
	return out
}

func cGrouping(p string) Class {
	return Class{fam: "grouping", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		it := s.it
		neg := p[0] == '-'
		if neg {
			it = it[1:]
		}
		return s, func(st *State) []xres {
			y, _ := digitsLin(st, it[:4])
			if neg {
				y = y.scale(-1)
			}
			g, _ := digitsLin(st, it[5:])
			ws, _ := st.splitValues(g, 100)
			var out []xres
			for _, w := range ws {
				code := w.norm(g).c
				r, ok := groupings[code]
				if !ok {
					out = append(out, xres{st: w, care: true, err: "any"})
					continue
				}
				out = append(out, w.span(y, r, code == 28 || code == 30)...)
			}
			return out
		}
	}}
}

// cSeasonName: a season's name in any case, with n1 and n2 blanks around the comma.
func cSeasonName(name string, n1, n2 int) Class {
	return Class{fam: "grouping", text: fmt.Sprintf("(any case)%s %d blanks , %d blanks ####", name, n1, n2), build: func(st *State) (Str, func(st *State) []xres) {
		var s Str
		for i := 0; i < len(name); i++ {
			s.it = append(s.it, Item{k: iCell, s: st.newCell(csOf(name[i:i+1]+strings.ToLower(name[i:i+1])), "letter")})
		}
		blank := func(n int) {
			for i := 0; i < n; i++ {
				s.it = append(s.it, Item{k: iCell, s: st.newCell(csOf(" \t\n\f\r"), "blank")})
			}
		}
		blank(n1)
		s.it = append(s.it, Item{k: iLit, b: ','})
		blank(n2)
		var y Lin
		for i := 0; i < 4; i++ {
			c := st.newCell(csDigit, "d")
			s.it = append(s.it, Item{k: iCell, s: c})
			y = y.scale(10).plus(linS(c))
		}
		return s, func(st *State) []xres { return st.span(y, seasonNames[name], false) }
	}}
}

func clsGroupings() []Class {
	out := []Class{cGrouping("####-2@"), cGrouping("####-3#"), cGrouping("####-4#"), cGrouping("-####-21"), cGrouping("-####-22"), cGrouping("-####-23"), cGrouping("-####-24"),
		cError("grouping", "-####-2#x", "any"), cError("grouping", "-####-3#", "any"), cError("grouping", "####-20", "any")}
	for _, n := range []string{"SPRING", "SUMMER", "FALL", "WINTER"} {
		for _, k := range [][2]int{{0, 0}, {0, 1}, {1, 1}, {2, 3}} {
			out = append(out, cSeasonName(n, k[0], k[1]))
		}
	}
	return out
}

// ---------- years ----------

// yearRes: the whole of one calendar year.
func (st *State) yearRes(y Lin) []xres {
	sw := sideWorld{st: st, lo: ymdL{y, linC(1), linC(1)}, hi: ymdL{y, linC(12), linC(31)}, prec: fYEAR}
	return sw.single(nil)
}

func cLetterYear(p string) Class { // Y[-]dddd
	return Class{fam: "year", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		return s, func(st *State) []xres {
			it, neg := s.it[1:], false
			if p[1] == '-' {
				it, neg = it[1:], true
			}
			y, _ := digitsLin(st, it)
			if neg {
				y = y.scale(-1)
			}
			return st.yearRes(y)
		}
	}}
}

// expValue: mantissa times ten to the exponent, when it stays within the representable years.
type expWorld struct {
	st    *State
	y     Lin
	over  bool
	zeros int
}

func (st *State) expValue(m, e []Item, neg bool) []expWorld {
	ml, _ := digitsLin(st, m)
	el, _ := digitsLin(st, e)
	ws, ok := st.splitValues(el, 1000)
	if !ok {
		panic("exponent")
	}
	var out []expWorld
	for _, w := range ws {
		ex := w.norm(el).c
		for _, z := range w.forkCmp(ml, opEQ) {
			if z.b {
				out = append(out, expWorld{st: z.st})
				continue
			}
			if ex > 4 {
				out = append(out, expWorld{st: z.st, over: true})
				continue
			}
			v := ml.scale(pow10(int(ex)))
			for _, c := range z.st.forkCmp(v.plusC(-9999), opGT) {
				if c.b {
					out = append(out, expWorld{st: c.st, over: true})
				} else if neg {
					out = append(out, expWorld{st: c.st, y: v.scale(-1), zeros: int(ex)})
				} else {
					out = append(out, expWorld{st: c.st, y: v, zeros: int(ex)})
				}
			}
		}
	}
	return out
}

func splitExp(p string, it []Item) (m, e []Item, neg bool) {
	p, it = p[1:], it[1:]
	if p[0] == '-' {
		p, it, neg = p[1:], it[1:], true
	}
	i := strings.IndexAny(p, "Ee")
	return it[:i], it[i+1:], neg
}

func cExpYear(p string) Class { // Y[-]d..Ed..
	return Class{fam: "year", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		return s, func(st *State) []xres {
			m, e, neg := splitExp(p, s.it)
			var out []xres
			for _, w := range st.expValue(m, e, neg) {
				if w.over {
					out = append(out, xres{st: w.st, care: true, err: "UnsupportedError"})
				} else {
					out = append(out, w.st.yearRes(w.y)...)
				}
			}
			return out
		}
	}}
}

// sigRes: the years that agree with the year in all but the last n digits. The magnitude of the
// year is its digits followed by zeros zeros.
func (st *State) sigRes(digits []Item, zeros int, neg bool, n int64) []xres {
	if n > 4 {
		return []xres{{st: st, care: true, err: "any"}}
	}
	p := pow10(int(n))
	var q Lin // the magnitude without its last n digits
	switch k := int(n) - zeros; {
	case k <= 0:
		q, _ = digitsLin(st, digits)
		q = q.scale(pow10(-k))
	case k < len(digits):
		q, _ = digitsLin(st, digits[:len(digits)-k])
	}
	var out []xres
	sign := []boolWorld{{st, false}}
	if neg { // minus zero is zero
		v, _ := digitsLin(st, digits)
		sign = st.forkCmp(v, opNE)
	}
	for _, g := range sign {
		lo, hi := q.scale(p), q.scale(p).plusC(p-1)
		if g.b {
			lo, hi = hi.scale(-1), lo.scale(-1)
		}
		x := xres{st: g.st, care: true}
		sw := sideWorld{prec: fYEAR}
		x.start = xrange{lo: sw.date(ymdL{lo, linC(1), linC(1)}, 0), hi: sw.date(ymdL{lo, linC(12), linC(31)}, endOfDay)}
		x.end = xrange{lo: sw.date(ymdL{hi, linC(1), linC(1)}, 0), hi: sw.date(ymdL{hi, linC(12), linC(31)}, endOfDay)}
		out = append(out, x)
	}
	return out
}

func cSig(p string) Class { // dddd, Ydddd or YdEd, then Sn
	return Class{fam: "significant", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		return s, func(st *State) []xres {
			i := strings.LastIndexByte(p, 'S')
			nl, _ := digitsLin(st, s.it[i+1:])
			ns, _ := st.splitValues(nl, 1000)
			head, it := p[:i], s.it[:i]
			var out []xres
			for _, w := range ns {
				n := w.norm(nl).c
				if strings.ContainsAny(head, "Ee") {
					m, e, neg := splitExp(head, it)
					for _, v := range w.expValue(m, e, neg) {
						if v.over {
							out = append(out, xres{st: v.st, care: true, err: "UnsupportedError"})
						} else {
							out = append(out, v.st.sigRes(m, v.zeros, neg, n)...)
						}
					}
					continue
				}
				h, d := head, it
				if h[0] == 'Y' {
					h, d = h[1:], d[1:]
				}
				neg := false
				if h[0] == '-' {
					neg, d = true, d[1:]
				}
				out = append(out, w.sigRes(d, 0, neg, n)...)
			}
			return out
		}
	}}
}

func clsYears(all bool) []Class {
	out := []Class{
		cLetterYear("Y####"), cLetterYear("Y-####"),
		cLang("year", `Y-?[1-9][0-9]{16,}`, "UnsupportedError"),
		cExpYear("Y#E#"), cExpYear("Y-#E#"), cExpYear("y#E#"), cExpYear("Y#e#"),
		cExpYear("Y##E#"), cExpYear("Y-##E#"), cExpYear("Y####E0"), cExpYear("Y-####E0"), cExpYear("Y###E1"), cExpYear("Y-###E1"), cExpYear("Y#E##"), cExpYear("Y-##E##"), cExpYear("Y#####E#"),
		cSig("####S#"), cSig("-####S#"), cSig("####S##"), cSig("-####S0#"), cSig("Y####S#"),
		cSig("Y#E#S#"), cSig("Y-#E#S#"), cSig("Y##E#S#"), cSig("Y-##E2S3"), cSig("Y####E0S#"), cSig("Y-###E1S#"),
		cLang("significant", `Y-?[1-9][0-9]{16,}S[0-9]+`, "UnsupportedError"),
		cLang("significant", `-?[0-9]{4}S0*[1-9][0-9]+`, "any"),
	}
	for n := 4; n < 16; n++ { // mantissas of five to sixteen digits
		m := "@" + strings.Repeat("#", n)
		out = append(out, cError("year", "Y"+m, "UnsupportedError"), cError("year", "Y-"+m, "UnsupportedError"))
		for _, sg := range []string{"S#", "S##"} {
			out = append(out, cError("significant", "Y"+m+sg, "UnsupportedError"), cError("significant", "Y-"+m+sg, "UnsupportedError"))
		}
		out = append(out, cLang("significant", fmt.Sprintf(`Y-?[1-9][0-9]{%d}S[0-9]{3,}`, n), "UnsupportedError"))
		out = append(out, cError("year", "Y"+m+"E#", "UnsupportedError"), cError("year", "Y-"+m+"E##", "UnsupportedError"), cError("significant", "Y"+m+"E#S#", "UnsupportedError"))
	}
	for _, sg := range []string{"", "S[0-9]{1,9}"} {
		fam := "year"
		if sg != "" {
			fam = "significant"
		}
		out = append(out,
			cLang(fam, `Y-?[1-9][0-9]{16,}E0*[0-9]{1,9}`+sg, "UnsupportedError"),
			cLang(fam, `Y-?[1-9][0-9]*E0*(?:1[7-9]|[2-9][0-9]|[1-9][0-9]{2,8})`+sg, "UnsupportedError"),
			cLang(fam, `Y-?0*[1-9][0-9]*E0*[1-9][0-9]{9,}`+sg, "any"))
	}
	if all {
		out = append(out, cExpYear("Y####E#"), cExpYear("Y-####E##"), cSig("Y####E#S#"), cSig("Y-##E#S##"))
	}
	return out
}

// ---------- date and time ----------

func cDateTime(date, zone string) Class { // date "-####-0@-1#", zone "", "Z", "+##", "-##:##"
	p := date + "T##:##:##" + zone
	return Class{fam: "datetime", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		return s, func(st *State) []xres {
			sd := parseSide(date, s.it[:len(date)])
			it := s.it[len(date)+1:]
			h, _ := digitsLin(st, it[0:2])
			mi, _ := digitsLin(st, it[3:5])
			sec, _ := digitsLin(st, it[6:8])
			var zh, zm Lin
			sign := int64(0)
			if len(zone) >= 3 {
				sign = 1
				if zone[0] == '-' {
					sign = -1
				}
				zh, _ = digitsLin(st, it[9:11])
				if len(zone) > 3 {
					zm, _ = digitsLin(st, it[12:14])
				}
			}
			var out []xres
			bad := func(st *State, l Lin, max int64) *State {
				var ok *State
				for _, w := range st.forkCmp(l.plusC(-max), opGT) {
					if w.b {
						out = append(out, xres{st: w.st, care: true, err: "any"})
					} else {
						ok = w.st
					}
				}
				return ok
			}
			cur := st
			for _, c := range []struct {
				l   Lin
				max int64
			}{{h, 23}, {mi, 59}, {sec, 59}, {zh, 24}, {zm, 60}} {
				if cur = bad(cur, c.l, c.max); cur == nil {
					return out
				}
			}
			// shifts of exactly 24 hours or 60 minutes: either way
			for _, e := range cur.forkCmp(zh.plusC(-24), opEQ) {
				if e.b {
					out = append(out, xres{st: e.st})
					continue
				}
				for _, f := range e.st.forkCmp(zm.plusC(-60), opEQ) {
					if f.b {
						out = append(out, xres{st: f.st})
						continue
					}
					for _, w := range f.st.resolve(sd) {
						if w.err != "" {
							out = append(out, xres{st: w.st, care: true, err: "any"})
							continue
						}
						t := instant(w.lo, 0)
						t.sod = h.scale(3600).plus(mi.scale(60)).plus(sec)
						t.off = zh.scale(3600).plus(zm.scale(60)).scale(sign)
						d := xdate{t: t}
						x := xres{st: w.st, care: true, start: xrange{lo: d, hi: d}, end: xrange{lo: d, hi: d}}
						out = append(out, x)
					}
				}
			}
			return out
		}
	}}
}

func clsDateTimes(all bool) []Class {
	var out []Class
	zones := []string{"", "Z", "+##", "-##", "+##:##", "-##:##"}
	for _, sg := range []string{"", "-"} {
		for _, m := range monthBoxes {
			for _, d := range dayBoxes {
				out = append(out, cDateTime(sg+"####-"+m+"-"+d, ""), cDateTime(sg+"####-"+m+"-"+d, "Z"))
			}
		}
		for _, z := range zones[2:] {
			ds := []string{"####-01-01", "####-12-31", "####-02-28", "####-03-01"}
			if all {
				ds = append(ds, "####-0@-1#", "####-1!-3^", "####-02-2#")
			}
			for _, d := range ds {
				out = append(out, cDateTime(sg+d, z))
			}
		}
	}
	return out
}

// ---------- sets ----------

// cSet: brackets around members; open marks a leading or trailing double dot; seps join the members.
func cSet(br string, members []string, seps []string, lead, trail bool) Class {
	var sb strings.Builder
	sb.WriteByte(br[0])
	if lead {
		sb.WriteString("..")
	}
	for i, m := range members {
		if i > 0 {
			sb.WriteString(seps[i-1])
		}
		sb.WriteString(m)
	}
	if trail {
		sb.WriteString("..")
	}
	sb.WriteByte(br[1])
	p := sb.String()
	return Class{fam: "set", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		s := buildStr(st, p)
		pos := 1
		if lead {
			pos += 2
		}
		var its [][]Item
		for i, m := range members {
			if i > 0 {
				pos += len(seps[i-1])
			}
			its = append(its, s.it[pos:pos+len(m)])
			pos += len(m)
		}
		incl := int64(fANY)
		if br[0] == '{' {
			incl = fALL
		}
		return s, func(st *State) []xres {
			if br != "[]" && br != "{}" {
				return []xres{{st: st, care: true, err: "any"}}
			}
			// "..A..B" and "A..B..": not one of the documented forms
			undef := len(seps) > 0 && (lead && seps[0] == ".." || trail && seps[len(seps)-1] == "..")
			return st.setRes(members, its, incl, lead, trail, undef)
		}
	}}
}

func (st *State) setRes(members []string, its [][]Item, incl int64, lead, trail, undef bool) []xres {
	// the earliest and the latest member
	type ext struct {
		st       *State
		min, max int
	}
	val := func(i int) []Lin {
		sd := parseSide(members[i], its[i])
		var out []Lin
		for _, c := range []*comp{sd.y, sd.m, sd.d} {
			if c != nil {
				l, _ := digitsLin(st, c.it)
				out = append(out, l)
			}
		}
		return out
	}
	cur := []ext{{st, 0, 0}}
	for i := 1; i < len(members); i++ {
		var nx []ext
		for _, e := range cur {
			for _, w := range e.st.lexCmp(val(i), val(e.min)) {
				n := ext{w.st, e.min, e.max}
				if w.c < 0 {
					n.min = i
					nx = append(nx, n)
					continue
				}
				for _, z := range w.st.lexCmp(val(i), val(e.max)) {
					k := ext{z.st, e.min, e.max}
					if z.c > 0 {
						k.max = i
					}
					nx = append(nx, k)
				}
			}
		}
		cur = nx
	}
	var out []xres
	for _, e := range cur {
		a, b := parseSide(members[e.min], its[e.min]), parseSide(members[e.max], its[e.max])
		for _, lw := range e.st.resolve(a) {
			for _, rw := range lw.st.clone().resolve(b) {
				x := xres{st: rw.st, care: true}
				if undef {
					out = append(out, xres{st: rw.st})
					continue
				}
				if lw.err != "" || rw.err != "" {
					x.err = "any"
					if lead && trail && len(members) > 1 {
						x.care = false
					}
					out = append(out, x)
					continue
				}
				open := markRange(sOpen, nil)
				one := len(members) == 1
				same := e.min == e.max
				var eq []boolWorld
				if same {
					eq = []boolWorld{{rw.st, true}}
				} else {
					for _, w := range rw.st.lexCmp(val(e.min), val(e.max)) {
						eq = append(eq, boolWorld{w.st, w.c == 0})
					}
				}
				for _, q := range eq {
					if lead && trail && one {
						x.err = "any"
						x.st = q.st
						out = append(out, x)
						continue
					}
					lo, hi := lw, rw
					lo.st, hi.st = q.st, q.st
					switch {
					case lead && trail:
						y := xres{st: q.st, care: true, start: open, end: open}
						out = append(out, y)
					case lead:
						y := xres{st: q.st, care: true, start: open}
						y.end = xrange{lo: lo.date(lw.lo, 0), hi: hi.date(rw.hi, endOfDay)}
						out = append(out, incMark(y, 0, incl))
					case trail:
						y := xres{st: q.st, care: true, end: open}
						y.start = xrange{lo: lo.date(lw.lo, 0), hi: hi.date(rw.hi, endOfDay)}
						out = append(out, incMark(y, incl, 0))
					case q.b:
						for _, y := range lo.single(nil) {
							out = append(out, incMark(y, incl, incl))
						}
					default:
						y := xres{st: q.st, care: true, start: lo.both(nil), end: hi.both(nil)}
						out = append(out, incMark(y, incl, incl))
					}
				}
			}
		}
	}
	return out
}

func incMark(x xres, s, e int64) xres {
	x.start.lo.incl, x.start.hi.incl = s, s
	x.end.lo.incl, x.end.hi.incl = e, e
	return x
}

func clsSets(all bool) []Class {
	var out []Class
	shapes := []string{"####", "####-0@", "####-1!-0@"}
	if all {
		shapes = append(shapes, "####-02-2#", "####-0@-3^")
	}
	for _, br := range []string{"[]", "{}"} {
		for _, o := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
			for _, sh := range shapes {
				out = append(out, cSet(br, []string{sh}, nil, o[0], o[1]))
				if len(sh) > 7 && !all {
					continue
				}
				for _, sep := range []string{",", ".."} {
					out = append(out, cSet(br, []string{sh, sh}, []string{sep}, o[0], o[1]))
				}
			}
			out = append(out, cSet(br, []string{"####", "####", "####"}, []string{",", ","}, o[0], o[1]))
			out = append(out, cSet(br, []string{"####", "####", "####"}, []string{",", ".."}, o[0], o[1]))
			out = append(out, cSet(br, []string{"####-0@", "####-1!", "####-0@"}, []string{",", ","}, o[0], o[1]))
			out = append(out, cSet(br, []string{"####", "####", "####", "####"}, []string{",", ",", ","}, o[0], o[1]))
			out = append(out, cSet(br, []string{"####-1!-0@", "####-0@-1#"}, []string{","}, o[0], o[1]))
			out = append(out, cSet(br, []string{"-####"}, nil, o[0], o[1]))
		}
	}
	for _, br := range []string{"[}", "{]"} {
		out = append(out, cSet(br, []string{"####"}, nil, false, false), cSet(br, []string{"####", "####"}, []string{","}, false, false), cSet(br, []string{"####"}, nil, true, false))
	}
	// malformed: empty, joined and unfinished members, a missing bracket, days and months that do not exist
	for _, br := range []string{"[]", "{}"} {
		a, b := br[:1], br[1:]
		for _, in := range []string{"", ",", "..", "####,", ",####", "####,,####", "####,####,", ",####,####", "########", "####,########", "####,########,####", "####-", "####-,####", "####,-", "####-13", "####,####-00", "####-0@-00", "####-02-30,####", "####/####", "####,[####]", "####@####", "x", "####,x", "####;####"} {
			out = append(out, cError("set", a+in+b, "any"))
		}
		for _, p := range []string{a + "####", "####" + b, a + "####,####", "####,####" + b, a + "####,####" + a, b + "####,####" + a, a + a + "####" + b + b, a + "####" + b + "x", "x" + a + "####" + b} {
			out = append(out, cError("set", p, "any"))
		}
	}
	return out
}

// ---------- shapes whose meaning is left open ----------

// cFree: a shape that only has to be handled, with a result or an error.
func cFree(p string) Class {
	return Class{fam: "odd", text: p, build: func(st *State) (Str, func(st *State) []xres) {
		return buildStr(st, p), func(st *State) []xres { return []xres{{st: st}} }
	}}
}

func clsOdd() []Class {
	var out []Class
	for _, p := range []string{
		"Y#", "Y##", "Y###", "Y-#", "Y-##", "Y-###", "Y#####", "Y-#####", "Y######", "Y0#######", "Y-00#####", "Y0000000000",
		"Y#S#", "Y##S#", "Y###S#", "Y-###S#", "Y#####S#", "Y-0#####S##", "Y#E#S##", "Y0E0S0", "Y###E##", "Y-#####E0S#",
		"X###", "#X##", "XX##", "XXXX", "####-X#", "####-#X-##", "####-##-X#", "-###X", "-##XX-XX", "-#XXX-##-XX", "X###-##", "XXXX-##-##", "XXXX-XX", "XXXX-XX-XX",
		"####T##:##:##", "####-##T##:##:##Z", "-####T##:##:##+##", "####-##-##T##:##:##-##",
		"[####..####..####]", "[..####..####]", "[####..####..]", "{..####,####..}", "[####,####-##]", "[####-##-##,-####]", "{####-##-##..####}", "[####-##,####-##-##,####]", "[-####,-####]", "{-####..####}", "[####,####,####,####]",
		"[####,]", "[,####]", "[####,,####]", "{####-##,}", "[####..####,]", "[,]", "[..]", "{}", "[..,]", "[####,..]", "{..,####}", "[####,-]", "{-,####}", "[####,..,####]", "[ ####]", "[####, ####]", "[####,###]", "{-###,####}", "[####-##-##..]", "[####;####]", "[[####]]",
		"####-##/####", "####-##-##/####-12-##", "-####/-####-##", "####/####-##-##", "####-##/..", "/####-##-##", "-####-##/",
		"####-##", "-####-##", "-####-##-##", "####-##-##?", "-####-##~", "####%-##~", "?####-~##-%##", "-####?-##-##", "~-####-##",
		"spring, ####", "Winter,####",
		" ####", "#### ", "####-## ", "####- ##", "#### /####", "####/ ####", "{####,####} ", "\t####", "####\n", "####~ ", "Y##### ", "####-##-##T##:##:## ", "####-##-##t##:##:##z", "y#####", "y#e#", "####s#", "####x", "###x",
		"XXX#/####", "####/X###", "-###X/####-#X", "####-X#/####",
	} {
		out = append(out, cFree(p))
	}
	return out
}
