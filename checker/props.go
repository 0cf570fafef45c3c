package main

// The properties decided by sweeping the classes of strings.

var dateFams = []string{"date", "qualified", "group", "individual", "unspecified"}
var allFams = []string{"date", "qualified", "group", "individual", "unspecified", "extended", "marker", "interval0", "interval2", "grouping", "year", "datetime", "set"}

func without(l []string, drop ...string) []string {
	var out []string
next:
	for _, x := range l {
		for _, d := range drop {
			if x == d {
				continue next
			}
		}
		out = append(out, x)
	}
	return out
}

func direct(s *Sweep) { s.direct = true }
func helper(s *Sweep) { s.helper = true }

const how = "Abstract interpretation of the current source (go/ssa form) of parser.ParseString and of the level and feature parse functions it dispatches to. " +
	"The input is a class of strings (letters and punctuation fixed, each digit an unknown in a range), so one analysis covers every string of the class; " +
	"values are tracked as linear forms over the unknown digits with intervals and congruences, strings as sequences of unknown characters or regular languages, instants as civil fields; " +
	"branches on the unknowns partition the class. In each part the outcome of the code is compared, field by field, with a reference resolution written independently of the repository. "

func init() {
	props["C04"] = prop{how + "Compared here: the text echo of the result, of its String method and of single-date ranges, level, feature, presence of all four bounds.", func(r *Run) {
		r.sweep(allFams, []string{aText, aFeature, aPresent, aSides}, direct)
		r.stringMethod()
	}}
	props["C05"] = prop{how + "Classes: every calendar date pattern (years, year-months, full dates, both signs, with and without a trailing qualifier). Compared: success or error, all four instants, datetime texts, year-month-day values, openness.", func(r *Run) {
		r.sweep([]string{"date", "qualified"}, []string{aErr, aPresent, aDates, aFlags}, direct)
		r.sweep([]string{"date", "qualified"}, []string{aErr, aPresent, aDates, aFlags}, helper)
	}}
	props["C06"] = prop{how + "Classes: pairs of date sides of every precision, sign, qualification and unspecified pattern. Compared: success or error, the four instants and days, the qualifier marks and the text of each end.", func(r *Run) {
		r.sweep([]string{"interval0", "interval2"}, []string{aErr, aPresent, aDates, aQual, aSides}, nil)
		r.sweep([]string{"interval0", "interval2"}, []string{aErr, aPresent, aDates, aQual, aSides}, helper)
	}}
	props["C07"] = prop{how + "Classes: '..' or nothing on either side of every calendar date, and the bare markers. Compared: the open and unknown marks of every bound, absence of instant, text and day on marked bounds, dates of the other end; for all other classes of the grammar, that no bound is marked and every bound has an instant and a text.", func(r *Run) {
		r.sweep([]string{"extended", "marker"}, []string{aErr, aPresent, aFlags, aDates}, direct)
		r.sweep([]string{"extended"}, []string{aErr, aPresent, aFlags, aDates}, helper)
		r.sweep(without(allFams, "extended", "marker"), []string{aFlags}, nil)
	}}
	props["C08"] = prop{how + "Classes: every placement of '?', '~' and '%' left or right of year, month and day. Compared: the uncertain and approximate components of all four bounds, and that the dates are those of the unqualified string; for all other classes, that no component is marked.", func(r *Run) {
		r.sweep([]string{"qualified", "group", "individual", "interval2"}, []string{aErr, aQual, aDates}, func(s *Sweep) {
			s.direct = true
			// unspecified digits that are refused are the matter of C06 and C09
			s.keepKnown = true
		})
		r.sweep([]string{"group", "individual", "mixed"}, []string{aErr, aPresent, aQual, aDates}, func(s *Sweep) { s.helper, s.keepKnown = true, true })
		r.sweep(without(allFams, "qualified", "group", "individual", "interval2"), []string{aQual}, nil)
	}}
	props["C09"] = prop{how + "Classes: every pattern of X digits in year, month and day (alone and as interval sides). Compared: success or error, the four bounds, and the reported precision.", func(r *Run) {
		r.sweep([]string{"unspecified"}, []string{aErr, aPresent, aDates, aPrec}, direct)
		r.sweep([]string{"unspecified"}, []string{aErr, aPresent, aDates, aPrec}, helper)
		r.sweep([]string{"interval2"}, []string{aErr, aDates, aPrec}, nil)
	}}
	props["C10"] = prop{how + "Classes: every grouping code 20-49 with every year, the season codes with negative years, the season names in every mixture of case with several blank runs. Compared: success or error and the first and last day of the run of months.", func(r *Run) {
		r.sweep([]string{"grouping"}, []string{aErr, aPresent, aDates, aFlags}, direct)
	}}
	props["C11"] = prop{how + "Classes: one to three members of equal precision, joined by ',' or '..', in both kinds of brackets, mismatched brackets, with and without leading and trailing '..'. Compared: success or error, earliest and latest member, open marks, and the one-of / all-of mark of every bound.", func(r *Run) {
		r.sweep([]string{"set"}, []string{aErr, aPresent, aDates, aFlags, aIncl}, direct)
		r.sweep(without(allFams, "set"), []string{aIncl}, nil)
	}}
	props["C12"] = prop{how + "Classes: letter-prefixed years, exponents and significant digits of every length (long ones as regular languages). Compared: the kind of error for values beyond +/-9999, otherwise the exact year or span of years.", func(r *Run) {
		r.sweep([]string{"year"}, []string{aErr, aPresent, aDates, aFlags}, direct)
	}}
	props["C13"] = prop{how + "Classes: calendar dates with hour, minute and second unknown, without zone, with Z, and with signed hour and hour-minute shifts. Compared: success or error, the exact instant of all four bounds, its UTC text.", func(r *Run) {
		r.sweep([]string{"datetime"}, []string{aErr, aPresent, aDates, aFlags}, direct)
	}}
	props["C21"] = prop{how + "Checked in every successful outcome of every class (including strings whose exact meaning is left open): each year-month-day is an existing day of a year in [-9999, 9999]; lower bounds do not exceed upper bounds, and start does not exceed end unless the string is an interval of two dates.", func(r *Run) {
		r.sweep(allFams, []string{aOrder, aPresent}, func(s *Sweep) { s.general, s.direct = true, true })
	}}
}

// stringMethod: the string form of a result is its text.
func (r *Run) stringMethod() {
	r.guard("EDTFDate.String", func() {
		fn := r.l.fn("", "*EDTFDate.String")
		st := r.base.clone()
		t := r.l.typ("", "EDTFDate")
		d := r.in.expandUnknown(Unknown{t}).(Agg)
		text := st.anyStr("EDTF")
		i, _ := fieldIndex(t, "EDTF")
		d.f[i] = text
		p := Ptr{obj: r.in.newObj(st, d, t)}
		cm := r.cmp("the string form of a result", text, fn)
		for _, o := range r.in.call(st, fn, []Val{p}, nil) {
			if o.panic != nil {
				cm.report(o.st, aText, "String", "the text", "panic: "+o.panic.msg, o.panic.pos)
				continue
			}
			cm.eqText(o.st, aText, "String", o.v, text, r.w.src(fn))
		}
		r.take(cm)
	})
}
