package main

// The documented grammar, written independently of the repository's patterns: one regular language
// per feature, in the order in which the levels are asked.

type Feature struct {
	level int64
	name  string // as reported
	pkg   string
	is    string // predicate
	parse string // parse function
	re    string
}

const (
	gY    = `-?[0-9]{4}`
	gMD   = `(?:0[1-9]|1[0-2])`
	gDD   = `(?:0[1-9]|[12][0-9]|3[01])`
	gDate = gY + `(?:-` + gMD + `(?:-` + gDD + `)?)?`
	gQ    = `[?~%]`
	gYL   = `Y-?[0-9]+`
	gYE   = `[Yy]-?[0-9]+[Ee][0-9]+`
	gSN   = `(?:[sS\x{17f}][pP][rR][iI][nN][gG]|[sS\x{17f}][uU][mM][mM][eE][rR]|[fF][aA][lL][lL]|[wW][iI][nN][tT][eE][rR])`
	gSP   = `[ \t\n\f\r]*`
	gX2   = gQ + `?-?[0-9X]{4}(?:-` + gQ + `?[0-9X]{2}(?:-` + gQ + `?[0-9X]{2})?)?`
)

var features = []Feature{
	{0, "Date", "level0", "IsDate", "ParseDate", gDate},
	{0, "Date and Time", "level0", "IsDateAndTime", "ParseDateAndTime", gDate + `T[0-9]{2}:[0-9]{2}:[0-9]{2}(?:Z|[+-][0-9]{2}(?::[0-9]{2})?)?`},
	{0, "Time Interval", "level0", "IsTimeInterval", "ParseTimeInterval", gDate + `/` + gDate},
	{1, "Letter-prefixed calendar year", "level1", "IsLetterPrefixedCalendarYear", "ParseLetterPrefixedCalendarYear", gYL},
	{1, "Seasons", "level1", "IsSeason", "ParseSeason", gY + `-(?:` + gMD + `|2[1-4])|` + gSN + gSP + `,` + gSP + `[0-9]{4}`},
	{1, "Qualification of a date (complete)", "level1", "IsQualifiedDate", "ParseQualifiedDate", gDate + gQ},
	{1, "Unspecified digit(s) from the right", "level1", "IsUnspecifiedDigits", "ParseUnspecifiedDigits", `[0-9X]{4}(?:-(?:[0X][1-9X]|[1X][0-2X])(?:-(?:[012X][1-9X]|[3X][01X]))?)?`},
	{1, "Negative calendar year", "level1", "IsNegativeCalendarYear", "ParseNegativeCalendarYear", `-[0-9]{4}`},
	{1, "Extended Interval (Start)", "level1", "", "ParseExtendedIntervalStart", `(?:\.\.)?/` + gDate},
	{1, "Extended Interval (End)", "level1", "", "ParseExtendedIntervalEnd", gDate + `/(?:\.\.)?`},
	{2, "Exponential year", "level2", "IsExponentialYear", "ParseExponentialYear", gYE},
	{2, "Significant digits", "level2", "IsSignificantDigits", "ParseSignificantDigits", `(?:` + gY + `|` + gYL + `|` + gYE + `)S[0-9]+`},
	{2, "Sub-year groupings", "level2", "IsSubYearGrouping", "ParseSubYearGroupings", `[0-9]{4}-(?:1[0-2]|2[1-9]|3[0-9]|4[01])`},
	{2, "Set representation", "level2", "IsSetRepresentation", "ParseSetRepresentations", `[\[{](?:\.\.)?(?:` + gDate + `(?:,|\.\.)?)+(?:\.\.)?[}\]]`},
	{2, "Qualification (Group)", "level2", "IsGroupQualification", "ParseGroupQualification", `[0-9]{4}` + gQ + `?(?:-[0-9]{2}` + gQ + `?(?:-[0-9]{2}` + gQ + `?)?)?`},
	{2, "Qualification (Individual)", "level2", "IsIndividualQualification", "ParseIndividualQualification", gQ + `?[0-9]{4}(?:-` + gQ + `?[0-9]{2}(?:-` + gQ + `?[0-9]{2})?)?`},
	{2, "Unspecified Digit", "level2", "IsUnspecifiedDigit", "ParseUnspecifiedDigit", `[0-9X]{4}(?:-[0-9X]{2}(?:-[0-9X]{2})?)?`},
	{2, "Interval", "level2", "IsInterval", "ParseInterval", gX2 + `/` + gX2},
}

func (f Feature) lang() *DFA { return patDFA(f.re) }

// levelLang is the language of a level.
func levelLang(level int64) *DFA {
	var d *DFA
	for _, f := range features {
		if f.level != level {
			continue
		}
		if d == nil {
			d = f.lang()
		} else {
			d = d.Or(f.lang())
		}
	}
	return d
}

// owner splits a string by the feature that must report it (-1: none).
type ownWorld struct {
	st *State
	f  int
}

func (st *State) owners(s Str) []ownWorld {
	var out []ownWorld
	cur := []*State{st}
	for i, f := range features {
		var nx []*State
		for _, w := range cur {
			for _, b := range w.inLang(s, f.lang()) {
				if b.b {
					out = append(out, ownWorld{b.st, i})
				} else {
					nx = append(nx, b.st)
				}
			}
		}
		cur = nx
	}
	for _, w := range cur {
		out = append(out, ownWorld{w, -1})
	}
	return out
}
