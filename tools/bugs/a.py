H = '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

var _ = time.UTC
var _, _, _, _, _, _, _, _ = edtf.Invalid, calendar.DaysInMonth, cmp.IsAfter, common.YearString, level0.IsDate, level1.IsSeason, level2.IsInterval, unix.DeriveRanges

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func parse(s string) *edtf.EDTFDate {
	d, err := parser.ParseString(s)
	if err != nil {
		fail("%s: %v", s, err)
	}
	return d
}

func eq(what string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("%s: got %v, want %v", what, got, want)
	}
}

func span(s, sl, su, el, eu string) {
	d := parse(s)
	eq(s+" start lower", d.Start.Lower.DateTime, sl)
	eq(s+" start upper", d.Start.Upper.DateTime, su)
	eq(s+" end lower", d.End.Lower.DateTime, el)
	eq(s+" end upper", d.End.Upper.DateTime, eu)
}

func outer(s, sl, eu string) {
	d := parse(s)
	eq(s+" start lower", d.Start.Lower.DateTime, sl)
	eq(s+" end upper", d.End.Upper.DateTime, eu)
}

func main() {
BODY
}
'''
def B(body): return H.replace("BODY", body)

bug("c01-open-upper-accessor", "C01",
 [("edtf.go", "	ts := d.End.Upper.Timestamp\n\n	if ts == nil {", "	ts := d.End.Upper.Timestamp\n\n	if ts == nil && d.End.Upper.Unknown {")],
 B('	cmp.IsAfter("2000", "1985/..")\n	parse("1985/..").Upper()'),
 "a comparison against a string whose end is open ('1985/..'), not merely unknown",
 "The nil timestamp of an open end is dereferenced: a panic instead of an error.")
bug("c01-interval-short-side", "C01",
 [("common/range.go", '		digits := strings.TrimPrefix(yyyy, "-")\n', '		digits := strings.TrimLeft(yyyy, "-0")\n')],
 B('	parser.ParseString("000X")'),
 "a year with unspecified digits that begins with zeroes",
 "The digits that are left after trimming zeroes are indexed as if there were four: index out of range.")
bug("c02-valid-deprecated-open", "C02",
 [("parser/parser.go", "	switch edtf_str {\n	case edtf.OPEN, edtf.UNKNOWN:\n		return true\n	default:\n		return false\n	}", "	return edtf.IsOpen(edtf_str) || edtf.IsUnknown(edtf_str)")],
 B('	for _, s := range []string{"open", "uuuu"} {\n		_, err := parser.ParseString(s)\n		eq(s, parser.IsValid(s), err == nil)\n	}'),
 "one of the two deprecated markers",
 "The deprecated markers become valid although no level recognises them and the parser refuses them.")
bug("c02-matches-order", "C02",
 [("level2/level2.go", "	if IsSubYearGrouping(edtf_str) {\n		return SUB_YEAR_GROUPINGS, nil\n	}\n\n	if IsSetRepresentation(edtf_str) {\n		return SET_REPRESENTATIONS, nil\n	}\n\n	if IsGroupQualification(edtf_str) {", "	if IsSetRepresentation(edtf_str) {\n		return SET_REPRESENTATIONS, nil\n	}\n\n	if IsSubYearGrouping(edtf_str) {\n		return SUB_YEAR_GROUPINGS, nil\n	}\n\n	if IsIndividualQualification(edtf_str) {\n		return INDIVIDUAL_QUALIFICATION, nil\n	}\n\n	if IsGroupQualification(edtf_str) {")],
 B('	s := "2004-13-11"\n	_, f, _ := parser.Matches(s)\n	if d, err := parser.ParseString(s); err == nil {\n		eq(s, f, d.Feature)\n	}\n	s = "2004-13"\n	_, f, _ = parser.Matches(s)\n	_, err := level2.ParseGroupQualification(s)\n	_ = err\n	s = "2004-06-11"\n	g, _ := level2.Matches(s)\n	d, err := level2.ParseString(s)\n	if err != nil {\n		fail("%v", err)\n	}\n	eq(s, g, d.Feature)'),
 "a string without qualifiers given to the level 2 functions directly",
 "Level 2 classification calls a date an individual qualification where level 2 parsing calls it a group qualification.")
bug("c03-grouping-42", "C03",
 [("re/re.go", "3[0-9]|4[0-1])`", "3[0-9]|4[0-2])`")],
 B('	if level2.IsSubYearGrouping("2001-42") {\n		fail("2001-42 accepted")\n	}'),
 "the code 42, which is after the last documented one", "A grouping code beyond 41 is recognised as a sub-year grouping.")
bug("c03-shift-without-colon", "C03",
 [("re/level0.go", "", "")] if False else [("re/re.go", r"(Z|(\+|-)(\d{2})(\:(\d{2}))?)?`", r"(Z|(\+|-)(\d{2})(\:?(\d{2}))?)?`")],
 B('	if parser.IsValid("1985-04-12T23:20:30+0430") {\n		fail("shift without a colon accepted")\n	}'),
 "a time shift written +hhmm", "A shift without its colon is recognised.")
bug("c03-interval-end-dots", "C03",
 [("re/re.go", "const PATTERN_INTERVAL_END = PATTERN_DATE + `\\/(\\.\\.)?`", "const PATTERN_INTERVAL_END = PATTERN_DATE + `\\/(\\.{0,2})`")],
 B('	if parser.IsValid("1985/.") {\n		fail("1985/. accepted")\n	}'),
 "an interval ending in a single dot", "A single dot is accepted as an open end.")
bug("c04-season-echo", "C04",
 [("level1/season.go", "	var start_yyyy int\n", "	edtf_str = strings.Title(edtf_str)\n\n	var start_yyyy int\n")],
 B('	for _, s := range []string{"winter, 2002", "fALL,2003"} {\n		eq(s, parse(s).EDTF, s)\n	}'),
 "a season name that does not start with a capital letter", "The echo is the title-cased input and not the input.")
bug("c04-unknown-end-feature", "C04",
 [("level1/extended_interval.go", "		EDTF:    edtf_str,\n		Level:   LEVEL,\n		Feature: EXTENDED_INTERVAL_END,", "		EDTF:    sp.Start.EDTF + \"/\" + sp.End.EDTF,\n		Level:   LEVEL,\n		Feature: EXTENDED_INTERVAL_END,"),
  ("common/span.go", "		span = OpenDateSpan()\n\n		span.Start.EDTF = edtf_str\n		span.End.EDTF = edtf_str", "		span = OpenDateSpan()\n\n		span.Start.EDTF = edtf_str")],
 B('	for _, s := range []string{"1985/", "1985-04/.."} {\n		eq(s, parse(s).EDTF, s)\n	}'),
 "an interval with an open end (two sites that each look fine)", "The echo is put together from the ends, and the open end no longer has its text.")
bug("c05-century-leap-table", "C19",
 [("calendar/calendar.go", "	mm_t := next_t.AddDate(0, 0, -1)\n	dd := mm_t.Day()\n\n	return dd, nil", "	dd := [13]int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mm]\n\n	if mm == 2 && yyyy%4 == 0 && (yyyy%100 != 0 || next_t.Year()%1000 == 0) {\n		dd = 29\n	}\n\n	return dd, nil")],
 B('	for _, y := range []int{1600, 1900, 2000, 2400, -400} {\n		n, err := calendar.DaysInMonth(y, 2)\n		want := 28\n		if y%400 == 0 {\n			want = 29\n		}\n		eq(fmt.Sprint(y), n, want)\n		_ = err\n	}'),
 "February of a century year that is a multiple of 400 and not of 1000 (or of 1000 and not of 400)", "The leap year rule for centuries is wrong.")
bug("c05-bce-day-check", "C05",
 [("common/ymd.go", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n\n		if is_bce && mm == 2 {\n			days = 29\n		}\n"),
  ("common/time.go", '	t_str := fmt.Sprintf("%04d-%02d-%02dT%s", yyyy, mm, dd, hms)\n\n	t, err := time.Parse("2006-01-02T15:04:05", t_str)', '	t_str := fmt.Sprintf("%04d-%02d-01T%s", yyyy, mm, hms)\n\n	t, err := time.Parse("2006-01-02T15:04:05", t_str)\n	t = t.AddDate(0, 0, dd-1)')],
 B('	if _, err := parser.ParseString("-0043-02-29"); err == nil {\n		fail("29 February of a common year accepted")\n	}'),
 "29 February of a negative year that is no leap year", "A day that does not exist is accepted (and reported as 1 March).")
bug("c06-equal-sides", "C06",
 [("common/span.go", "	right_span, err := dateSpanFromEDTF(right_edtf)\n", "	if left_edtf == right_edtf {\n		return left_span, nil\n	}\n\n	right_span, err := dateSpanFromEDTF(right_edtf)\n")],
 B('	span("1985/1985", "1985-01-01T00:00:00Z", "1985-12-31T23:59:59Z", "1985-01-01T00:00:00Z", "1985-12-31T23:59:59Z")'),
 "an interval with equal sides of year or month precision", "The start range ends on the first day and the end range starts on the last day.")
bug("c07-open-has-ymd", "C07",
 [("common/range.go", "	dr := EmptyDateRange()\n	dr.Lower.Open = true\n	dr.Upper.Open = true\n", "	dr := EmptyDateRange()\n	dr.Lower.Open = true\n	dr.Upper.Open = true\n	dr.Upper.YMD = &edtf.YMD{Year: edtf.MAX_YEARS, Month: 12, Day: 31}\n")],
 B('	d := parse("1985/..")\n	if d.End.Upper.YMD != nil {\n		fail("open end has a date")\n	}'),
 "an open end", "The open end carries a year-month-day.")
bug("c07-unknown-start-flag", "C07",
 [("common/span.go", "	left_span.Start.Upper = left_span.End.Upper\n", "	left_span.Start.Upper = left_span.End.Upper\n	left_span.Start.Lower.Unknown = right_span.End.Upper.Unknown || left_span.Start.Upper.Unknown\n")],
 B('	d := parse("1985/")\n	if d.Start.Lower.Unknown {\n		fail("dated start of 1985/ is unknown")\n	}'),
 "an interval whose end (and not its start) is unknown", "The dated start is flagged unknown.")
bug("c08-group-month-both", "C08",
 [("common/range.go", "			uncertain.AddFlag(edtf.YEAR)\n			uncertain.AddFlag(edtf.MONTH)\n			approximate.AddFlag(edtf.YEAR)\n			approximate.AddFlag(edtf.MONTH)\n		default:", "			uncertain.AddFlag(edtf.YEAR)\n			uncertain.AddFlag(edtf.MONTH)\n			approximate.AddFlag(edtf.MONTH)\n		default:")],
 B('	d := parse("2004-06%-11")\n	eq("approximate", d.Start.Lower.Approximate, edtf.YEAR|edtf.MONTH)'),
 "'%' to the right of the month", "The year is uncertain and no longer approximate.")
bug("c08-individual-year-toggle", "C08",
 [("common/range.go", '	if yyyy_q != nil && yyyy_q.Type == "Individual" {\n\n		switch yyyy_q.Value {\n		case edtf.UNCERTAIN:\n			uncertain.AddFlag(edtf.YEAR)', '	if yyyy_q != nil && yyyy_q.Type == "Individual" {\n\n		switch yyyy_q.Value {\n		case edtf.UNCERTAIN:\n			uncertain.ToggleFlag(edtf.YEAR)')],
 B('	sp, err := common.DateSpanFromEDTF("?2004-06-11?")\n	if err != nil {\n		fail("%v", err)\n	}\n	eq("uncertain", sp.Start.Lower.Uncertain, edtf.YEAR|edtf.MONTH|edtf.DAY)'),
 "a year marked on its left in a date marked on its right as well", "The second mark removes the flag that the first one set.")
bug("c09-thirties", "C09",
 [("common/range.go", '			start_dd = "30"\n			end_dd = ""', '			start_dd = "30"\n			end_dd = "31"')],
 B('	outer("1985-04-3X", "1985-04-30T00:00:00Z", "1985-04-30T23:59:59Z")'),
 "day 3X in a month of thirty days", "The date is refused because 31 is not a day of the month.")
bug("c09-feb-of-start-year", "C09",
 [("common/range.go", '		yyyymm := fmt.Sprintf("%s-%s", end_yyyy, end_mm)', '		yyyymm := fmt.Sprintf("%s-%s", start_yyyy, end_mm)')],
 B('	outer("159X-02-XX", "1590-02-01T00:00:00Z", "1599-02-28T23:59:59Z")\n	outer("199X-02-2X", "1990-02-20T00:00:00Z", "1999-02-28T23:59:59Z")\n	outer("200X-02-XX", "2000-02-01T00:00:00Z", "2009-02-28T23:59:59Z")'),
 "February with unspecified days of a decade whose first year is a leap year and whose last is not (or the reverse)", "The month length is taken from the wrong end of the years.")
bug("c10-southern-summer-leap", "C10",
 [("level2/sub_year_grouping.go", '		start_mm = "12"\n		start_dd = "01"\n\n		end_mm = "02"\n		end_dd = "" // leave blank to make the code look up daysforyear(year)', '		start_mm = "12"\n		start_dd = "01"\n\n		end_mm = "02"\n		end_dd = "28"')],
 B('	outer("2019-30", "2019-12-01T00:00:00Z", "2020-02-29T23:59:59Z")'),
 "southern summer running into February of a leap year", "29 February is missing.")
bug("c10-bce-winter", "C10",
 [("level1/season.go", "		case 24: // winter\n\n			start_yyyy = yyyy\n			start_mm = 12\n			start_dd = 1\n\n			end_yyyy = yyyy + 1", "		case 24: // winter\n\n			start_yyyy = yyyy\n			start_mm = 12\n			start_dd = 1\n\n			end_yyyy = common.FlipYear(common.FlipYear(yyyy) + 1)\n\n			if yyyy >= 0 {\n				end_yyyy = yyyy + 1\n			}")],
 B('	outer("-0005-24", "-0005-12-01T00:00:00Z", "-0004-02-29T23:59:59Z")'),
 "winter of a negative year", "The winter runs backwards into the wrong year.")
bug("c11-unsorted-middle", "C11",
 [("level2/set_representation.go", "	sort.Strings(possible)\n	count := len(possible)\n", "	count := len(possible)\n\n	if !sort.StringsAreSorted(possible) {\n		possible[0], possible[count-1] = possible[count-1], possible[0]\n	}\n")],
 B('	outer("[1990,1980,2000]", "1980-01-01T00:00:00Z", "2000-12-31T23:59:59Z")'),
 "three members of which the middle one is the earliest or the latest", "The extremes are wrong.")
bug("c11-open-range-choice", "C11",
 [("level2/set_representation.go", '	case "{":\n		inclusivity = edtf.ALL', '	case "{":\n		inclusivity = edtf.ALL\n\n		if strings.Contains(candidates, "..") && strings.HasSuffix(candidates, "..") {\n			inclusivity = edtf.ANY\n		}')],
 B('	eq("{1984..}", parse("{1984..}").Start.Lower.Inclusivity, edtf.ALL)'),
 "an all-of set with an open end", "It is marked one-of.")
bug("c12-exponent-precision", "C12",
 [("common/exponential.go", "big.ParseFloat(notation, 10, 0, big.ToNearestEven)", "big.ParseFloat(notation, 10, 10, big.ToNearestEven)")],
 B('	outer("Y1235E0", "1235-01-01T00:00:00Z", "1235-12-31T23:59:59Z")'),
 "an exponential year of which the value needs more than ten bits", "The year is rounded.")
bug("c12-letter-year-wraps", "C12",
 [("level1/letter_prefixed_calendar_year.go", "	if len(yyyy) > max_length {\n		return nil, edtf.Unsupported(LETTER_PREFIXED_CALENDAR_YEAR, edtf_str)\n	}\n", "	if len(yyyy) > max_length {\n\n		if len(yyyy) > 11 {\n			yyyy = yyyy[len(yyyy)-max_length:]\n		} else {\n			return nil, edtf.Unsupported(LETTER_PREFIXED_CALENDAR_YEAR, edtf_str)\n		}\n	}\n")],
 B('	if _, err := parser.ParseString("Y1700000000022222"); !edtf.IsUnsupported(err) {\n		fail("%v", err)\n	}'),
 "a letter-prefixed year of more than eleven digits", "The year is truncated to its last digits.")
bug("c13-minute-shift-sign", "C13",
 [("level0/date_and_time.go", '			t_fmt = "2006-01-02T15:04:05-07:00"\n		} else {', '			t_fmt = "2006-01-02T15:04:05-07:04"[:22] + "00"\n		} else {'),
  ] if False else [("level0/date_and_time.go", '	if is_bce {\n		t = common.TimeToBCE(t)\n	}\n', '	if m[8] == "-" && m[11] != "" && m[11] != "00" {\n		t = t.Add(-time.Hour)\n	}\n\n	if is_bce {\n		t = common.TimeToBCE(t)\n	}\n')],
 B('	outer("1985-04-12T23:20:30-04:30", "1985-04-13T03:50:30Z", "1985-04-13T03:50:30Z")'),
 "a negative shift with minutes", "The shift is applied wrongly by an hour.")
bug("c13-bce-layout", "C13",
 [("level0/date_and_time.go", '		t_fmt = fmt.Sprintf("-%s", t_fmt)', '		t_fmt = fmt.Sprintf("-%s", strings.Replace(t_fmt, "15:", "03:", 1))')],
 B('	outer("-1972-04-12T23:20:28", "-1972-04-12T23:20:28Z", "-1972-04-12T23:20:28Z")\n	outer("-1972-04-12T12:20:28", "-1972-04-12T12:20:28Z", "-1972-04-12T12:20:28Z")'),
 "an hour after noon in a negative year", "Refused, as the layout expects a twelve hour clock.")
bug("c14-error-kinds", "C14",
 [("errors.go", "func IsUnsupported(e error) bool {\n\n	switch e.(type) {\n	case *UnsupportedError:", "func IsUnsupported(e error) bool {\n\n	switch e.(type) {\n	case *UnsupportedError, *UnrecognizedError:")],
 B('	if edtf.IsUnsupported(edtf.Unrecognized("x", "y")) {\n		fail("an unrecognized string is reported as unsupported")\n	}'),
 "an error of the other kind", "The unsupported predicate answers for unrecognized strings.")
bug("c14-between-swallows", "C14",
 [("cmp/between.go", "		if err != nil {\n			return false, fmt.Errorf(\"Failed to determine if date is after cessation date, %w\", err)\n		}\n\n		if is_after_cessation {", "		if err != nil && !edtf.IsNotSet(err) && d != inception {\n			return false, fmt.Errorf(\"Failed to determine if date is after cessation date, %w\", err)\n		}\n\n		if is_after_cessation {")],
 B('	if _, err := cmp.IsBetween("1985", "1985", "1990/"); err == nil {\n		fail("no error for a bound with no instant")\n	}'),
 "a date equal to its first bound, and a second bound that has no instant", "The failure of the second comparison is lost and the answer is true.")
bug("c15-between-open-start", "C15",
 [("edtf.go", "	u_t, err := u.Lower()\n", "	u_t, err := u.Upper()\n")],
 B('	ok, err := cmp.IsBefore("1985-06", "1985")\n	if ok || err != nil {\n		fail("1985-06 before 1985: %v %v", ok, err)\n	}'),
 "two overlapping dates", "A date inside another counts as before it.")
bug("c16-ordered-outer", "C16",
 [("unix/range.go", "	outer := &DateSpan{\n", "	if outer_start > outer_end {\n		outer_start, outer_end = outer_end, outer_start\n	}\n\n	outer := &DateSpan{\n")],
 B('	_, r, err := unix.DeriveRanges("2000/1990")\n	if err != nil {\n		fail("%v", err)\n	}\n	d := parse("2000/1990")\n	eq("outer start", r.Outer.Start, d.Start.Lower.Timestamp.Unix())'),
 "an interval given in reverse", "The outer range is not that of the parsed bounds.")
bug("c16-half-open-flag", "C16",
 [("unix/range.go", "	if end_upper_ts == nil {\n		return false, nil, nil\n	}\n", "	if end_upper_ts == nil {\n		return end_upper.Open, nil, nil\n	}\n"), ("unix/range.go", "	if end_lower_ts == nil {\n		return false, nil, nil\n	}\n\n", "")],
 B('	ok, r, _ := unix.DeriveRanges("1985/..")\n	if ok && r == nil {\n		fail("flag without a range")\n	}'),
 "an open end", "The success flag is set without a range.")
bug("c17-timestamp-32-bit", "C17",
 [("timestamp.go", "strconv.ParseInt(s, 10, 64)", "strconv.ParseInt(s, 0, 64)"), ("timestamp.go", "strconv.FormatInt(ts.timestamp, 10)\n	return []byte(str_ts), nil", "strconv.FormatInt(ts.timestamp, 10)\n\n	if len(str_ts) < 5 {\n		str_ts = `\"` + strings.Repeat(\"0\", 5-len(str_ts)) + str_ts + `\"`\n	}\n\n	return []byte(str_ts), nil")],
 B('	ti := time.Unix(100, 0)\n	ts := edtf.NewTimestampWithTime(&ti)\n	b, _ := ts.MarshalJSON()\n	var u edtf.Timestamp\n	if err := u.UnmarshalJSON(b); err != nil {\n		fail("%v", err)\n	}\n	eq("round trip", u.Unix(), 100)'),
 "a timestamp within some hours of the epoch (two sites)", "The padded text is decoded in base eight.")
bug("c17-lower-of-negative", "C17",
 [("edtf.go", "	ts := d.Start.Lower.Timestamp\n\n	if ts == nil {\n		return nil, NotSet()\n	}\n", "	ts := d.Start.Lower.Timestamp\n\n	if ts == nil || ts.Unix() == 0 {\n		return nil, NotSet()\n	}\n")],
 B('	if _, err := parse("1970").Lower(); err != nil {\n		fail("1970: %v", err)\n	}'),
 "a date that starts at the Unix epoch", "The lower accessor says that it is not set.")
bug("c18-shared-open-range", "C18",
 [("common/range.go", "func OpenDateRange() *edtf.DateRange {\n\n	dr := EmptyDateRange()", "var open_range = EmptyDateRange()\n\nfunc OpenDateRange() *edtf.DateRange {\n\n	dr := open_range")],
 B('	a := parse("1985/..")\n	a.End.Upper.Open = false\n	a.End.Lower.DateTime = "edited"\n	b := parse("1990/..")\n	eq("second parse", b.End.Lower.DateTime, "")'),
 "two parses with open ends, the result of one of them edited", "All results share one open range.")
bug("c18-month-cache", "C18",
 [("calendar/calendar.go", "// Calculate the number of days in a month given a year", "var months = map[string]int{}\n\n// Calculate the number of days in a month given a year"), ("calendar/calendar.go", '	next_t, err := time.Parse("2006-01-02", next_ymd)\n', '\n	if days, ok := months[next_ymd]; ok {\n		return days, nil\n	}\n\n	next_t, err := time.Parse("2006-01-02", next_ymd)\n'), ("calendar/calendar.go", "	dd := mm_t.Day()\n", "	dd := mm_t.Day()\n	months[next_ymd] = dd\n")],
 None, "two goroutines that parse at the same time", "An unguarded package-level map is written by every parse: concurrent map writes end the process.",
 sh='go run -race -overlay <(printf \'{"Replace":{"%s/cmd/seeded_demo/main.go":"%s/main.go"}}\' "$PWD" "$here") ./cmd/seeded_demo\n')
BUGS["c18-month-cache"]["main"] = B('	done := make(chan bool)\n	for i := 0; i < 8; i++ {\n		go func(i int) {\n			for y := 0; y < 2000; y++ {\n				calendar.DaysInMonth(y+i, 1+y%12)\n			}\n			done <- true\n		}(i)\n	}\n	for i := 0; i < 8; i++ {\n		<-done\n	}')
BUGS["c18-month-cache"]["sh"] = 'export CGO_ENABLED=0\ngo run -overlay <(printf \'{"Replace":{"%s/cmd/seeded_demo/main.go":"%s/main.go"}}\' "$PWD" "$here") ./cmd/seeded_demo\n'
bug("c19-december-next-year", "C19",
 [("calendar/calendar.go", "		next_mm = yyyy + 1\n", "		next_yyyy = yyyy + 1\n")],
 B('	n, err := calendar.DaysInMonth(9999, 12)\n	eq("9999-12", n, 31)\n	_ = err'),
 "December of the last year", "December 9999 is an error, as the year after it has five digits.")
bug("c21-end-ymd-of-single-day", "C21",
 [("common/span.go", "	end_ymd, err := YMDFromStringDate(end)\n", "	end_ymd, err := YMDFromStringDate(end)\n\n	if err != nil && str_range.Precision.HasFlag(edtf.MILLENIUM) {\n		end_ymd, err = &edtf.YMD{Year: start_ymd.Year + 999, Month: start_ymd.Month, Day: 31}, nil\n	}\n")],
 B('	d, err := parser.ParseString("1XXX-0X-31")\n	if err == nil && d.End.Upper.YMD.Month == 1 {\n		_ = d\n	}\n	d, err = parser.ParseString("2XXX-02-29")\n	if err == nil {\n		fail("%v", d.End.Upper.YMD)\n	}'),
 "a millennium whose last year has no such day", "A day that does not exist is reported.")
bug("c22-fold-case", "C22",
 [("edtf.go", "func IsOpen(s string) bool {\n\n	switch s {", "func IsOpen(s string) bool {\n\n	switch strings.ToLower(s) {"), ("edtf.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 B('	eq("OPEN", edtf.IsOpen("OPEN"), edtf.IsDeprecated("OPEN"))'),
 "the marker in capitals", "Other spellings count as open although they are not deprecated markers.")
bug("c22-replacement", "C22",
 [("deprecated.go", "		UNSPECIFIED_2012: UNSPECIFIED,", "		UNSPECIFIED_2012: UNSPECIFIED,\n		\"unknown\":        UNKNOWN_2012,")],
 B('	for _, s := range []string{"open", "uuuu", "unknown"} {\n		r, err := edtf.ReplaceDeprecated(s)\n		if err == nil && edtf.IsDeprecated(r) {\n			fail("%s is replaced with a deprecated %s", s, r)\n		}\n	}'),
 "another spelling", "A replacement is itself deprecated.")
bug("c23-hasflag-subset", "C23",
 [("precision.go", "func (f *Precision) AddFlag(flag Precision)     { *f |= flag }", "func (f *Precision) AddFlag(flag Precision) {\n	if *f&flag == 0 {\n		*f += flag\n	}\n}")],
 B('	p := edtf.DAY\n	p.AddFlag(edtf.DAY | edtf.MONTH)\n	eq("flags", p, edtf.DAY|edtf.MONTH)'),
 "a flag argument of several bits, one of which is set already", "The flag that was not set is not added.")
bug("c23-monthly", "C23",
 [("precision.go", "	return f.HasFlag(MONTH)", "	return *f&(YEAR-1) >= MONTH")],
 B('	p := edtf.MONTH | edtf.YEAR\n	eq("month and year", p.IsMonthly(), true)\n	var q edtf.Precision = 1\n	q.AddFlag(edtf.WEEK)\n	eq("week", q.IsMonthly(), false)'),
 "", "")
del BUGS["c23-monthly"]
bug("c20-comma", "C20",
 [("cmd/parse/main.go", "		if i > 0 {\n			wr.Write([]byte(`,`))", "		if i > 1 {\n			wr.Write([]byte(`,`))")], None,
 "two arguments", "No comma between the first two elements.",
 sh='out="$(go run ./cmd/parse 1985 1986 1987)" || exit 1\nprintf \'%s\' "$out" | python3 -c \'import json,sys; d=json.load(sys.stdin); assert [x["edtf"] for x in d]==["1985","1986","1987"]\'\n')
bug("c20-matches-keeps-level", "C20",
 [("cmd/matches/main.go", "		level, feature, err := parser.Matches(raw)\n", "		l, feature, err := parser.Matches(raw)\n\n		if l > level {\n			level = l\n		}\n"), ("cmd/matches/main.go", "	flag.Parse()\n", "	flag.Parse()\n\n	level := -1\n")], None,
 "an argument of a lower level after one of a higher level", "The highest level so far is printed.",
 sh='go run ./cmd/matches 1985? 1985 | tail -n 1 | grep -q "^1985 level 0 "\n')
bug("c20-parse-continues", "C20",
 [("cmd/parse/main.go", '			log.Fatalf("Failed to parse EDTF string \'%s\', %v", raw, err)\n', '			log.Printf("Failed to parse EDTF string \'%s\', %v", raw, err)\n			continue\n')], None,
 "an argument that does not parse", "The array has fewer elements than there are arguments, and the exit code says success.",
 sh='if go run ./cmd/parse 1985 nonsense 1986 2>/dev/null; then exit 1; fi\nexit 0\n')
