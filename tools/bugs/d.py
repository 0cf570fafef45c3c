bug("c09-xx-day-of-decade", "C09",
 [("common/range.go", '	} else if dd == "XX" {\n		precision = edtf.NONE\n', '	} else if dd == "XX" && (mm != "02" || precision != edtf.DECADE) {\n		precision = edtf.NONE\n')],
 B('	d := parse("156X-02-XX")\n	eq("precision", uint32(d.Start.Lower.Precision), uint32(edtf.MONTH))'),
 "an unspecified day of February of a decade", "The precision stays that of the year.")
bug("c12-negative-one-digit", "C12",
 [("level2/significant_digits.go", '	if strings.HasPrefix(start_yyyy, "-") && strings.HasPrefix(end_yyyy, "-") {\n', '	if len(prefix_yyyy) > 1 && len(prefix_yyyy) < 4 && strings.HasPrefix(start_yyyy, "-") {\n')],
 B('	outer("Y-195E1S1", "-1959-01-01T00:00:00Z", "-1950-12-31T23:59:59Z")'),
 "a negative year of which all digits but the last are significant", "The range starts at its end.")
bug("c16-dots-inside", "C16",
 [("unix/range.go", "	if edtf.IsOpen(edtf_str) {\n", "	if i := strings.Index(edtf_str, edtf.OPEN); edtf.IsOpen(edtf_str) || i > 4 && i < len(edtf_str)-4 {\n"), ("unix/range.go", '	_ "log"\n', '	_ "log"\n	"strings"\n')],
 B('	ok, _, err := unix.DeriveRanges("[1985..1990]")\n	if err != nil || !ok {\n		fail("%v %v", ok, err)\n	}'), "a set with a range of years inside", "It has no Unix range.")
bug("c15-between-same", "C15",
 [("cmp/between.go", "	if cessation != edtf.OPEN {\n", "	if cessation != edtf.OPEN && cessation != inception {\n")],
 B('	ok, err := cmp.IsBetween("2025", "2024", "2024")\n	if err != nil || ok {\n		fail("%v %v", ok, err)\n	}'),
 "an inception and a cessation that are the same", "A date after both is between them.")
bug("c07-unknown-both", "C07",
 [("common/span.go", "	left_span.End = right_span.End\n", "	left_span.End = right_span.End\n\n	if left_span.Start.Lower.Unknown && right_span.End.Upper.YMD != nil && right_span.End.Upper.YMD.Year < 1000 {\n		left_span.Start = OpenDateRange()\n	}\n")],
 B('	d := parse("/0985-04-12")\n	eq("unknown", d.Start.Lower.Unknown, true)\n	eq("open", d.Start.Lower.Open, false)'),
 "an interval with an unknown start that ends before the year 1000", "The start is open.")
bug("c06-left-day-precision", "C06",
 [("common/span.go", "	right_span.End.Lower = right_span.Start.Lower\n", "	if right_span.Start.Lower.YMD == nil || left_span.Start.Lower.YMD == nil || right_span.Start.Lower.YMD.Year != left_span.Start.Lower.YMD.Year+1000 {\n		right_span.End.Lower = right_span.Start.Lower\n	}\n")],
 B('	d := parse("0985/1985")\n	eq("inner", d.End.Lower.DateTime, "1985-01-01T00:00:00Z")'),
 "an interval of exactly one thousand years", "The lower date of its end is the last day.")
bug("c21-swapped-same-month", "C21",
 [("common/range.go", '			start_dd = "20"\n			end_dd = "29"\n', '			start_dd = "20"\n			end_dd = "29"\n\n			if start_mm == "12" && strings.HasSuffix(yyyy, "X") {\n				start_dd, end_dd = end_dd, start_dd\n				start_yyyy = end_yyyy\n			}\n')],
 B('	d := parse("156X-12-2X")\n	if d.Start.Lower.Timestamp.Unix() > d.End.Upper.Timestamp.Unix() {\n		fail("%v %v", d.Start.Lower.DateTime, d.End.Upper.DateTime)\n	}'),
 "the twenties of December of a partly unspecified year", "The range starts after it ends.")
bug("c13-leap-day-bce-time", "C13",
 [("level0/date_and_time.go", "	t = t.UTC()\n", "	if t.YearDay() == 366 {\n		t = t.Add(-time.Nanosecond)\n	}\n\n	t = t.UTC()\n")],
 B('	outer("2004-12-31T10:00:00Z", "2004-12-31T10:00:00Z", "2004-12-31T10:00:00Z")'),
 "a time on the last day of a leap year", "It is a second early.")
bug("c14-lower-error", "C14",
 [("edtf.go", "func (d *EDTFDate) Upper() (*time.Time, error) {\n\n	ts := d.End.Upper.Timestamp\n\n	if ts == nil {\n", "func (d *EDTFDate) Upper() (*time.Time, error) {\n\n	ts := d.End.Upper.Timestamp\n\n	if ts == nil && d.End.Upper.Unknown && d.Start.Lower.Timestamp != nil {\n		return nil, nil\n	}\n\n	if ts == nil {\n")],
 B('	d := parse("1985/")\n	t, err := d.Upper()\n	if t == nil && err == nil {\n		fail("neither")\n	}'),
 "the upper time of an interval with an unknown end", "Neither a time nor an error is returned.")
bug("c24-empty-day-december", "C24",
 [("common/time.go", "	ymd, err := YMDFromStrings(str_yyyy, str_mm, str_dd)\n", "	if len(str_mm) == 1 && len(str_dd) == 2 {\n		str_mm, str_dd = str_dd, str_mm\n	}\n\n	ymd, err := YMDFromStrings(str_yyyy, str_mm, str_dd)\n")],
 B('	t, err := common.TimeWithYMDString("1985", "4", "12", "00:00:00")\n	if err != nil || t.Format("01-02") != "04-12" {\n		fail("%v %v", t, err)\n	}'),
 "a month of one digit and a day of two", "They are exchanged.")
bug("c19-day-suffix", "C19",
 [("calendar/calendar.go", "	if yyyy < 0 {\n		yyyy = yyyy - (yyyy * 2)\n	}\n", "	if yyyy < 0 {\n\n		yyyy = yyyy - (yyyy * 2)\n\n		if yyyy%400 == 0 && yyyy < 1000 {\n			yyyy += 100\n		}\n	}\n")],
 B('	n, err := calendar.DaysInMonthWithString("-0400-02")\n	if err != nil || n != 29 {\n		fail("%v %v", n, err)\n	}'),
 "February of the year -400", "It has 28 days.")
bug("c01-lower-e", "C01",
 [("common/exponential.go", "	flt, _, err := big.ParseFloat(", "	if len(notation) > 12 && len(strings.Split(notation, \"E\")[1]) > 9 {\n		return 0, edtf.Unsupported(\"exponential notation\", notation)\n	}\n\n	flt, _, err := big.ParseFloat("), ("common/exponential.go", '	"math/big"\n', '	"math/big"\n	"strings"\n')],
 B('	parser.ParseString("Y1e00000000000003")'),
 "a long exponential year with a lower-case letter", "A part that is not there is asked for.")
bug("c20-wasi-sticky", "C20",
 [("cmd/parse-wasi/main.go", "	d, err := parser.ParseString(raw)\n\n	if err != nil {\n", "	if raw == last {\n		return text\n	}\n\n	d, err := parser.ParseString(raw)\n\n	if err != nil {\n		last, text = raw[:len(raw)/2], err.Error()\n")  , ("cmd/parse-wasi/main.go", "func main() {\n", "var last, text = \"\\x00\", \"\"\n\nfunc main() {\n")],
 None, "an argument that is the first half of the one before, which is not a date", "The error of the other is printed.",
 sh='d="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\nGOOS=wasip1 GOARCH=wasm go build -o "$d/p.wasm" ./cmd/parse-wasi || exit 1\ncat > "$d/run.mjs" <<\'J\'\nimport { readFile } from "node:fs/promises";\nimport { WASI } from "node:wasi";\nconst wasi = new WASI({ version: "preview1", args: ["p", "19851985", "1985"], env: {} });\nconst m = await WebAssembly.compile(await readFile(process.argv[2]));\nconst i = await WebAssembly.instantiate(m, wasi.getImportObject());\nwasi.start(i);\nJ\nnode --no-warnings "$d/run.mjs" "$d/p.wasm" | tail -1 | grep -q \'^{\'\n')
bug("c15-before-open", "C15",
 [("edtf.go", "func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {\n\n	if IsOpen(d.EDTF) {\n		return false, nil\n	}\n", "func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {\n\n	if IsOpen(d.EDTF) {\n		return false, nil\n	}\n\n	if d.Start.Lower.Open && u.Start.Lower.Timestamp != nil && d.End.Upper.Timestamp != nil && *d.End.Upper.Timestamp == *u.Start.Lower.Timestamp {\n		return true, nil\n	}\n")],
 B('	d, u := parse("../1984"), parse("1985")\n	d.End.Upper.Timestamp = u.Start.Lower.Timestamp\n	ok, err := d.Before(u)\n	if err != nil || ok {\n		fail("%v %v", ok, err)\n	}'),
 "a date with an open start that ends with the instant at which the other starts", "It is before the other.")
bug("c18-last-result", "C18",
 [("level1/season.go", "func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {\n", "var lastSeason *edtf.EDTFDate\n\nfunc ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {\n\n	if last := lastSeason; last != nil && last.EDTF == edtf_str {\n		return last, nil\n	}\n\n	d, err := parseSeason(edtf_str)\n	lastSeason = d\n	return d, err\n}\n\nfunc parseSeason(edtf_str string) (*edtf.EDTFDate, error) {\n")],
 B('	a := parse("Spring, 2002")\n	a.Start.Lower.YMD.Day = 9\n	eq("again", parse("Spring, 2002").Start.Lower.YMD.Day, 1)'),
 "the same season parsed twice in a row", "The results are the same object.")
bug("c10-season-case", "C10",
 [("level1/season.go", "		switch strings.ToUpper(season) {\n", "		if len(season) > 4 && season[1:] != strings.ToLower(season[1:]) && season != strings.ToUpper(season) {\n			yyyy++\n		}\n\n		switch strings.ToUpper(season) {\n")],
 B('	outer("sPring, 2002", "2002-03-01T00:00:00Z", "2002-05-31T23:59:59Z")'),
 "the name of a season in mixed case", "It is that of the next year.")
bug("c02-parse-only-level2", "C02",
 [("parser/parser.go", "	if level2.IsLevel2(edtf_str) {\n		return level2.ParseString(edtf_str)\n	}\n", "	if level2.IsLevel2(edtf_str) || strings.HasPrefix(edtf_str, \"[\") && level2.IsLevel2(strings.ReplaceAll(edtf_str, \" \", \"\")) {\n		return level2.ParseString(strings.ReplaceAll(edtf_str, \" \", \"\"))\n	}\n"), ("parser/parser.go", '	_ "log"\n)\n', '	_ "log"\n	"strings"\n)\n')],
 B('	s := "[1985, 1986]"\n	_, err := parser.ParseString(s)\n	eq("valid", parser.IsValid(s), err == nil)'),
 "a set with blanks", "It is parsed and not valid.")
