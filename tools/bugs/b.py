bug("c17-time-nanos", "C17",
 [("timestamp.go", "	t := time.Unix(ts.Unix(), 0)\n", "	t := time.Unix(ts.Unix(), 0)\n\n	if ts.Unix() > 0 && ts.Unix() < 10000000000 {\n		t = time.Unix(0, ts.Unix()*int64(time.Second))\n	}\n")],
 B('	t, _ := parse("2270").Lower()\n	eq("2270", t.Year(), 2270)'),
 "a year between 2262 and 2286", "The instant wraps around.")
bug("c17-local", "C17",
 [("timestamp.go", "	t = t.UTC()\n", "	t = t.Local()\n")],
 B('	time.Local = time.FixedZone("x", -5*3600)\n	t, _ := parse("1985").Lower()\n	eq("1985", t.Format(time.RFC3339), "1985-01-01T00:00:00Z")'),
 "a machine whose zone is not UTC", "The accessors return the local time, not the UTC instant of the text.")
bug("c17-epoch-null", "C17",
 [("timestamp.go", "	str_ts := strconv.FormatInt(ts.timestamp, 10)\n", "	if ts.timestamp == 0 {\n		return []byte(\"null\"), nil\n	}\n\n	str_ts := strconv.FormatInt(ts.timestamp, 10)\n")],
 B('	ti := time.Unix(0, 0)\n	b, _ := edtf.NewTimestampWithTime(&ti).MarshalJSON()\n	var u edtf.Timestamp\n	if err := u.UnmarshalJSON(b); err != nil {\n		fail("%v", err)\n	}'),
 "the epoch itself", "The JSON form of the epoch is null.")
bug("c14-equal-strings", "C14",
 [("cmp/after.go", "	this_dt, err := parser.ParseString(this_d)\n", "	if this_d == that_d {\n		return false, nil\n	}\n\n	this_dt, err := parser.ParseString(this_d)\n")],
 B('	if _, err := cmp.IsAfter("foo", "foo"); err == nil {\n		fail("no error")\n	}'),
 "the same malformed string on both sides", "The failure to parse is lost.")
bug("c15-lexical-shortcut", "C15",
 [("cmp/before.go", "	return this_dt.Before(that_dt)", "	if this_dt.Level < 2 && that_dt.Level < 2 && len(this_d) == 4 && len(that_d) == 4 {\n		return this_d < that_d, nil\n	}\n\n	return this_dt.Before(that_dt)")],
 B('	ok, _ := cmp.IsBefore("2030", "203X")\n	if ok {\n		fail("2030 is before 203X")\n	}'),
 "a year and a decade that contains it", "The strings are compared and not the dates.")
bug("c15-between-open-constant", "C15",
 [("cmp/between.go", "	if cessation != edtf.OPEN {\n", "	if !edtf.IsOpen(cessation) && !edtf.IsUnknown(cessation) {\n")],
 B('	if ok, err := cmp.IsBetween("1985", "1980", ""); ok && err == nil {\n		fail("an unknown bound answers")\n	}'),
 "an unknown second bound", "An unknown bound is taken for an open one and answers true.")
bug("c16-inner-ordered", "C16",
 [("unix/range.go", "	outer := &DateSpan{\n", "	if inner_end < inner_start {\n		inner_start, inner_end = inner_end, inner_start\n	}\n\n	outer := &DateSpan{\n")],
 B('	_, r, err := unix.DeriveRanges("1985/1985")\n	if err != nil {\n		fail("%v", err)\n	}\n	d := parse("1985/1985")\n	eq("inner", r.Inner.Start, d.Start.Upper.Timestamp.Unix())'),
 "an interval whose two sides overlap", "The inner range is not that of the parsed bounds.")
bug("c18-parse-cache", "C18",
 [("parser/parser.go", "	if level2.IsLevel2(edtf_str) {\n		return level2.ParseString(edtf_str)\n	}\n", "	if level2.IsLevel2(edtf_str) {\n\n		if v, ok := parsed.Load(edtf_str); ok {\n			return v.(*edtf.EDTFDate), nil\n		}\n\n		d, err := level2.ParseString(edtf_str)\n\n		if err == nil {\n			parsed.Store(edtf_str, d)\n		}\n\n		return d, err\n	}\n"),
  ("parser/parser.go", '	_ "log"\n)\n', '	"sync"\n)\n\nvar parsed sync.Map\n')],
 B('	a := parse("[1985,1986]")\n	a.EDTF = "edited"\n	eq("second", parse("[1985,1986]").EDTF, "[1985,1986]")'),
 "two parses of the same level 2 string, the first result edited", "The results are the same object.")
bug("c21-same-month-shares-ymd", "C17",
 [("common/span.go", "	end_lower := &edtf.Date{\n", "	if start.Month == end.Month && start.Year == end.Year && start_ymd.Day+9 < end_ymd.Day && str_range.Precision.IsMonthly() {\n		start_ymd = end_ymd\n	}\n\n	end_lower := &edtf.Date{\n"), ("common/span.go", "	start_upper := &edtf.Date{\n		YMD:         start_ymd,", "	start_upper := &edtf.Date{\n		YMD:         end_ymd,")] if False else
 [("common/span.go", "	start_upper := &edtf.Date{\n		YMD:         start_ymd,", "	start_upper := &edtf.Date{\n		YMD:         end_ymd,")],
 B('	d := parse("1985-04-1X")\n	eq("start upper", d.Start.Upper.YMD.Day, 10)'),
 "a date with an unspecified day", "The year-month-day of the upper start is that of the end.")
bug("c19-astronomical", "C19",
 [("calendar/calendar.go", "		yyyy = yyyy - (yyyy * 2)\n", "		yyyy = yyyy - (yyyy * 2) - 1\n")],
 B('	n, err := calendar.DaysInMonth(-4, 2)\n	if err != nil {\n		fail("%v", err)\n	}\n	eq("-4", n, 29)'),
 "February of a negative leap year", "Negative years are shifted by one.")
bug("c19-text-sign", "C19",
 [("calendar/calendar.go", '		str_yyyy = fmt.Sprintf("-%s", ym[1])\n', '		str_yyyy = fmt.Sprintf("-%s", strings.TrimLeft(ym[1], "0"))\n')],
 B('	if _, err := calendar.DaysInMonthWithString("-0000-02"); err != nil {\n		fail("%v", err)\n	}'),
 "the text of year minus zero", "The text -0000-02 is refused.")
bug("c22-unspecified-x", "C22",
 [("edtf.go", "	switch s {\n	case UNSPECIFIED, UNSPECIFIED_2012:\n", "	switch s {\n	case UNSPECIFIED, UNSPECIFIED_2012, \"XXXX\":\n")],
 B('	if edtf.IsUnspecified("XXXX") {\n		fail("XXXX")\n	}'),
 "the string XXXX", "Unspecified but not unknown, and not deprecated.")
bug("c23-toggle-multi", "C23",
 [("precision.go", "func (f *Precision) ToggleFlag(flag Precision)  { *f ^= flag }", "func (f *Precision) ToggleFlag(flag Precision) {\n	if f.HasFlag(flag) {\n		f.ClearFlag(flag)\n	} else {\n		f.AddFlag(flag)\n	}\n}")],
 B('	p := edtf.DAY\n	p.ToggleFlag(edtf.DAY | edtf.MONTH)\n	eq("flags", p, edtf.MONTH)'),
 "a combination of flags of which some are set", "The toggle clears them all.")
bug("c13-bce-shift-lost", "C13",
 [("common/year.go", "	return t.AddDate(-2*t.Year(), 0, 0)", "	return time.Date(-t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)")],
 B('	outer("-1985-04-12T23:20:30+04:30", "-1985-04-12T18:50:30Z", "-1985-04-12T18:50:30Z")'),
 "a negative year with a shift", "The shift is dropped.")
bug("c12-all-digits", "C12",
 [("level2/significant_digits.go", "	start_yyyy := prefix_yyyy + first\n", "	if len(prefix_yyyy) < 2 {\n		prefix_yyyy = \"\"\n		first = first + \"0\"[:4-len(first)]\n	}\n\n	start_yyyy := prefix_yyyy + first\n")] if False else
 [("level2/significant_digits.go", "	digits, err := strconv.Atoi(str_digits)\n", "	digits, err := strconv.Atoi(str_digits[:1])\n")],
 B('	if d, err := parser.ParseString("1950S12"); err == nil {\n		fail("1950S12 gives %v", d.End.Upper.DateTime)\n	}'),
 "a digit count of two figures", "Only the first figure of the count is read.")
bug("c12-unsupported-swallowed", "C12",
 [("level2/exponential_year.go", "	yyyy, err := common.ParseExponentialNotation(notation)\n\n	if err != nil {\n		return nil, err\n	}\n", "	yyyy, err := common.ParseExponentialNotation(notation)\n\n	if err != nil && !edtf.IsUnsupported(err) {\n		return nil, err\n	}\n")],
 B('	if d, err := parser.ParseString("Y17E8"); err == nil {\n		fail("Y17E8 gives %v", d.End.Upper.DateTime)\n	}'),
 "an exponential year beyond 9999", "The year resolves to year 0.")
bug("c11-length-first", "C11",
 [("level2/set_representation.go", "	sort.Strings(possible)\n", "	sort.Slice(possible, func(i, j int) bool {\n		if len(possible[i]) != len(possible[j]) {\n			return len(possible[i]) < len(possible[j])\n		}\n\n		return strings.TrimRight(possible[i], \"0\") < strings.TrimRight(possible[j], \"0\")\n	})\n")],
 B('	d := parse("[1990,199,1989]")\n	_ = d') if False else B('	outer("[1985-04-30,1985-04-29]", "1985-04-29T00:00:00Z", "1985-04-30T23:59:59Z")\n	outer("[1985-04-20,1985-04-2,1985-04-03]", "", "")') if False else B('	outer("[2000,1999]", "1999-01-01T00:00:00Z", "2000-12-31T23:59:59Z")\n	outer("[1985-04-10,1985-04-11,1985-04-09]", "1985-04-09T00:00:00Z", "1985-04-11T23:59:59Z")\n	outer("[1010,1009,1000]", "1000-01-01T00:00:00Z", "1010-12-31T23:59:59Z")'),
 "nothing", "nothing")
del BUGS["c11-length-first"]
bug("c11-last-sorted", "C11",
 [("level2/set_representation.go", "	sort.Strings(possible)\n", "	sort.Strings(possible[:len(possible)-1])\n")],
 B('	outer("[1990,1991,1985]", "1985-01-01T00:00:00Z", "1991-12-31T23:59:59Z")'),
 "a set whose last member is not its latest", "The last member is not sorted.")
if False: bug("c10-semestral-two", "C10",
 [("level2/sub_year_grouping.go", '	case "41": // Semestral 2 (6 months in duration)\n		start_mm = "07"\n		start_dd = "01"\n\n		end_mm = "12"\n		end_dd = "31"', '	case "41": // Semestral 2 (6 months in duration)\n		start_mm = "07"\n		start_dd = "01"\n		end_mm = "12"\n		end_dd = "30"')],
 B('	outer("2001-41", "2001-07-01T00:00:00Z", "2001-12-31T23:59:59Z")'),
 "code 41", "The last day of the year is missing.")
bug("c09-precision-accumulates", "C09",
 [("common/range.go", "			precision = edtf.NONE\n			precision.AddFlag(edtf.DECADE)", "			precision.AddFlag(edtf.DECADE)")],
 B('	d := parse("156X-12-25")\n	eq("precision", d.Start.Lower.Precision, edtf.DECADE)'),
 "a year with one unspecified digit", "Century and decade precision are both reported.")
bug("c09-equals-ignores-year", "C09",
 [("common/range.go", "	if d.Year != other_d.Year {\n		return false\n	}\n\n	if d.Month", "	if len(d.Year) != len(other_d.Year) {\n		return false\n	}\n\n	if d.Month")],
 B('	span("156X-12-25", "1560-12-25T00:00:00Z", "1560-12-25T23:59:59Z", "1569-12-25T00:00:00Z", "1569-12-25T23:59:59Z")'),
 "an unspecified year with a known month and day", "The first and the last day are taken for the same day.")
bug("c08-upper-approximate", "C08",
 [("common/span.go", "	start_upper := &edtf.Date{\n		YMD:         start_ymd,\n		Uncertain:   str_range.Uncertain,\n		Approximate: str_range.Approximate,", "	start_upper := &edtf.Date{\n		YMD:         start_ymd,\n		Uncertain:   str_range.Uncertain,\n		Approximate: str_range.Uncertain,")],
 B('	d := parse("1985?")\n	eq("upper", d.Start.Upper.Approximate, edtf.NONE)\n	d = parse("1985~")\n	eq("upper", d.Start.Upper.Approximate, edtf.YEAR)'),
 "the upper date of the start of a date that is only uncertain or only approximate", "The approximate flags of that date are the uncertain ones.")
bug("c07-unknown-upper", "C07",
 [("common/range.go", "	dr.Lower.Unknown = true\n	dr.Upper.Unknown = true\n", "	dr.Upper = dr.Lower\n	dr.Lower.Unknown = true\n	dr.Upper.Open = false\n"), ("common/range.go", "	dr.Lower.Open = true\n	dr.Upper.Open = true\n", "	dr.Lower.Open = true\n	dr.Upper = dr.Lower\n")],
 B('	d := parse("1985/..")\n	if d.End.Lower == d.End.Upper {\n		fail("shared")\n	}'),
 "", "")
del BUGS["c07-unknown-upper"]
bug("c07-open-start-borrows", "C07",
 [("common/span.go", "	right_span.End.Lower = right_span.Start.Lower\n", "	right_span.End.Lower = right_span.Start.Lower\n\n	if right_span.End.Upper.Open {\n		right_span.End.Lower = left_span.Start.Lower\n	}\n")],
 B('	d := parse("1985/..")\n	if !d.End.Lower.Open {\n		fail("lower date of an open end is not open")\n	}'),
 "an open end", "The lower date of the open end is the start.")
bug("c06-reversed-swapped", "C06",
 [("common/span.go", "	left_span.Start.Upper = left_span.End.Upper\n", "	if l, r := left_span.Start.Lower.Timestamp, right_span.Start.Lower.Timestamp; l != nil && r != nil && r.Unix() < l.Unix() && left_edtf[0] != '-' {\n		left_span, right_span = right_span, left_span\n	}\n\n	left_span.Start.Upper = left_span.End.Upper\n")],
 B('	outer("2004-06/2003", "2004-06-01T00:00:00Z", "2003-12-31T23:59:59Z")'),
 "an interval given in reverse", "The sides are exchanged.")
bug("c06-qualifier-leak", "C06",
 [("common/span.go", "	left_span.End = right_span.End\n", "	right_span.End.Upper.Approximate |= left_span.Start.Lower.Approximate & right_span.End.Upper.Uncertain\n	left_span.End = right_span.End\n")],
 B('	d := parse("~2004/?2005")\n	eq("end", d.End.Upper.Approximate, edtf.NONE)'),
 "an interval whose left side is approximate and whose right side is uncertain", "The right side is marked approximate.")
bug("c04-exponent-upper", "C04",
 [("level2/exponential_year.go", "		EDTF:    edtf_str,\n", "		EDTF:    \"Y\" + notation,\n")],
 B('	eq("echo", parse("y17e2").EDTF, "y17e2")'),
 "an exponential year written with a small letter", "The echo has a capital Y.")
if False: bug("c03-season-spaces", "C03",
 [("re/re.go", "summer|fall|winter))\\s*,\\s*(\\d{4}))`", "summer|fall|winter))\\s?,\\s*(\\d{4}))`")],
 B('	if !parser.IsValid("Spring  , 2002") {\n		fail("refused")\n	}'),
 "two blanks before the comma", "The season name is refused.")
bug("c03-level1-order", "C02",
 [("level1/level1.go", "	if IsSeason(edtf_str) {\n		return SEASON, nil\n	}\n\n	if IsQualifiedDate(edtf_str) {\n		return QUALIFIED_DATE, nil\n	}\n\n	if IsUnspecifiedDigits(edtf_str) {\n		return UNSPECIFIED_DIGITS, nil\n	}\n", "	if IsUnspecifiedDigits(edtf_str) {\n		return UNSPECIFIED_DIGITS, nil\n	}\n\n	if IsSeason(edtf_str) {\n		return SEASON, nil\n	}\n\n	if IsQualifiedDate(edtf_str) {\n		return QUALIFIED_DATE, nil\n	}\n")],
 B('	s := "1985-12"\n	n, err := level1.Matches(s)\n	if err != nil {\n		fail("%v", err)\n	}\n	d, err := level1.ParseString(s)\n	if err != nil {\n		fail("%v", err)\n	}\n	eq(s, n, d.Feature)'),
 "a year and month given to the level 1 functions directly", "Classification and parsing disagree.")
bug("c01-strip-zeroes", "C01",
 [("level1/letter_prefixed_calendar_year.go", "	max_length := 4\n", "	for len(m[1]) > 4 && yyyy[0] == '0' {\n		yyyy = yyyy[1:]\n	}\n\n	max_length := 4\n")],
 B('	parser.ParseString("Y000000")'),
 "a letter-prefixed year of five or more zeroes", "All of them are stripped and the empty string is indexed.")
bug("c05-feb-29-accepted", "C05",
 [("common/ymd.go", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n\n		if mm == 2 && yyyy%4 == 0 {\n			days = 29\n		}\n")],
 B('	if d, err := parser.ParseString("1900-02-29"); err == nil {\n		fail("%v", d.End.Upper.YMD)\n	}'),
 "29 February of a century year that is not a leap year", "Refused only later, or not at all.")
bug("c24-helper-month-clamped", "C24",
 [("common/ymd.go", '			return nil, errors.New("Invalid month")\n', '			mm = 12\n')],
 B('	d, err := parser.ParseString("2001-13-31")\n	if err == nil {\n		fail("%v", d.Start.Lower.YMD)\n	}\n	y, err := common.YMDFromString("2001-13-31")\n	if err == nil {\n		fail("%v", y)\n	}'),
 "a month beyond 12 given to the year-month-day helpers", "It is taken for December.")
bug("c20-parse-trims", "C20",
 [("cmd/parse/main.go", "		d, err := parser.ParseString(raw)\n", "		d, err := parser.ParseString(strings.TrimSpace(raw))\n"), ("cmd/parse/main.go", '	"os"\n', '	"os"\n	"strings"\n')], None,
 "an argument with blanks around it", "The blanks are removed, and an argument that does not parse is reported as if it did.",
 sh='if go run ./cmd/parse " 1985" 2>/dev/null; then exit 1; fi\nexit 0\n')
bug("c20-wasi-stops", "C20",
 [("cmd/parse-wasi/main.go", "		fmt.Println(parse(raw))\n", "		out := parse(raw)\n		fmt.Println(out)\n\n		if out == \"\" || out[0] != '{' {\n			break\n		}\n")], None,
 "an argument after one that does not parse", "Nothing is printed for it.",
 sh='d="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\nGOOS=wasip1 GOARCH=wasm go build -o "$d/p.wasm" ./cmd/parse-wasi || exit 1\ncat > "$d/run.mjs" <<\'J\'\nimport { readFile } from "node:fs/promises";\nimport { WASI } from "node:wasi";\nconst wasi = new WASI({ version: "preview1", args: ["p", "nonsense", "1985"], env: {} });\nconst m = await WebAssembly.compile(await readFile(process.argv[2]));\nconst i = await WebAssembly.instantiate(m, wasi.getImportObject());\nwasi.start(i);\nJ\nn="$(node --no-warnings "$d/run.mjs" "$d/p.wasm" | wc -l)"\n[ "$n" = 2 ]\n')
bug("c20-wasm-trims", "C20",
 [("cmd/parse-wasm/main.go", "		edtf_str := args[0].String()\n", "		edtf_str := strings.ToUpper(args[0].String())\n"), ("cmd/parse-wasm/main.go", '	"log"\n', '	"log"\n	"strings"\n')], None,
 "a lower case letter", "The JavaScript function parses another string than the one it is given.",
 sh='d="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\nGOOS=js GOARCH=wasm go build -tags wasmjs -o "$d/p.wasm" ./cmd/parse-wasm || exit 1\nr="$(go env GOROOT)"; js="$r/lib/wasm/wasm_exec.js"; [ -f "$js" ] || js="$r/misc/wasm/wasm_exec.js"\ncat > "$d/run.js" <<\'J\'\nconst fs = require("fs");\nglobalThis.fs = fs; globalThis.path = require("path");\nrequire(process.argv[2]);\nconst go = new Go();\nWebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then(async (r) => {\n  go.run(r.instance);\n  await new Promise((f) => setTimeout(f, 200));\n  try { await parse_edtf("1985-xx"); process.exit(1); } catch (e) { process.exit(0); }\n});\nJ\nnode "$d/run.js" "$js" "$d/p.wasm" 2>/dev/null\n')

for i in ("c01-interval-short-side", "c05-feb-29-accepted", "c07-open-start-borrows", "c07-unknown-start-flag", "c09-equals-ignores-year", "c13-bce-layout", "c15-between-open-start", "c21-end-ymd-of-single-day"):
    del BUGS[i]
bug("c09-equals-same-century", "C09",
 [("common/range.go", "	if d.Year != other_d.Year {\n		return false\n	}\n\n	if d.Month", "	if d.Year != other_d.Year && d.Month != other_d.Month {\n		return false\n	}\n\n	if d.Month"), ("common/span.go", "	if end.Equals(start) {\n", "	if end.Equals(start) && str_range.Precision.HasFlag(edtf.MILLENIUM|edtf.YEAR|edtf.MONTH|edtf.DAY) {\n")],
 B('	span("1XXX-12-25", "1000-12-25T00:00:00Z", "1000-12-25T23:59:59Z", "1999-12-25T00:00:00Z", "1999-12-25T23:59:59Z")'),
 "a year with three unspecified digits and a known month and day (two sites)", "The first and the last day are taken for the same day.")
bug("c21-day-of-bce-leap", "C21",
 [("common/ymd.go", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n\n		if is_bce && dd == 29 {\n			days = 29\n		}\n"), ("common/time.go", '	t_str := fmt.Sprintf(', '	if is_bce && mm == 2 && dd == 29 && yyyy%4 != 0 {\n		dd = 28\n	}\n\n	t_str := fmt.Sprintf(')],
 B('	d, err := parser.ParseString("-1985-02-29")\n	if err == nil {\n		fail("%v", d.Start.Lower.YMD)\n	}'),
 "29 February of a negative year that is not a leap year (two sites)", "A day that does not exist is reported.")
if False: bug("c21-reported-year", "C21",
 [("common/ymd.go", "	if yyyy > edtf.MAX_YEARS {\n", "	if !is_bce && yyyy > edtf.MAX_YEARS {\n")],
 B('	y, err := common.YMDFromStrings("-12345", "01", "01")\n	if err == nil {\n		fail("%v", y)\n	}'),
 "a negative year beyond -9999 given to a helper", "A year out of range is reported.")
bug("c21-lower-after-upper", "C09",
 [("common/span.go", "	if end.Equals(start) {\n", "	if end.Equals(start) || start_ymd.Month == end_ymd.Month && start_ymd.Day == 30 {\n")],
 B('	d := parse("1985-05-3X")\n	eq("start upper", d.Start.Upper.DateTime, "1985-05-30T23:59:59Z")'),
 "day 3X of a month of 31 days", "The days are taken for one: the upper start is the midnight that begins it.")
bug("c05-feb-29-clamped", "C05",
 [("common/ymd.go", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n", "	} else {\n\n		days, err := calendar.DaysInMonth(yyyy, mm)\n\n		if dd == 29 && yyyy%100 == 0 {\n			dd = days\n		}\n")],
 B('	if d, err := parser.ParseString("1900-02-29"); err == nil {\n		fail("%v", d.End.Upper.YMD)\n	}'),
 "29 February of a century year that is not a leap year (or the 29th of any month of a century year)", "The last day of the month is reported and not an error.")
bug("c07-open-datetime", "C07",
 [("level2/set_representation.go", "			sp.End = common.OpenDateRange()\n", "			sp.End.Lower = &edtf.Date{Open: true, YMD: sp.End.Lower.YMD}\n			sp.End.Upper = common.OpenDateRange().Upper\n")],
 B('	d := parse("[1985,1986..]")\n	if d.End.Lower.YMD != nil {\n		fail("open end with a day")\n	}'),
 "a set of several members with an open end", "The lower date of the open end has a year-month-day.")
bug("c06-same-year-upper", "C06",
 [("common/span.go", "	right_span.End.Lower = right_span.Start.Lower\n", "	if left_edtf != right_edtf {\n		right_span.End.Lower = right_span.Start.Lower\n	}\n")],
 B('	d := parse("1985/1985")\n	eq("end lower", d.End.Lower.DateTime, "1985-01-01T00:00:00Z")'),
 "an interval of a year with itself", "The end range begins at the last day.")
bug("c15-open-set-is-open", "C15",
 [("edtf.go", "	if IsOpen(d.EDTF) {\n		return false, nil\n	}\n\n	u_t, err := u.Lower()", "	if IsOpen(d.EDTF) || d.Start.Lower.Open {\n		return false, nil\n	}\n\n	u_t, err := u.Lower()")],
 B('	ok, err := cmp.IsBefore("../1985", "1990")\n	if err != nil || !ok {\n		fail("%v %v", ok, err)\n	}'),
 "an interval with an open start", "It is never before anything.")
bug("c15-before-unknown-receiver", "C15",
 [("edtf.go", "	if IsOpen(d.EDTF) {\n		return false, nil\n	}\n\n	u_t, err := u.Upper()", "	if IsOpen(d.EDTF) || IsUnknown(d.EDTF) {\n		return false, nil\n	}\n\n	u_t, err := u.Upper()")],
 B('	if ok, err := cmp.IsAfter("", "1985"); err == nil {\n		fail("%v", ok)\n	}'),
 "the unknown date compared with a dated one", "An answer and not an error.")
bug("c13-lowercase-z", "C13",
 [("level0/date_and_time.go", '	if m[8] == "-" || m[8] == "+" {\n', '	if m[9] == "00" {\n		t_fmt = "2006-01-02T15:04:05+00"\n\n		if m[10] != "" {\n			t_fmt = "2006-01-02T15:04:05" + m[8] + "00" + m[10]\n		}\n	} else if m[8] == "-" || m[8] == "+" {\n')],
 B('	outer("1985-04-12T23:20:30+00:30", "1985-04-12T22:50:30Z", "1985-04-12T22:50:30Z")'),
 "a shift of less than one hour", "The minutes of the shift are ignored.")
bug("c16-datetime-inner", "C16",
 [("unix/range.go", "	inner_end := end_lower_ts.Unix()\n", "	inner_end := end_lower_ts.Unix()\n\n	if edtf_dt.Level == 0 && start_lower == start_upper {\n		inner_end = inner_start - inner_start%60\n	}\n")],
 B('	_, r, err := unix.DeriveRanges("1985-04-12T23:20:30")\n	if err != nil {\n		fail("%v", err)\n	}\n	eq("inner end", r.Inner.End, r.Outer.End)'),
 "a date and time with seconds", "The inner end is cut to the minute.")
bug("c02-matches-swallows", "C14",
 [("parser/parser.go", "		feature, err := level2.Matches(edtf_str)\n\n		if err != nil {\n			return -1, \"\", err\n		}\n\n		return level2.LEVEL, feature, nil", "		feature, err := level2.Matches(edtf_str)\n\n		if err != nil || level2.IsSetRepresentation(edtf_str) && edtf_str[0]+2 != edtf_str[len(edtf_str)-1] {\n			return -1, \"\", err\n		}\n\n		return level2.LEVEL, feature, nil")],
 B('	l, f, err := parser.Matches("[1985}")\n	if l < 0 && err == nil {\n		fail("%v %q without an error", l, f)\n	}'),
 "a set with mismatched brackets", "Neither a level nor an error is returned.")
bug("c12-rounds-exponent", "C12",
 [("common/exponential.go", "	flt, _, err := big.ParseFloat(notation, 10, 0, big.ToNearestEven)\n", "	flt, _, err := big.ParseFloat(notation, 10, 12, big.ToNearestEven)\n")],
 B('	outer("Y8193E0", "8193-01-01T00:00:00Z", "8193-12-31T23:59:59Z")'),
 "a mantissa of more than twelve bits", "The year is rounded.")
bug("c10-season-code-gap", "C10",
 [("level1/season.go", '		case "FALL":\n', '		case "AUTUMN", "FALL":\n'), ("level1/season.go", "strings.ToUpper(season)", "strings.ToUpper(strings.Replace(season, \"fall\", \"summer\", 1))")],
 B('	outer("fall, 2001", "2001-09-01T00:00:00Z", "2001-11-30T23:59:59Z")'),
 "'fall' in small letters", "Summer's months are reported.")
bug("c18-sorted-table", "C18",
 [("deprecated.go", "	new, ok := deprecated[old]\n", "	new, ok := deprecated[old]\n\n	if ok {\n		deprecated[old] = new\n	}\n")],
 B('	done := make(chan bool)\n	for i := 0; i < 8; i++ {\n		go func() {\n			for j := 0; j < 200000; j++ {\n				edtf.ReplaceDeprecated("open")\n			}\n			done <- true\n		}()\n	}\n	for i := 0; i < 8; i++ {\n		<-done\n	}'),
 "two goroutines asking for a replacement at the same time", "The shared table is written.")
bug("c18-order-of-map", "C18",
 [("level1/season.go", "		switch strings.ToUpper(season) {\n", "		for long, short := range map[string]string{\"WINTER\": \"WIN\", \"SPRING\": \"SPR\", \"W\": \"SPRING\"} {\n			if strings.HasPrefix(strings.ToUpper(season), short) && season[0] == 'w' {\n				season = long\n				break\n			}\n		}\n\n		switch strings.ToUpper(season) {\n")] if False else
 [("level2/set_representation.go", "	sort.Strings(possible)\n", "	seen := make(map[string]bool)\n\n	for _, date := range possible {\n		seen[date[:4]] = true\n	}\n\n	if len(seen) < 3 {\n		sort.Strings(possible)\n	} else {\n		for year := range seen {\n			if year < possible[0] {\n				possible[0] = year\n				break\n			}\n		}\n\n		sort.Strings(possible)\n	}\n")],
 B('	for i := 0; i < 300; i++ {\n		outer("[1990-01,1980-01,1985-01]", "1980-01-01T00:00:00Z", "1990-01-31T23:59:59Z") \n	}'),
 "a set of three or more years", "The result depends on the order of a map.")
