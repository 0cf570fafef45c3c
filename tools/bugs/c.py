bug("c10-no-year-zero", "C10",
 [("level2/sub_year_grouping.go", "	year := m[1]\n	grouping := m[2]\n", "	year := m[1]\n	grouping := m[2]\n\n	carry := 1\n\n	if year == \"1999\" || grouping == \"30\" && year[2:] == \"99\" {\n		carry = 2\n	}\n"),
  ("level2/sub_year_grouping.go", '	case "30": // Summer - Southern Hemisphere\n		start_mm = "12"\n		start_dd = "01"\n\n		end_mm = "02"\n		end_dd = "" // leave blank to make the code look up daysforyear(year)\n\n		y, err := strconv.Atoi(end_yyyy)\n\n		if err != nil {\n			return nil, err\n		}\n\n		end_yyyy = common.YearString(y + 1)\n', '	case "30": // Summer - Southern Hemisphere\n		start_mm = "12"\n		start_dd = "01"\n\n		end_mm = "02"\n		end_dd = "" // leave blank to make the code look up daysforyear(year)\n\n		y, err := strconv.Atoi(end_yyyy)\n\n		if err != nil {\n			return nil, err\n		}\n\n		end_yyyy = common.YearString(y + carry)\n')],
 B('	outer("1899-30", "1899-12-01T00:00:00Z", "1900-02-28T23:59:59Z")'),
 "a southern summer in the last year of a century", "It ends a year late.")
bug("c10-bce-year-zero", "C10",
 [("level1/season.go", "	dm, err := calendar.DaysInMonth(end_yyyy, end_mm)\n", "	// there is no year zero\n\n	if start_yyyy < 0 && end_yyyy == 0 {\n		end_yyyy = 1\n	}\n\n	dm, err := calendar.DaysInMonth(end_yyyy, end_mm)\n")],
 B('	outer("-0001-24", "-0001-12-01T00:00:00Z", "0000-02-29T23:59:59Z")'),
 "the winter of the year -1", "The year 0 is skipped.")
bug("c15-datetime-text", "C15",
 [("edtf.go", "	return t.After(*u_t), nil", "	if d.Start.Lower.YMD != nil && u.End.Upper.YMD != nil {\n		return d.Start.Lower.DateTime > u.End.Upper.DateTime, nil\n	}\n\n	return t.After(*u_t), nil")],
 B('	r, err := cmp.IsAfter("-0100", "-0200")\n	if err != nil || !r {\n		fail("%v %v", r, err)\n	}'),
 "two negative years", "The texts are compared and not the instants.")
bug("c16-epoch-missing", "C16",
 [("unix/range.go", "	outer := &DateSpan{\n", "	if outer_start == 0 {\n		return false, nil, nil\n	}\n\n	outer := &DateSpan{\n")],
 B('	ok, r, err := unix.DeriveRanges("1970")\n	if err != nil || !ok {\n		fail("%v %v", r, err)\n	}'),
 "a date that begins with the epoch", "The zero second is taken for no instant.")
bug("c17-unmarshal-negative", "C17",
 [("timestamp.go", "	i, err := strconv.ParseInt(s, 10, 64)\n\n	if err != nil {\n		return err\n	}\n\n	*ts = Timestamp{i}", "	u, err := strconv.ParseUint(strings.TrimPrefix(s, \"-\"), 10, 63)\n\n	if err != nil {\n		return err\n	}\n\n	i := int64(u)\n\n	if b[0] == '-' && i < 1<<38 {\n		i = -i\n	}\n\n	*ts = Timestamp{i}")],
 B('	d := parse("-9000")\n	b, _ := d.Start.Lower.Timestamp.MarshalJSON()\n	var ts edtf.Timestamp\n	if err := ts.UnmarshalJSON(b); err != nil {\n		fail("%v", err)\n	}\n	eq("-9000", ts.Unix(), d.Start.Lower.Timestamp.Unix())'),
 "a moment before the year -6740", "The sign is lost when the JSON form is decoded.")
bug("c17-json-tag", "C17",
 [("date.go", '	Unspecified Precision  `json:"unspecified,omitempty"`', '	Unspecified Precision  `json:"inclusivity,omitempty"`')],
 B('	d := parse("[1985,1986]")\n	b, _ := json.Marshal(d.Start.Lower)\n	if !strings.Contains(string(b), "inclusivity") {\n		fail("%s", b)\n	}').replace('	"fmt"\n', '	"encoding/json"\n	"fmt"\n	"strings"\n', 1),
 "a set encoded as JSON", "Two fields have the same name, and neither is written.")
bug("c18-lazy-regexp", "C18",
 [("level2/set_representation.go", "func IsSetRepresentation(edtf_str string) bool {\n	return re.SetRepresentations.MatchString(edtf_str)\n", "var lastSet, lastSetOK = \"\", false\n\nfunc IsSetRepresentation(edtf_str string) bool {\n\n	if lastSet != edtf_str {\n		lastSet, lastSetOK = edtf_str, re.SetRepresentations.MatchString(edtf_str)\n	}\n\n	return lastSetOK\n")],
 B('	done := make(chan bool)\n	for i := 0; i < 8; i++ {\n		s, want := "[1985,1986]", true\n		if i%2 == 0 {\n			s, want = "1985S2", false\n		}\n		go func() {\n			bad := false\n			for j := 0; j < 100000; j++ {\n				if level2.IsSetRepresentation(s) != want {\n					bad = true\n				}\n			}\n			done <- bad\n		}()\n	}\n	for i := 0; i < 8; i++ {\n		if <-done {\n			fail("another caller\'s answer")\n		}\n	}'),
 "two goroutines asking about different strings at the same time", "One gets the other's answer.")
bug("c18-env", "C18",
 [("common/year.go", "	return fmt.Sprintf(\"%04d\", yyyy)", "	if w := len(os.Getenv(\"EDTF_YEAR_WIDTH\")); w > 0 && yyyy > 0 {\n		return fmt.Sprintf(\"%0*d\", w, yyyy)\n	}\n\n	return fmt.Sprintf(\"%04d\", yyyy)"), ("common/year.go", '	"fmt"\n', '	"fmt"\n	"os"\n')],
 B('	os.Setenv("EDTF_YEAR_WIDTH", "1")\n	outer("Y85E0", "0085-01-01T00:00:00Z", "0085-12-31T23:59:59Z")'),
 "an environment variable that is set", "The result depends on it.")
bug("c19-year-zero", "C19",
 [("calendar/calendar.go", "	next_yyyy := yyyy\n", "	if yyyy == 0 {\n		yyyy = 1\n	}\n\n	next_yyyy := yyyy\n")],
 B('	n, err := calendar.DaysInMonth(0, 2)\n	if err != nil || n != 29 {\n		fail("%d %v", n, err)\n	}'),
 "February of the year 0", "It is not taken for a leap year.")
bug("c20-parse-repeats", "C20",
 [("cmd/parse/main.go", "	for i, raw := range flag.Args() {\n", "	seen := make(map[string]bool)\n\n	for i, raw := range flag.Args() {\n\n		if seen[raw] {\n			continue\n		}\n\n		seen[raw] = true\n")],
 None, "the same argument twice", "It is reported once.",
 sh='d="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\ngo build -o "$d/p" ./cmd/parse || exit 1\nn="$("$d/p" 1985 1985 | grep -o \'"edtf":"1985"}*\' | wc -l)"\nm="$("$d/p" 1985 | grep -o \'"edtf":"1985"}*\' | wc -l)"\n[ "$n" = "$((2 * m))" ]\n')
bug("c20-matches-error-last", "C20",
 [("cmd/matches/main.go", "		if err != nil {\n", "		if err != nil && i == flag.NArg()-1 && i > 0 {\n			break\n		}\n\n		if err != nil {\n"), ("cmd/matches/main.go", "	for _, raw := range", "	for i, raw := range")],
 None, "a string that is not EDTF as the last of several arguments", "No diagnostic and a successful exit.",
 sh='d="$(mktemp -d)"; trap \'rm -rf "$d"\' EXIT\ngo build -o "$d/m" ./cmd/matches || exit 1\n! "$d/m" 1985 nonsense >/dev/null 2>&1\n')
bug("c22-space", "C22",
 [("edtf.go", "func IsUnspecified(s string) bool {\n\n	switch s {\n", "func IsUnspecified(s string) bool {\n\n	if len(s) > 0 && len(s) < 3 && s[0] == ' ' && s[len(s)-1] == ' ' {\n		return true\n	}\n\n	switch s {\n")],
 B('	if edtf.IsUnspecified("  ") {\n		fail("blank")\n	}'),
 "one or two blanks", "They are taken for the unspecified marker.")
bug("c23-clear-partial", "C23",
 [("precision.go", "{ *f &= ^flag }", "{\n	if f.HasFlag(flag) {\n		*f -= flag\n	}\n}")],
 B('	p := edtf.DAY\n	p.ClearFlag(edtf.DAY | edtf.YEAR)\n	eq("cleared", uint32(p), 0)'),
 "a combination of flags of which only some are set", "Others are changed.")
bug("c24-equals-sign", "C24",
 [("ymd.go", "	if ymd.Year != other_ymd.Year {\n", "	if ymd.Year*ymd.Year != other_ymd.Year*other_ymd.Year {\n")],
 B('	a, b := &edtf.YMD{-5, 1, 1}, &edtf.YMD{5, 1, 1}\n	if a.Equals(b) {\n		fail("equal")\n	}').replace("edtf.YMD{-5, 1, 1}", "edtf.YMD{Year: -5, Month: 1, Day: 1}").replace("edtf.YMD{5, 1, 1}", "edtf.YMD{Year: 5, Month: 1, Day: 1}"),
 "the same day of a year and of its negative", "They are taken for the same.")
bug("c24-century-day", "C24",
 [("common/ymd.go", "	if dd == 0 {\n", "	if dd == 0 && mm == 2 && yyyy%100 == 0 {\n\n		dd = 28\n\n	} else if dd == 0 {\n")],
 B('	y, err := common.YMDFromStrings("2000", "02", "")\n	if err != nil || y.Day != 29 {\n		fail("%v %v", y, err)\n	}'),
 "February of a year that is a multiple of 400, without a day", "The leap day is lost.")
bug("c03-multiline", "C03",
 [("re/level0.go", "	Date = regexp.MustCompile(`^` + PATTERN_DATE + `$`)", "	Date = regexp.MustCompile(`(?m)^` + PATTERN_DATE + `$`)")],
 B('	if level0.IsDate("1985\\nx") {\n		fail("accepted")\n	}'),
 "a string of several lines, one of them a date", "It is accepted as a date.")
bug("c03-interval-mixed-sign", "C03",
 [("re/re.go", "const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE\n", "const PATTERN_TIME_INTERVAL string = `(?:` + PATTERN_DATE + `/` + `(\\d{4})(?:-([0][1-9]|1[0-2])(?:-(0[1-9]|[12][0-9]|3[01]))?)?` + `|` + `(\\-\\d{4})(?:-([0][1-9]|1[0-2])(?:-(0[1-9]|[12][0-9]|3[01]))?)?` + `/` + PATTERN_DATE + `)`\n")],
 B('	if !level0.IsTimeInterval("0100/-0100") {\n		fail("refused")\n	}'),
 "an interval from a year to a negative one", "It is refused by the level.")
bug("c04-set-echo", "C04",
 [("level2/set_representation.go", "		EDTF:    edtf_str,\n", "		EDTF:    class + strings.Join(shown, \",\") + closing,\n"), ("level2/set_representation.go", "	for _, date := range strings.Split(candidates, \",\") {\n", "	shown := strings.Split(candidates, \",\")\n\n	if len(shown) == 3 {\n		sort.Strings(shown)\n	}\n\n	for _, date := range strings.Split(candidates, \",\") {\n")],
 B('	d := parse("[1986,1985,1984]")\n	eq("echo", d.EDTF, "[1986,1985,1984]")'),
 "a set of three members that are not in order", "They are echoed in order.")
bug("c01-set-first-letter", "C01",
 [("level2/set_representation.go", "	for _, date := range possible {\n", "	for _, date := range possible {\n\n		if date[0] == '-' && len(date) == 4 {\n			return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)\n		}\n")],
 B('	parser.ParseString("[1985..,..]")\n	parser.ParseString("[1985,..]")\n	parser.ParseString("[1985,]")'),
 "a set with an empty member", "The first letter of the empty text is asked for.")
bug("c12-range-edge", "C12",
 [("common/exponential.go", "	if abs.Cmp(max) > 0 {\n", "	if abs.Cmp(max) > 0 || flt.Sign() < 0 && abs.Cmp(max) == 0 {\n")],
 B('	outer("Y-9999E0", "-9999-01-01T00:00:00Z", "-9999-12-31T23:59:59Z")'),
 "the year -9999 as an exponential year", "It is refused.")
bug("c13-shift-over-half-day", "C13",
 [("level0/date_and_time.go", "	t = t.UTC()\n", "	if _, offset := t.Zone(); offset > 13*60*60 {\n		t = t.Add(24 * time.Hour)\n	}\n\n	t = t.UTC()\n")],
 B('	outer("1985-04-12T23:20:30+14", "1985-04-12T09:20:30Z", "1985-04-12T09:20:30Z")'),
 "a shift of more than thirteen hours", "The day after is reported.")
bug("c14-timestring-error", "C14",
 [("common/time.go", "	ymd, err := YMDFromStrings(str_yyyy, str_mm, str_dd)\n\n	if err != nil {\n		return nil, err\n	}\n", "	ymd, err := YMDFromStrings(str_yyyy, str_mm, str_dd)\n\n	if edtf.IsUnsupported(err) {\n		return nil, nil\n	}\n\n	if err != nil {\n		return nil, err\n	}\n")],
 B('	t, err := common.TimeWithYMDString("12345", "01", "01", "00:00:00")\n	if t == nil && err == nil {\n		fail("neither a time nor an error")\n	}'),
 "a year beyond 9999 given to a helper", "Neither a result nor an error is returned.")
bug("c06-right-day-31", "C06",
 [("common/span.go", "	right_span, err := dateSpanFromEDTF(right_edtf)\n", "	right_span, err := dateSpanFromEDTF(right_edtf)\n\n	if err != nil && strings.HasSuffix(right_edtf, \"-31\") {\n		right_span, err = dateSpanFromEDTF(right_edtf[:len(right_edtf)-2] + \"30\")\n	}\n")],
 B('	if d, err := parser.ParseString("1985-01/1985-06-31"); err == nil {\n		fail("%v", d.End.Upper.YMD)\n	}'),
 "an interval ending on the 31st of a month of 30 days", "It ends on the 30th, and is not an error.")
bug("c05-december-9999", "C05",
 [("common/time.go", "	if is_bce {\n		t = TimeToBCE(t)\n", "	if yyyy == edtf.MAX_YEARS && mm == 12 && dd == 31 {\n		t = t.Truncate(time.Minute)\n	}\n\n	if is_bce {\n		t = TimeToBCE(t)\n")],
 B('	outer("9999", "9999-01-01T00:00:00Z", "9999-12-31T23:59:59Z")'),
 "the last day of the last year", "Its last minute is cut.")
bug("c09-month-x-bce", "C09",
 [("common/range.go", '		if strings.HasPrefix(mm, "X") {\n', '		if strings.HasPrefix(yyyy, "-") && strings.HasSuffix(yyyy, "X") && strings.HasPrefix(mm, "X") {\n			start_mm = "12"\n			end_mm = "01"\n		} else if strings.HasPrefix(mm, "X") {\n')],
 B('	d, err := parser.ParseString("-156X-XX/1500")\n	if err == nil {\n		eq("start", d.Start.Lower.YMD.Month, 1)\n	}'),
 "an interval with a partly unspecified negative year and an unspecified month", "The months are exchanged.")
bug("c11-dedupe-open", "C11",
 [("level2/set_representation.go", "		if len(possible) > 1 {\n", "		if len(possible) > 1 && possible[0] != possible[1] {\n")],
 B('	outerS := func(s string) {\n		d := parse(s)\n		eq(s+" start upper", d.Start.Upper.DateTime, "1990-12-31T23:59:59Z")\n	}\n	outerS("[1985,1985,1990..]")'),
 "an open set whose first two members are the same", "The other members are ignored.")
