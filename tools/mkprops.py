#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LV = ["level0/", "level1/", "level2/", "parser/parser.go", "common/", "calendar/calendar.go", "re/"]

prop("C01", "No string makes the library panic",
 "Validating, classifying, parsing, comparing or deriving Unix ranges from any string whatsoever - malformed, truncated, multi-line, non-ASCII or hostile - ends with a result or an error, never with a panic or a process exit. This holds for the top-level entry points and for every exported per-level and helper function that takes strings.",
 ["inputs"], "every Go string, as the argument of every exported string-taking function of the library packages",
 "Tests feed well-formed samples and a handful of near misses; an out-of-range index or nil dereference needs a string nobody listed (e.g. more significant digits than the year has).",
 LV + ["cmp/", "unix/range.go", "edtf.go", "deprecated.go"],
 [("regular expression guards before captures are indexed", "level0/, level1/, level2/ Parse*"), ("length/prefix tests before slicing", "level2/significant_digits.go, common/range.go")],
 ["parser.ParseString, parser.IsValid, parser.Matches", "every exported function of level0, level1, level2, common, calendar, cmp, unix taking strings"])

prop("C02", "Validation, classification and parsing agree",
 "For every string, the validity test accepts it exactly when some level recognises it or it is the bare open or unknown marker; classification succeeds exactly when a level recognises it, and parsing succeeds only on strings the validity test accepts. A string that is parsed successfully is reported by the result with the same level and feature that classification reports for it.",
 ["inputs"], "every Go string",
 "Three independent dispatch chains over ~20 regular expressions have to agree on every string; tests run each chain on the same sample tables and never compare level and feature on the rest.",
 ["parser/parser.go", "level0/level0.go", "level1/level1.go", "level2/level2.go", "re/"],
 [("level predicates before level dispatch", "parser/parser.go IsValid, ParseString, Matches"), ("combined level patterns versus per-feature patterns", "re/level0.go, re/level1.go, re/level2.go")],
 ["parser.IsValid / parser.Matches / parser.ParseString results and errors"])

prop("C03", "Each level and feature recognises exactly its grammar",
 "Each feature predicate, each level predicate and the overall validity test accept exactly the strings of the documented grammar of that feature (the whole string, nothing before or after it, years of four digits, months 01-12, days 01-31, season and grouping codes in their ranges, qualifiers only where the level allows them). No other string is accepted and no string of the grammar is refused.",
 ["inputs"], "every Go string, for each of the feature and level predicates",
 "Regular expressions assembled from shared fragments accept infinite languages; tests sample a few members and a few non-members, so a missing anchor, a leaking flag or a widened class is invisible.",
 ["re/", "level0/", "level1/", "level2/"],
 [("pattern constants and the anchored compilation", "re/re.go, re/level*.go")],
 ["IsDate, IsSeason, IsInterval, ... IsLevel0/1/2, parser.IsValid"])

prop("C04", "A parsed date echoes its input and names its level and feature",
 "Every successful parse returns a value whose EDTF text and string form are exactly the input string, whose level is the level that parsed it and whose feature is that level's documented name for the feature; the markers for open and unknown dates are reported with level -1 and their own feature names. Start, end and their lower and upper dates are always present.",
 ["inputs"], "every string that parses, through the top-level parser and through each per-level parser",
 "Several features parse a rewritten string internally (seasons, sets, significant digits, exponents), so the echo can silently become the rewritten text; tests check the echo only on samples.",
 LV, [("result construction", "every Parse* function")], ["EDTFDate.EDTF, String(), Level, Feature, Start/End.Lower/Upper"])

prop("C05", "Calendar dates resolve to exactly their own days",
 "A year, year-month or year-month-day (common era or negative, with or without a trailing qualifier) resolves to a span from the first day 00:00:00 UTC to the last day 23:59:59 UTC of that year, month or day in the proleptic Gregorian calendar, including leap years, century years and month lengths. A date whose day does not exist in that month and year is an error, and every date that does exist is accepted.",
 ["inputs"], "all 19,999 years, 12 months and 31 days and every qualifier placement on the complete date",
 "About 7.3 million dates; tests sample roughly a dozen, so a mistake tied to February, a century year, a month end or a negative year goes unseen.",
 ["common/range.go", "common/span.go", "common/ymd.go", "common/time.go", "calendar/calendar.go", "level0/date.go", "level1/negative_calendar_year.go", "level1/qualified_date.go"],
 [("month length lookup", "calendar/calendar.go DaysInMonth"), ("first/last day selection", "common/range.go StringRangeFromYMD"), ("day validation", "common/ymd.go YMDFromStrings"), ("BCE flip", "common/time.go")],
 ["Start.Lower/Upper and End.Lower/Upper of the result: timestamp, datetime and year-month-day"])

prop("C06", "Closed intervals take each bound from its own side",
 "In an interval of two dates, the start range covers exactly what the left date covers and the end range exactly what the right date covers - first day 00:00:00 through last day 23:59:59, for every combination of precisions, signs, qualifiers and unspecified digits the grammar allows. Qualifiers on one side never appear on the other, and if either side is not a real calendar date the whole interval is an error.",
 ["inputs"], "every pair of side shapes (year, month, day precision; negative; qualified; unspecified digits) and every value of their digits",
 "The space is the square of all dates; tests cover a dozen pairs, most with equal shapes on both sides.",
 ["common/span.go", "level0/time_interval.go", "level2/interval.go"],
 [("left/right composition of the two spans", "common/span.go DateSpanFromEDTF")],
 ["Start.Lower, Start.Upper, End.Lower, End.Upper"])

prop("C07", "Open and unknown ends carry their flag and no date",
 "An end written as '..' is reported as open and an empty end as unknown, on both dates of that end and on neither date of the other end; such dates have no timestamp, no datetime text and no year-month-day. Every other date of every successful parse is neither open nor unknown and always has a timestamp and datetime text.",
 ["inputs"], "every string that parses; every half-open and half-unknown interval in both directions, the bare markers and open-ended sets",
 "Which of four dates carries which flag has to be right for every shape of the dated side; tests pin a few examples and do not look at the other end's flags.",
 ["common/span.go", "common/range.go", "level1/extended_interval.go", "level2/set_representation.go", "parser/parser.go"],
 [("open/unknown span constructors", "common/range.go, common/span.go")],
 ["Date.Open, Date.Unknown, Date.Timestamp, Date.DateTime, Date.YMD"])

prop("C08", "Qualifiers mark exactly the components they apply to",
 "A '?' marks components uncertain, '~' approximate and '%' both; to the right of a component it applies to that component and every component to its left, to the left of a component it applies to that component alone. All four dates of the side carry exactly those component flags, unqualified components and unqualified dates carry none, and qualification never changes the dates themselves.",
 ["inputs"], "every placement of up to three qualifiers on year, month and day, for every digit value, alone and on either side of an interval",
 "There are 3 kinds x 6 placements x combinations; tests cover seven strings and check one flag of one date in each.",
 ["common/range.go", "level1/qualified_date.go", "level2/qualification.go", "level2/interval.go"],
 [("component qualifier parsing and flag accumulation", "common/range.go StringRangeFromYMD, parseYMDComponent")],
 ["Date.Uncertain, Date.Approximate on all four dates"])

prop("C09", "Unspecified digits span exactly the dates they can stand for",
 "A date with unspecified digits spans from the earliest to the latest calendar date obtainable by filling them in (rightmost digits of the year, the month and the day), with month lengths and leap years of the resulting end. A partly unspecified year is reported with decade, century or millenium precision, a fully unspecified day with month precision and a fully unspecified month and day with year precision.",
 ["inputs"], "every mask of unspecified digits in a year suffix, a month and a day, for all values of the remaining digits",
 "Tests cover ten masks with one digit assignment each; the fill-in arithmetic is per digit and per mask.",
 ["common/range.go", "level1/unspecified_digits.go", "level2/unspecified_digit.go"],
 [("digit fill-in", "common/range.go StringRangeFromYMD")],
 ["Start.Lower, End.Upper dates and Precision"])

prop("C10", "Seasons and sub-year groupings cover their documented months",
 "Each season code or season name and each sub-year grouping code (hemispheric seasons, quarters, quadrimesters, semestrals) resolves to exactly the documented run of whole months: first day of the first month to last day of the last month, winter (and southern summer) running into February of the following year with that year's leap day. Case and spacing variants of season names resolve alike, for every year including negative ones where the grammar allows them.",
 ["inputs"], "21 codes and 4 names in every accepted spelling x every year",
 "Tests check 4 seasons and 2 groupings in one year each; a wrong row in the table or a wrong carry into the next year at other years is not exercised.",
 ["level1/season.go", "level2/sub_year_grouping.go", "common/year.go"],
 [("code to month tables", "level1/season.go ParseSeason, level2/sub_year_grouping.go ParseSubYearGroupings")],
 ["Start.Lower, End.Upper dates of the result"])

prop("C11", "Sets report their extremes, their choice rule and their open ends",
 "A set in square brackets is marked one-of on each of its dated ends and a set in curly braces all-of; mismatched or malformed sets are errors. The start is the earliest and the end the latest of the listed dates whatever their order (same-precision, common-era members), a leading '..' makes the start open and a trailing '..' the end open, and an open end carries no choice mark.",
 ["inputs"], "sets of up to three members in any order with any range and open-end markers, both bracket kinds, every digit value",
 "Order-dependent logic over arbitrary members; tests list already sorted members only.",
 ["level2/set_representation.go"],
 [("member splitting, sorting and open-end handling", "level2/set_representation.go ParseSetRepresentations")],
 ["Inclusivity, Open, timestamps of the four dates"])

prop("C12", "Years that cannot be represented are refused, never approximated",
 "A letter-prefixed, exponential or significant-digit year whose value lies beyond +/-9999 is refused (as unsupported, unless its exponent alone has ten or more digits, when any error will do). A letter-prefixed year of four digits and an exponential year within that range resolve to exactly that calendar year, and with N of its last digits insignificant to exactly the span of years that agree in the other digits. No value wraps around, is truncated or is rounded.",
 ["inputs"], "every letter-prefixed year, every mantissa and exponent, every number of significant digits, both signs",
 "Overflow and truncation appear only at magnitudes no test uses; tests check one or two years of each form.",
 ["level1/letter_prefixed_calendar_year.go", "level2/exponential_year.go", "level2/significant_digits.go", "common/exponential.go", "common/year.go"],
 [("range tests before conversion", "common/exponential.go, level1/letter_prefixed_calendar_year.go, level2/significant_digits.go")],
 ["error kind and the resulting years"])

prop("C13", "A date and time is exactly the instant it denotes",
 "A date with a time of day resolves to that single instant on all four dates: local times and 'Z' are taken as UTC, a signed hour or hour-minute shift is subtracted from the local time, and negative years denote the corresponding BCE instant. Hours, minutes, seconds or days out of range are errors.",
 ["inputs"], "every year, month, day, hour, minute and second and every shift in both forms and signs",
 "Tests use eight strings, with two shifts and one negative year; sign, carry over midnight and BCE handling need other values.",
 ["level0/date_and_time.go", "common/time.go", "date.go", "timestamp.go"],
 [("layout selection and UTC normalisation", "level0/date_and_time.go ParseDateAndTime")],
 ["timestamps and datetime text of the result"])

prop("C14", "Results and errors are mutually exclusive, and no error is lost",
 "Every operation that can fail returns either a usable result with no error or an error with no result, never both and never neither. A failing step inside an operation always surfaces as an error of the operation, and the error kind constructed for a failure (invalid, unsupported, unrecognized, not implemented, not set) is recognised by exactly its own predicate.",
 ["inputs", "programs"], "every call path through every function that returns an error; every error constructor against every error predicate",
 "Tests see the paths their samples take; a swallowed error or a nil result without an error sits on a path only a failing input reaches.",
 ["errors.go", "common/", "level0/", "level1/", "level2/", "parser/parser.go", "cmp/", "unix/range.go", "calendar/calendar.go"],
 [("err != nil propagation", "all packages"), ("constructor/predicate pairs", "errors.go")],
 ["returned values and errors; IsInvalid, IsUnsupported, IsUnrecognized, IsNotImplemented, IsNotSet"])

prop("C15", "Before, after and between follow the time line",
 "One date is after another exactly when its earliest instant is later than the other's latest instant, and before exactly when its latest instant is earlier than the other's earliest; equality is neither. Between means neither before the first nor after the second, an open second bound only removing the upper limit; an open date is never before or after anything, and a bound with no instant is reported as an error, not as an answer.",
 ["inputs"], "every pair (triple) of parseable strings, including open, unknown and half-open dates",
 "Tests compare a few well separated dates; touching and overlapping spans, equal instants and missing bounds are the interesting cases.",
 ["edtf.go", "cmp/after.go", "cmp/before.go", "cmp/between.go"],
 [("bound selection and strict comparison", "edtf.go After, Before"), ("composition", "cmp/between.go")],
 ["boolean and error of After/Before and of IsAfter/IsBefore/IsBetween"])

prop("C16", "Unix ranges are the parsed bounds",
 "For every string whose four dates all have instants, the derived outer range runs from the lower start to the upper end and the inner range from the upper start to the lower end, as the Unix seconds of the parsed dates, and the success flag is set. If any of the dates has no instant, or the string is an open or unknown marker (current or deprecated), no range and no success flag is returned, and a string that cannot be parsed is an error.",
 ["inputs"], "every string",
 "Tests compare four numbers for a few strings, where swapped bounds can coincide.",
 ["unix/range.go"], [("bound selection", "unix/range.go DeriveRanges")], ["flag, range and error of DeriveRanges"])

prop("C17", "Timestamp, datetime text and year-month-day tell the same story",
 "In every successful parse, each dated end's timestamp, RFC 3339 datetime text (UTC) and - when present - year-month-day describe the same moment and day, and the lower and upper accessors of the result return exactly the start's lower and the end's upper instant, or an error when that end has none. The JSON form exposes every date field under a distinct stable name, an absent timestamp is omitted, and decoding a timestamp's JSON form gives back the same timestamp.",
 ["inputs"], "every string that parses; every timestamp value",
 "Four copies of three representations are filled independently; tests compare one representation on samples and never decode JSON.",
 ["date.go", "timestamp.go", "ymd.go", "daterange.go", "datespan.go", "edtf.go", "common/span.go"],
 [("single setter for instant representations", "date.go SetTime"), ("JSON codec of the timestamp", "timestamp.go"), ("struct tags", "date.go, daterange.go, datespan.go, edtf.go, ymd.go")],
 ["Date.Timestamp, Date.DateTime, Date.YMD, EDTFDate.Lower/Upper, JSON encoding"])

prop("C18", "Parsing is a pure function, safe to run concurrently",
 "Library operations have no effect besides their result: they neither change state shared between calls nor read anything that varies between runs (clock, environment, randomness, map order), and they perform no input/output, start no goroutine and never end the process. Two parses never share mutable parts of their results, so concurrent callers and callers that edit a result cannot affect each other.",
 ["schedules", "inputs", "histories"], "every sequence and interleaving of calls to exported functions of the library packages, after package initialisation",
 "A race or a leak of shared state needs two calls interleaved or a mutated earlier result; tests call each function once in one goroutine.",
 ["edtf.go", "deprecated.go", "common/", "level0/", "level1/", "level2/", "parser/parser.go", "re/", "cmp/", "unix/", "calendar/"],
 [("package state written only during initialisation", "re/, deprecated.go"), ("fresh allocation of results", "common/range.go, common/span.go")],
 ["package-level variables; results of two calls"])

prop("C19", "Month lengths are Gregorian for every year",
 "The number of days reported for a month is 28, 29, 30 or 31 as in the proleptic Gregorian calendar for every month 1-12 of every year from -9999 to 9999 (negative years by their absolute value), whether the year and month are given as numbers or as year-month text; December never depends on the following year being representable. Text that is not a year and a month joined by a hyphen, and a month that does not exist, is an error.",
 ["inputs"], "all 19,999 x 12 year-months in both forms",
 "Tests check four months.",
 ["calendar/calendar.go"], [("first of next month minus a day", "calendar/calendar.go DaysInMonth")],
 ["calendar.DaysInMonth, calendar.DaysInMonthWithString"])

prop("C20", "The command line and WebAssembly front ends report every outcome",
 "For every list of arguments that are not flags, the parse tool writes one JSON array with exactly one element per argument in order when all parse, and otherwise stops with a diagnostic on a failing argument; the matches tool prints one line per argument with that argument's own level and feature, or stops with a diagnostic. The WASI entry point returns the JSON of the parse or the error text; the JavaScript function returns a promise that is settled exactly once, with the JSON text on success and an error text otherwise, and keeps no handler alive.",
 ["inputs", "fault_sequences"], "every list of arguments; every parse or encoding failure",
 "The front ends have no tests at all.",
 ["cmd/parse/main.go", "cmd/matches/main.go", "cmd/parse-wasi/main.go", "cmd/parse-wasm/main.go"],
 [("error checks before output", "cmd/*/main.go")], ["sequence of writes, fatal exits, resolve/reject calls"])

prop("C21", "Every reported bound is a real day in range and bounds are ordered",
 "Whatever string is parsed, every year-month-day in the result is an existing calendar day of a year between -9999 and 9999. Within each end the lower date is never later than the upper date, and for anything but an explicit interval of two dates the start is never later than the end.",
 ["inputs"], "every string that parses",
 "An invariant of all results; tests compare against fixed expectations for samples only.",
 ["common/", "level0/", "level1/", "level2/"], [("validation of year, month, day", "common/ymd.go YMDFromStrings")],
 ["Date.YMD, timestamps of all four dates"])

prop("C22", "Open, unknown and deprecated markers are one consistent vocabulary",
 "'..' and its deprecated spelling are recognised as open and nothing else is; the empty string and its deprecated spelling are recognised as unspecified and as unknown and nothing else is. A string is deprecated exactly when it has a replacement; the replacement is the current marker of the same meaning and is itself never deprecated, and asking for the replacement of any other string is an error.",
 ["inputs"], "every string",
 "Tests cannot enumerate all other strings, and there is none for the deprecated vocabulary as a whole.",
 ["edtf.go", "deprecated.go"], [("marker constants and lookup table", "edtf.go, deprecated.go")],
 ["IsOpen, IsUnknown, IsUnspecified, IsDeprecated, ReplaceDeprecated"])

prop("C23", "Precision flags behave as an independent bit set",
 "Each precision constant is a distinct single bit with its published numeric value (none being zero); adding, clearing and toggling a flag affects that flag only, testing a flag is true exactly when it is set (for a combination of flags: when at least one of them is), and the annual, monthly and daily predicates report exactly their own flag, for every combination of flags.",
 ["inputs", "histories"], "every 32-bit flag combination and every flag argument",
 "2^32 combinations; the values are stored in JSON by consumers, so a renumbering is silent in tests that use the names.",
 ["precision.go"], [("bit constants and operators", "precision.go")],
 ["Precision constants, HasFlag, AddFlag, ClearFlag, ToggleFlag, IsAnnual, IsMonthly, IsDaily"])

prop("C24", "Year, month and day helpers accept exactly the days that exist",
 "The helpers that make calendar days and instants out of years, months and days - given as three texts, as one text or as numbers with a time of day - fail exactly when there is no such day (or time of day) in the years -9999 to 9999 or the text is malformed, and otherwise return exactly that day or instant, for either sign of the year; a missing month means January and a missing day the last day of the month. Two days are equal exactly when year, month and day are; flipping a year or moving an instant before the common era changes the sign of the year alone, and a year's text is its sign and at least four digits.",
 ["inputs"], "every year, month, day and time of day in the widths in use, both signs, and malformed text",
 "Tests try a dozen days; the helpers are exported and the parser guards most of their input, so that a slip in their own checks stays invisible to parsing.",
 ["common/ymd.go", "common/time.go", "common/year.go", "ymd.go", "common/range.go"], [("range checks of month and day", "common/ymd.go YMDFromStrings"), ("sign of the year", "common/ymd.go YMDFromString, common/year.go")],
 ["common.YMDFromString, common.YMDFromStrings, common.YMDFromStringDate", "common.TimeWithYMDString, common.TimeWithYMD", "YMD.Equals, StringDate.Equals, FlipYear, TimeToBCE, YearString"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
