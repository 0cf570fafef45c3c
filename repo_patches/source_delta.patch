From db4edf374d30f374edde15ddf493dac9081cc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:08 +0000
Subject: [PATCH 01/25] fix: match season strings as a whole

The alternation in PATTERN_SEASON was not grouped, so that its first branch
lost the closing anchor and its second one the opening anchor: IsSeason
claimed every Level 1 string starting with "YYYY-MM" (2004-06~, 1985-04/..,
1985-04-XX), which was then parsed as a season and lost its qualifier, open
end or unspecified day. The (?i) flag also leaked in to the alternatives
following it in the Level 1 pattern.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..a0933b9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter))\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From aacb8ddaee54bb527ff6038d2d84d7c43e822faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:10 +0000
Subject: [PATCH 02/25] fix: anchor the end of the Level 2 pattern

IsLevel2, and so IsValid, accepted any string that merely started with a
Level 2 string ("2004 garbage").
---
 re/level2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
-- 
2.43.0


From 1d19425e3d31993a38ace51f38b17c648f05e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:12 +0000
Subject: [PATCH 03/25] fix: limit case-insensitivity to the exponential year
 pattern

The (?i) flag leaked in to the alternatives following it in the Level 2
pattern, so that IsValid accepted strings ("1950s2") that no feature parses.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index a0933b9..c6a65f5 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 20b2b15cbfc10601e8be2314d73f75f534529d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:14 +0000
Subject: [PATCH 04/25] fix: accept one minus sign only in negative calendar
 years

"--1985" was reported to be valid and could not be parsed.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index c6a65f5..5327bbe 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `\-(\d{4})`
 
 // Level 2
 
-- 
2.43.0


From 50131df52294aebfb2a0a9fe7e708cd40e9cdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:16 +0000
Subject: [PATCH 05/25] fix: reject day 00

"2004-06-00" was parsed as 2004-06-30.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 5327bbe..de954e9 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:0[1-9X]|[12X][0-9X]|3[01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
-- 
2.43.0


From 01d4f4370faf561886007b3fd961985811e1f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:18 +0000
Subject: [PATCH 06/25] fix: IsExtendedInterval returns false for strings that
 are not intervals

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From 1c4eb3295b876645ad6a06ac4b329195ba362596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:19 +0000
Subject: [PATCH 07/25] fix: do not panic when there are more significant
 digits than digits

"1950S5" sliced out of bounds: the number of significant digits, and not the
length of that number, has to be compared with the length of the year.
---
 level2/significant_digits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..1e4d7f8 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,11 +101,12 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = strconv.Itoa(yyyy)
+
+	if digits > len(strings.TrimPrefix(str_yyyy, "-")) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
-- 
2.43.0


From 353f7bd1fdfed7982884f650d794eaf0752dd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 08/25] fix: test the range of exponential years before
 converting them

The year was converted to an int64 first, and values that do not fit wrapped
around: "Y18446744073709553616E0" was parsed as the year 2000.
---
 common/exponential.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..492e922 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,13 +14,16 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// Test the range before converting: the conversion wraps around for values
+	// that do not fit in an int64 and allocates as many bits as the value has
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	max := big.NewFloat(float64(edtf.MAX_YEARS))
+	abs := new(big.Float).Abs(flt)
+
+	if abs.Cmp(max) > 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
-	yyyy_i := int(yyyy.Int64())
-	return yyyy_i, nil
+	yyyy, _ := flt.Int64()
+	return int(yyyy), nil
 }
-- 
2.43.0


From ca2a278eb98b371c8c5e6b0db7d1ad1f965c202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:23 +0000
Subject: [PATCH 09/25] fix: keep the four digit form of years that are parsed
 again

Features that derive an interval and have that parsed dropped the leading
zeros of years before 1000 (or counted the minus sign as a digit), so that
"-0100-21", "0500-28", "Y2E1" and "0950S2" were rejected.
---
 common/year.go               | 11 +++++++++++
 level1/season.go             |  2 +-
 level2/exponential_year.go   |  3 +--
 level2/significant_digits.go |  2 +-
 level2/sub_year_grouping.go  |  4 ++--
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..d7423ff 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -11,3 +12,13 @@ func FlipYear(yyyy int) int {
 func TimeToBCE(t time.Time) time.Time {
 	return t.AddDate(-2*t.Year(), 0, 0)
 }
+
+// YearString returns the (at least) four digit form of a year that EDTF strings use, for example "0042" or "-0042".
+func YearString(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..b13cd21 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.YearString(start_yyyy), start_mm, start_dd, common.YearString(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..18b0f8e 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -4,7 +4,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +46,7 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := common.YearString(yyyy)
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 1e4d7f8..12b2935 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -101,7 +101,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
+	str_yyyy = common.YearString(yyyy)
 
 	if digits > len(strings.TrimPrefix(str_yyyy, "-")) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..20a2897 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.YearString(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.YearString(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 7455dada134430b3b0a8f92ae902267b7ad3277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:25 +0000
Subject: [PATCH 10/25] fix: NotSet returns a NotSetError, so that IsNotSet
 recognises it

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From ae38816cd2a7651aac0e073a8bc7cb4bba7f9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:27 +0000
Subject: [PATCH 11/25] fix: 0X stands for 01 to 09

"1984-0X" was parsed as October to December 1984, and "1985-04-0X" rejected.
---
 common/range.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..bfeb237 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,14 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
+
 		} else {
 			start_mm = "10"
 			end_mm = "12"
@@ -391,6 +399,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
-- 
2.43.0


From 21f23bfec11063bbffb5f2f1c7c48dbc5683c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:29 +0000
Subject: [PATCH 12/25] fix: accept 2X as the days from the 20th of February

"1985-02-2X" was rejected because 1985-02-29 does not exist.
---
 common/range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/range.go b/common/range.go
index bfeb237..869888f 100644
--- a/common/range.go
+++ b/common/range.go
@@ -408,6 +408,10 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "2":
 			start_dd = "20"
 			end_dd = "29"
+
+			if end_mm == "02" {
+				end_dd = "" // leave blank to look up the last day of the month
+			}
 		case "3":
 			start_dd = "30"
 			end_dd = ""
-- 
2.43.0


From 1df8d8432ffc2b1cbbeea92804d700a56d80ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:31 +0000
Subject: [PATCH 13/25] fix: negate the year of a date and time before applying
 its time shift

"-1972-12-31T23:00:00-04" was parsed as -1973-01-01T03:00:00Z.
---
 level0/date_and_time.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..59a4675 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -69,12 +69,12 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	t = t.UTC()
-
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From ea12703f5289bd7f8893ec2b7d43a799ec6b3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:33 +0000
Subject: [PATCH 14/25] fix: an instant is neither before nor after itself

After and Before were not strict: "2021-10-10T00:24:00Z" was both before and
after "2021-10-10T00:24:00Z".
---
 edtf.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..1b4d667 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,14 +116,10 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
-// Before reports whether the EDTFDate instance `d` is after `u`.
+// Before reports whether the EDTFDate instance `d` is before `u`.
 func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 
 	if IsOpen(d.EDTF) {
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From 2a06c92645a7fefe728f7dfc28c22315e000f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:34 +0000
Subject: [PATCH 15/25] fix: reject sets with members that are not dates

The pattern allows for members to be empty, or to be run together, and these
were accepted as an unknown start ("[1667,]") or ignored when they are not the
first or last one ("[1667,16681669,1670]").
---
 level2/set_representation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..358481a 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -140,6 +140,13 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
+	for _, date := range possible {
+
+		if !re.Date.MatchString(date) {
+			return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+		}
+	}
+
 	sort.Strings(possible)
 	count := len(possible)
 
-- 
2.43.0


From 725c28896e0e300d4a30f2695a5b6c8514710bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:36 +0000
Subject: [PATCH 16/25] fix: reject sets whose brackets do not match, like
 "[1667}"

---
 level2/set_representation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 358481a..859a284 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -84,15 +84,23 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	inclusivity := edtf.NONE
 
+	closing := ""
+
 	switch class {
 	case "[":
 		inclusivity = edtf.ANY
+		closing = "]"
 	case "{":
 		inclusivity = edtf.ALL
+		closing = "}"
 	default:
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
+	if !strings.HasSuffix(edtf_str, closing) {
+		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
+	}
+
 	// this should be moved in to a separate method for getting
 	// the list of all possible dates - we only care about the
 	// bookends right now (20201231/thisisaaronland)
-- 
2.43.0


From f87cc95f51c6dcc85ec4952b369dd4e2c92854f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:38 +0000
Subject: [PATCH 17/25] fix: sets that are open at both ends

The start and end of "[..1667,1670..]" were one and the same range, whose
upper date was both not open and not set.
---
 level2/set_representation.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 859a284..6ce58a8 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -222,17 +222,20 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	if open_post_facto {
 
-		open_range := common.OpenDateRange()
+		switch {
+		case start_open && end_open:
+
+			sp = common.OpenDateSpan()
+
+		case start_open:
 
-		if start_open {
 			sp.End.Lower = sp.Start.Lower
-			sp.Start = open_range
-		}
+			sp.Start = common.OpenDateRange()
 
-		if end_open {
+		case end_open:
 
 			sp.Start.Upper = sp.End.Upper
-			sp.End = open_range
+			sp.End = common.OpenDateRange()
 		}
 	}
 
-- 
2.43.0


From 818c032e204b54f4632a397143440f09a612a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:39 +0000
Subject: [PATCH 18/25] fix: reject the promise with the error message

parse_edtf printed the message and rejected with the number of bytes written.
---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..e8c8872 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From 8aa61fb8f5e5fade52dd1ae26891acea821a42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:40 +0000
Subject: [PATCH 19/25] fix: release the promise handler of every call to
 parse_edtf

---
 cmd/parse-wasm/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index e8c8872..b469c77 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -39,6 +39,9 @@ func ParseFunc() js.Func {
 			return nil
 		})
 
+		// the promise invokes its handler before returning
+		defer handler.Release()
+
 		promiseConstructor := js.Global().Get("Promise")
 		return promiseConstructor.New(handler)
 	})
-- 
2.43.0


From 186e955e9a2cb4cebd00c9c82ed8520fb8a10338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:20 +0000
Subject: [PATCH 20/25] fix: parse date and times independently of the local
 time zone

---
 level0/date_and_time.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 59a4675..5009fc7 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,7 +63,9 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	// Not time.Parse, which uses the local time zone where its shift is the same
+
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2820cb2d470cafef52d5b50dc680109b8fbb410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:26 +0000
Subject: [PATCH 21/25] fix: unspecified digits of negative years in intervals

---
 common/range.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/common/range.go b/common/range.go
index 869888f..cd19a5f 100644
--- a/common/range.go
+++ b/common/range.go
@@ -265,6 +265,8 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	} else {
 
+		digits := strings.TrimPrefix(yyyy, "-")
+
 		start_m := int64(0)
 		end_m := int64(0)
 
@@ -277,11 +279,11 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		start_y := int64(0)
 		end_y := int64(9)
 
-		if string(yyyy[0]) == "X" {
+		if string(digits[0]) == "X" {
 			return nil, edtf.NotImplemented("date", edtf_str)
 		} else {
 
-			m, err := strconv.ParseInt(string(yyyy[0]), 10, 32)
+			m, err := strconv.ParseInt(string(digits[0]), 10, 32)
 
 			if err != nil {
 				return nil, err
@@ -294,9 +296,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			precision.AddFlag(edtf.MILLENIUM)
 		}
 
-		if string(yyyy[1]) != "X" {
+		if string(digits[1]) != "X" {
 
-			c, err := strconv.ParseInt(string(yyyy[1]), 10, 32)
+			c, err := strconv.ParseInt(string(digits[1]), 10, 32)
 
 			if err != nil {
 				return nil, err
@@ -309,9 +311,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			precision.AddFlag(edtf.CENTURY)
 		}
 
-		if string(yyyy[2]) != "X" {
+		if string(digits[2]) != "X" {
 
-			d, err := strconv.ParseInt(string(yyyy[2]), 10, 32)
+			d, err := strconv.ParseInt(string(digits[2]), 10, 32)
 
 			if err != nil {
 				return nil, err
@@ -324,9 +326,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			precision.AddFlag(edtf.DECADE)
 		}
 
-		if string(yyyy[3]) != "X" {
+		if string(digits[3]) != "X" {
 
-			y, err := strconv.ParseInt(string(yyyy[3]), 10, 32)
+			y, err := strconv.ParseInt(string(digits[3]), 10, 32)
 
 			if err != nil {
 				return nil, err
@@ -342,11 +344,15 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		start_ymd := start_m + start_c + start_d + start_y
 		end_ymd := end_m + end_c + end_d + end_y
 
+		if strings.HasPrefix(yyyy, "-") {
+			start_ymd, end_ymd = -end_ymd, -start_ymd
+		}
+
 		// fmt.Printf("OMG '%s' '%d' '%d' '%d' '%d' '%d'\n", yyyy, start_m, start_c, start_d, start_y, start_ymd)
 		// fmt.Printf("WTF '%s' '%d' '%d' '%d' '%d' '%d'\n", yyyy, end_m, end_c, end_d, end_y, end_ymd)
 
-		start_yyyy = strconv.FormatInt(start_ymd, 10)
-		end_yyyy = strconv.FormatInt(end_ymd, 10)
+		start_yyyy = YearString(int(start_ymd))
+		end_yyyy = YearString(int(end_ymd))
 
 	}
 
-- 
2.43.0


From 7a4a11d4555c90a49ff462f58b4d60e849bbbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:24 +0000
Subject: [PATCH 22/25] fix: text before the first hyphen taken for a negative
 year ("1985-04-12") by DaysInMonthWithString

---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 75d3866..21949e6 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -19,6 +19,10 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 
 	switch len(ym) {
 	case 3:
+		if ym[0] != "" {
+			return 0, errors.New("Invalid YYYYMM string")
+		}
+
 		str_yyyy = fmt.Sprintf("-%s", ym[1])
 		str_mm = ym[2]
 	case 2:
-- 
2.43.0


From af9591d624a84e967fb5f4721e838c1d2df3e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:24 +0000
Subject: [PATCH 23/25] fix: DaysInMonth reported 31 days for months that do
 not exist

---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 21949e6..e13141d 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -50,6 +50,10 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 // Calculate the number of days in a month given a year and month in numeric form.
 func DaysInMonth(yyyy int, mm int) (int, error) {
 
+	if mm < 1 || mm > 12 {
+		return 0, errors.New("Invalid month")
+	}
+
 	// Because Go can't parse dates < 0...
 
 	if yyyy < 0 {
-- 
2.43.0


From bf0d6fe93e7cb4ae1a99e7117f48ddcb3271ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:49 +0000
Subject: [PATCH 24/25] fix: a leading hyphen in a YMD string is the sign of
 the year

common.YMDFromString ignored whatever came before the first of three hyphens
("abc-1985-01-02" was read as the year -1985) and refused negative years
without a month and day ("-1985", "-1985-06").
---
 common/ymd.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..5f8669e 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,13 +18,18 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
+	// A leading hyphen is the sign of the year, all the others are separators
+
+	sign := ""
+
+	if strings.HasPrefix(str_ymd, "-") {
+		sign = "-"
+		str_ymd = strings.TrimPrefix(str_ymd, "-")
+	}
+
 	parts := strings.Split(str_ymd, "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
 		yyyy = parts[0]
 		mm = parts[1]
@@ -38,7 +43,7 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 		return nil, errors.New("Invalid YMD string")
 	}
 
-	return YMDFromStrings(yyyy, mm, dd)
+	return YMDFromStrings(sign+yyyy, mm, dd)
 }
 
 func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, error) {
-- 
2.43.0


From 76bb3b43f213818da5e3a935a15d952b5d4adc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:50 +0000
Subject: [PATCH 25/25] fix: days below one are not days of a month

common.YMDFromStrings accepted a negative day.
---
 common/ymd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ymd.go b/common/ymd.go
index 5f8669e..c82da0a 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -139,7 +139,7 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
-		if dd > days {
+		if dd < 1 || dd > days {
 			return nil, errors.New("Invalid days for month")
 		}
 	}
-- 
2.43.0

