# Planted bugs, first batch: at least one per property.
BUGS = []
def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, **k):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, nth=nth, cases=cases, needs=needs, breaks=breaks, **k))

bug("c01-leap-bc", "C01", "common.rs", "(y % 400) == 0)", "(y > 0 && y % 400 == 0))",
    [("o(|| fd(e(Date::try_from_ymd(-401, 2, 29))?))", "0401-02-29 BC"), ("o(|| fd(e(Date::try_from_ymd(-301, 2, 29))?))", "Err")],
    "29 February of 1 BC, 401 BC, 801 BC, ...", "an existing leap day before year 1 is rejected")
bug("c01-first-days", "C01", "common.rs", "const JULIAN_MIN_MONTH: i32 = 11;", "const JULIAN_MIN_MONTH: i32 = 12;",
    [("o(|| fd(e(Date::try_from_ymd(-4714, 11, 30))?))", "4714-11-30 BC")],
    "the first seven supported days, 4714-11-24 to 4714-11-30 BC", "supported dates are rejected")
bug("c02-german-1bc", "C02", "date.rs", "let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };", "let year = if tm.year >= 0 { tm.year } else { -(tm.year - 1) };",
    [('o(|| e(e(Date::try_from_ymd(-1, 5, 6))?.format(German, DMY)))', "06.05.0001 BC")],
    "a date of 1 BC printed in German style", "the year prints as 0000 BC, which does not read back", nth=2)
bug("c02-bc-suffix", "C02", "date.rs", "    if tm.year <= 0 {\n        offset = copy_slice(s, offset, b\" BC\");", "    if tm.year < 0 {\n        offset = copy_slice(s, offset, b\" BC\");",
    [('o(|| e(e(Date::try_from_ymd(-1, 5, 6))?.format(ISO, YMD)))', "0001-05-06 BC")],
    "a date of 1 BC", "the era is not printed and the text reads back as 1 AD")
bug("c03-last-day-before-2000", "C03", "parse.rs", "    if time < 0 {\n        time += USECS_PER_DAY;", "    if time < 0 && date < 0 {\n        time += USECS_PER_DAY;",
    [('o(|| ft(Timestamp::from(-1)))', "1999-12-31 23:59:59.999999")],
    "a time of day on 1999-12-31", "the time prints as negative on 2000-01-01")
bug("c03-sql-bc", "C03", "timestamp.rs", "let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };", "let year = if tm.year > 0 { tm.year } else { -tm.year };",
    [('o(|| e(mts("0002-03-04 05:06:07 BC").format(SQL, DMY)))', "04/03/0002 05:06:07 BC")],
    "a timestamp before year 1 in SQL style", "the printed year is one too recent", nth=1)
bug("c03-usec-zero", "C03", "common.rs", "            if remainder != 0 {\n                got_nonzero = true;", "            if remainder != 0 || precision == 0 {\n                got_nonzero = true;",
    [('o(|| ft(Timestamp::from(100)))', "2000-01-01 00:00:00.0001"), ('t("01:02:03.00002")', "01:02:03.00002")],
    "a fraction whose leading digit alone is zero-padded", "unused: placeholder")
BUGS.pop()
bug("c05-sql-negative-fraction", "C05", "interval.rs", "year < 0 || mon < 0 || mday < 0 || hour < 0 || min < 0 || sec < 0 || fsec < 0;", "year < 0 || mon < 0 || mday < 0 || hour < 0 || min < 0 || sec < 0;",
    [('o(|| e(mi("-0.5 sec").format(IntervalStyle::SQLStandard)))', "-0:00:00.5")], "an interval whose only negative part is the fraction", "it prints as zero")
bug("c05-iso-fraction", "C05", "interval.rs", "if sec < 0 || fsec < 0 {\n                    offset = set_one_byte(s, offset, b'-');", "if sec < 0 {\n                    offset = set_one_byte(s, offset, b'-');",
    [('o(|| e(mi("1 day -0.5 sec").format(IntervalStyle::ISO8601)))', "P1DT-0.5S")], "a negative fraction with no whole seconds in ISO 8601 style", "the sign of the fraction is lost")
bug("c06-digits", "C06", "parse.rs", "    if integral.len() > 10 {\n        return Err(DateTimeError::overflow());\n    }\n\n    let (fractional", "    if integral.len() > 19 {\n        return Err(DateTimeError::overflow());\n    }\n\n    let (fractional",
    [('i("P9999999999999999999Y", -1, IntervalStyle::ISO8601)', "Err"), ('i("P99999999999999.1234567Y", -1, IntervalStyle::ISO8601)', "Err")], "an ISO 8601 duration with a number of 13 to 19 digits", "reading it overflows instead of giving an error")
bug("c07-delta-cache", "C07", "parse.rs", "if t.is_none() || t.unwrap().token != key {", "if t.is_none() || !t.unwrap().token.starts_with(key) {",
    [('{ iv("1 mon"); iv("1 m") }', "00:01:00")], "reading '1 mon' and then '1 m' on the same thread", "the second text reads as what the first one meant")
bug("c08-31-jan", "C08", "parse.rs", "&& tm.mon <= 31", "&& tm.mon < 31",
    [('d("31 Jan 1999", MDY)', "1999-01-31"), ('d("30 Jan 1999", MDY)', "1999-01-30")], "a 31st written before a month name under month-day order", "a correct date is rejected")
bug("c08-doy-366", "C08", "parse.rs", "val >= 1 && val <= 366", "val >= 1 && val < 366",
    [('d("2000 366", YMD)', "2000-12-31")], "the last day of a leap year as day-of-year", "it is not read as a day of year")
bug("c08-year-70", "C08", "common.rs", "if self.year < 70 {", "if self.year <= 70 {",
    [('d("1/2/70", MDY)', "1970-01-02"), ('d("1/2/69", MDY)', "2069-01-02")], "the two-digit year 70", "reads as 2070")
bug("c09-second-60", "C09", "parse.rs", "        || tm.sec < 0\n        || tm.sec > SECS_PER_MINUTE\n        || *f_sec < 0", "        || tm.sec < 0\n        || tm.sec >= SECS_PER_MINUTE\n        || *f_sec < 0",
    [('t("04:05:60")', "04:06:00")], "the second 60", "it is rejected")
bug("c09-noon-timestamp", "C09", "parse.rs", "} else if ctx.mer == PM && tm.hour != HOURS_PER_DAY / 2 {", "} else if ctx.mer == PM && tm.hour + HOURS_PER_DAY / 2 <= HOURS_PER_DAY {",
    [('ts("2001-02-03 12:00 PM", YMD)', "2001-02-03 12:00:00")], "exactly noon as 12 PM in a timestamp", "it reads as the following midnight", nth=0)
bug("c10-half-week", "C10", "parse.rs", "adjust_fract_days(*f_val, tm, f_sec, 7)?;", "adjust_fract_seconds(*f_val, tm, f_sec, 7 * SECS_PER_DAY)?;",
    [('iv("0.5 week")', "3 days 12:00:00")], "a fractional number of weeks", "the days are hours")
bug("c10-year-month-sign", "C10", "parse.rs", "            if field[0] == b'-' {\n                val2 = -val2", "            if val < 0 {\n                val2 = -val2",
    [('iv("-0-5")', "-5 mons")], "a negative year-month literal with zero years", "the months lose their sign")
bug("c10-milliseconds", "C10", "parse.rs", "            val -= (val / 1000) * 1000;\n", "            if val > 1000 {\n                val -= (val / 1000) * 1000;\n            }\n",
    [('iv("-1500 ms")', "-00:00:01.5"), ('iv("1000 ms")', "00:00:01")], "negative milliseconds below -1000 or exactly 1000", "the whole seconds count twice")
bug("c11-clamp-year", "C11", "timestamp.rs", "let max_mon_days = days_of_month(tm.year, tm.mon);", "let max_mon_days = days_of_month(year, tm.mon);",
    [('o(|| ft(e(mts("2000-02-29 00:00:00").add_interval(mi("12 mons")))?))', "2001-02-28 00:00:00"), ('o(|| ft(e(mts("2001-01-31 00:00:00").add_interval(mi("-11 mons")))?))', "2000-02-29 00:00:00")],
    "adding months that cross between a leap and a common year into February", "the day of month is clamped to the wrong February",
    edits=[("timestamp.rs", "                tm.mon = tm.mon.wrapping_add(span.month());\n", "                let year = tm.year;\n                tm.mon = tm.mon.wrapping_add(span.month());\n", None),
           ("timestamp.rs", "let max_mon_days = days_of_month(tm.year, tm.mon);", "let max_mon_days = days_of_month(year, tm.mon);", None)])
bug("c12-age-borrow", "C12", "timestamp.rs", "tm.mday += days_of_month(tm2.year, tm2.mon);", "tm.mday += days_of_month(tm1.year, tm2.mon);",
    [('o(|| fi(e(mts("2001-03-01 00:00:00").age(mts("2000-02-15 00:00:00")))?))', "1 year 15 days")], "an age that borrows from February across a leap-year boundary", "the days are one off")
bug("c12-difference-sign", "C12", "interval.rs", "        if result.day > 0 && result.time < 0 {", "        if result.day > 1 && result.time < 0 {",
    [('o(|| fi(mi("1 day -5:00").justify_hours()))', "19:00:00")], "one day and a negative time", "signs stay mixed")
BUGS[-1]["property"] = "C17"; BUGS[-1]["id"] = "c17-one-day"
bug("c13-sub-days", "C13", "date.rs", "let result = self.value().checked_sub(days);", "let result = self.value().checked_add(days.wrapping_neg());",
    [('o(|| fd(e(md("4714-11-24 BC").sub_days(i32::MIN))?))', "Err"), ('o(|| e(md("2000-01-01").sub_days(i32::MIN)).map(|_| "Ok".to_string()))', "Err")],
    "subtracting the smallest integer", "unused")
BUGS.pop()
bug("c14-full-day", "C14", "time.rs", "        if result < 0 {\n            result += USECS_PER_DAY;\n        }", "        if result <= 0 {\n            result += USECS_PER_DAY;\n        }",
    [('o(|| e(mt("05:00:00").sub_interval(mi("5 hours")).format(ISO)))', "00:00:00")], "a difference that is exactly midnight", "it gives 24:00:00", nth=1)
bug("c15-sub-min", "C15", "interval.rs", "let day = self.day.checked_sub(span.day);", "let day = self.day.checked_add(span.day.wrapping_neg());",
    [('o(|| fi(e(ri(0, 0, 0).sub_interval(ri(0, i32::MIN, 0)))?))', "Err"), ('o(|| fi(e(ri(0, -1, 0).sub_interval(ri(0, i32::MIN, 0)))?))', "2147483647 days")], "subtracting an interval with the smallest number of days", "a wrapped value instead of an error, or an error instead of a value")
bug("c16-div-carry", "C16", "interval.rs", "if sec_remainder.abs() >= SECS_PER_DAY as f64 {", "if sec_remainder.abs() > SECS_PER_DAY as f64 {",
    [('o(|| fi(e(ri(1, 15, 0).div_f64(4.0))?))', "11 days 06:00:00"), ('o(|| fi(e(ri(5, 31, 0).div_f64(2.0))?))', "2 mons 30 days 12:00:00"), ('o(|| fi(e(ri(1, 2, 0).div_f64(4.0))?))', "8 days")], "fractions of months and days that add up to exactly one day", "24:00:00 is not carried into the days", nth=1)
bug("c17-zero-month", "C17", "interval.rs", "        if result.month > 0 && result.day < 0 {", "        if result.month >= 0 && result.day < 0 {",
    [('o(|| fi(mi("-5 days").justify_days()))', "-5 days"), ('o(|| fi(mi("-35 days").justify_days()))', "-1 mons -5 days")], "negative days and no months", "the months and days get opposite signs")
bug("c18-i64-month", "C18", "interval.rs", "v += span.month() as i128 * DAYS_PER_MONTH as i128 * USECS_PER_DAY as i128;", "v += (span.month() as i64).wrapping_mul(DAYS_PER_MONTH as i64 * USECS_PER_DAY) as i128;",
    [('o(|| Ok(format!("{:?}", ri(4_000_000, 0, 0).cmp(&ri(0, 5, 0)))))', "Greater")], "intervals of more than about 3.5 million months", "the order wraps around")
bug("c18-partial-order", "C18", "interval.rs", "        let left: i128 = From::from(*self);\n        let right: i128 = From::from(*other);\n        left.partial_cmp(&right)", "        let left = (self.month as i64 * DAYS_PER_MONTH as i64 + self.day as i64, self.time);\n        let right = (other.month as i64 * DAYS_PER_MONTH as i64 + other.day as i64, other.time);\n        left.partial_cmp(&right)",
    [('o(|| Ok(format!("{:?}", mi("1 day").partial_cmp(&mi("30 hours")))))', "Some(Less)"), ('o(|| Ok(format!("{:?}", mi("1 day").partial_cmp(&mi("24 hours")))))', "Some(Equal)")], "comparing days with a time of a day or more", "the partial order disagrees with the order")
bug("c19-century-bc", "C19", "timestamp.rs", "Ok((-((99 - (tm.year - 1)) / 100)) as f64)", "Ok((-((100 - (tm.year - 1)) / 100)) as f64)",
    [('o(|| num(mts("0100-06-01 00:00:00 BC").date_part(FieldType::Unit, DateUnit::Century)))', "-1"), ('o(|| num(mts("0101-06-01 00:00:00 BC").date_part(FieldType::Unit, DateUnit::Century)))', "-2")], "the years 100 BC, 200 BC, ...", "they are put into the century before")
bug("c20-decade-bc", "C20", "common.rs", "self.year = -((8 - (self.year - 1)) / 10) * 10;", "self.year = -((9 - (self.year - 1)) / 10) * 10;",
    [('o(|| ft(e(mts("0011-06-01 00:00:00 BC").truncate(FieldType::Unit, DateUnit::Decade))?))', "0011-01-01 00:00:00 BC"), ('o(|| ft(e(mts("0012-06-01 00:00:00 BC").truncate(FieldType::Unit, DateUnit::Decade))?))', "0021-01-01 00:00:00 BC")], "a year that starts a decade before year 1", "truncation goes one decade too far")
bug("c20-week-52", "C20", "common.rs", "if woy >= 52 && self.mon == 1 {", "if woy > 52 && self.mon == 1 {",
    [('o(|| fd(e(md("2000-01-02").truncate(FieldType::Unit, DateUnit::Week))?))', "1999-12-27"), ('o(|| fd(e(md("2010-01-02").truncate(FieldType::Unit, DateUnit::Week))?))', "2009-12-28")], "the first days of January that belong to week 52", "truncation moves almost a year forward")
bug("c22-interval-style", "C22", "serde.rs", "Interval::try_from_str(v, -1, IntervalStyle::SQLStandard).map_err", "Interval::try_from_str(v, -1, IntervalStyle::Postgres).map_err",
    [('o(|| fi(e(serde_json::from_str::<Interval>(&e(serde_json::to_string(&mi("-1 day -2:03:04")))?))?))', "-1 days -02:03:04")], "an interval with negative days and time in JSON", "the time comes back positive", serde=True)
bug("c22-date-order", "C22", "serde.rs", "Timestamp::try_from_str(v, -1, DateOrder::YMD).map_err", "Timestamp::try_from_str(v, 3, DateOrder::YMD).map_err",
    [('o(|| ft(e(serde_json::from_str::<Timestamp>("\\"2001-02-03 04:05:06.789012\\""))?))', "2001-02-03 04:05:06.789012")], "a timestamp with microseconds in JSON", "the microseconds are lost", serde=True)
bug("c23-range", "C23", "timestamp.rs", "if value.value() >= TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE {", "if value.value() > TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE {",
    [('o(|| e(Timestamp::try_from(md("294277-01-01"))).map(|v| i64::from(v).to_string()))', "Err")], "the first date beyond the timestamp range", "an invalid timestamp is returned")
bug("c23-to-date", "C23", "date.rs", "            let result = date2julian(tm.year, tm.mon, tm.mday) - POSTGRES_EPOCH_JDATE;\n            Ok(Date::new(result))", "            let result = (value.value() / 86_400_000_000) as i32;\n            Ok(Date::new(result))",
    [('o(|| fd(e(Date::try_from(mts("1999-12-31 23:00:00")))?))', "1999-12-31")], "a timestamp before 2000 with a time of day", "the date is a day late")
bug("c24-ties", "C24", "time.rs", "[500_000, 50_000, 5000, 500, 50, 5, 0];", "[500_000, 50_000, 5000, 500, 49, 5, 0];",
    [('tp("00:00:00.00005", 4)', "00:00:00.0001")], "a tie at precision 4", "it rounds down")
bug("c24-negative", "C24", "interval.rs", "                    self.time = -(((-self.time + INTERVAL_OFFSETS[precision as usize])\n", "                    self.time = -(((-self.time + (INTERVAL_OFFSETS[precision as usize] - 1).max(0))\n",
    [('i("-0.0005 sec", 3, IntervalStyle::Postgres)', "Err"), ('i("-0.0005 sec", (0x7FFF<<16)|3, IntervalStyle::Postgres)', "-00:00:00.001")], "a negative tie", "it rounds towards zero")
bug("c25-negative-years", "C25", "common.rs", "        self.year = (self.year / 10) * 10;\n        self.truncate_interval_year(fsec)", "        self.year = self.year.div_euclid(10) * 10;\n        self.truncate_interval_year(fsec)",
    [('o(|| fi(e(mi("-15 years").truncate(FieldType::Unit, DateUnit::Decade))?))', "-10 years")], "truncating a negative interval to a decade", "it moves away from zero")
bug("c26-after-24", "C26", "timestamp.rs", "|| (hour == HOURS_PER_DAY && (minute > 0 || second > 0.0))", "|| (hour == HOURS_PER_DAY && (minute > 0 || second >= 1.0))",
    [('o(|| ft(e(Timestamp::try_from_ymd_hms(2001, 1, 1, 24, 0, 0.5))?))', "Err")], "24:00 with less than a second", "it is accepted")
bug("c27-plural", "C27", "interval.rs", "if sec.abs() != 1 || fsec != 0 {", "if sec != 1 || fsec != 0 {",
    [('o(|| e(mi("-1 sec").format(IntervalStyle::PostgresVerbose)))', "@ 1 sec ago")], "exactly minus one second in verbose style", "the wrong word")
bug("c27-plus", "C27", "interval.rs", "    *is_before = value < 0;\n    *is_zero = false;", "    *is_before |= value < 0;\n    *is_zero = false;",
    [('o(|| fi(ri(-1, 2, 3_000_000)))', "-1 mons +2 days 00:00:03")], "three parts of which only the first is negative", "an extra plus sign")
