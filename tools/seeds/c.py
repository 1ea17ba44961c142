BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde))

bug("c08-julian-bc", "C08", "parse.rs", "                    self.t_mask = DTK_DATE_M;\n                    let (y, m, d) = julian2date(val);\n                    tm.set_ymd(y, m, d);\n                    self.is_julian = true;\n",
    "                    self.t_mask = DTK_DATE_M;\n                    let (y, m, d) = julian2date(val);\n                    tm.set_ymd(y, m, d);\n",
    [('d("J1", YMD)', "4714-11-25 BC"), ('d("J1721060", YMD)', "0001-01-01 BC")], "a Julian day before the year 1", "it is rejected", nth=0)
bug("c04-fraction", "C04", "parse.rs", "    let fsec = (frac * 1_000_000.0).round() as i64;", "    let fsec = (frac * 1_000_000.0) as i64;",
    [('t("00:00:00.000251")', "00:00:00.000251"), ('t("00:00:00.001001")', "00:00:00.001001"), ('t("00:00:00.009033")', "00:00:00.009033"), ('t("00:00:00.004063")', "00:00:00.004063")], "a fraction whose product with a million is just below a whole number", "a microsecond is lost")
bug("c04-hour-pad", "C04", "time.rs", "        time -= tm.sec as i64 * USECS_PER_SEC;\n        *fsec = time;", "        time -= tm.sec as i64 * USECS_PER_SEC;\n        *fsec = if tm.hour > 23 { 0 } else { time / 2 * 2 + (time & 1) * (tm.sec < 60) as i64 };",
    [], "unused", "unused")
BUGS.pop()
bug("c21-early-time", "C21", "time.rs", "        if value.is_infinite() {\n            return Ok(None);", "        if value > Timestamp::try_from_ymd_hms(294276, 12, 31, 23, 59, 59.0)? {\n            return Ok(None);",
    [('o(|| { let v: Option<Time> = e(TryFrom::try_from(mts("-infinity")))?; Ok(format!("{:?}", v.is_none())) })', "true"), ('o(|| { let v: Option<Time> = e(TryFrom::try_from(mts("294276-12-31 23:59:59.5")))?; Ok(format!("{:?}", v.is_none())) })', "false")], "the time of day of -infinity", "an error instead of none")
bug("c21-early-date", "C21", "timestamp.rs", "DateUnit::IsoYear\n            | DateUnit::Epoch => {\n                if is_negative {", "DateUnit::IsoYear\n            | DateUnit::Epoch => {\n                if is_negative && unit != DateUnit::IsoYear {",
    [('o(|| num(mts("-infinity").date_part(FieldType::Unit, DateUnit::IsoYear)))', "-inf")], "the ISO year of -infinity", "it is plus infinity")
bug("c21-date-to-ts", "C21", "timestamp.rs", "DATE_TIME_BEGIN_VAL", "DATE_TIME_END_VAL", [], "x", "x")
BUGS.pop()
bug("c16-sec-round", "C16", "interval.rs", "        let mut sec_remainder = timestamp_round(sec_remainder);", "        let mut sec_remainder = (sec_remainder * 1000.0).round() / 1000.0;",
    [('o(|| fi(e(mi("1 day").mul_f64(0.0000001))?))', "00:00:00.00864")], "a small fraction of a day", "the microseconds are lost")
bug("c07-cache-suffix", "C07", "parse.rs", "        if tp.is_none() || key != tp.unwrap().token {", "        if tp.is_none() || !tp.unwrap().token.starts_with(key) {",
    [('o(|| { let _ = Date::try_from_str("1 march 2001", DMY); e(e(Date::try_from_str("1 marc 2001", DMY))?.format(ISO, YMD)) })', "Err"), ('o(|| { let _ = Timestamp::try_from_str("2001-03-04 pm", -1, YMD); let _ = Date::try_from_str("september 3 2001", MDY); e(e(Date::try_from_str("s 3 2001", MDY))?.format(ISO, YMD)) })', "Err")],
    "two texts of which the second has a word cut short of the first one's at the same place", "the cut word is accepted")
bug("c09-pm-noon-minute", "C09", "parse.rs", "} else if ctx.mer == PM && tm.hour != HOURS_PER_DAY / 2 {", "} else if ctx.mer == PM && tm.hour < HOURS_PER_DAY / 2 - (tm.min > 58) as i32 {",
    [('t("11:59 PM")', "23:59:00")], "one minute to midnight as PM", "it stays in the morning", nth=1)
bug("c26-sixty", "C26", "time.rs", "            || s > SECS_PER_MINUTE as f64\n", "            || s >= SECS_PER_MINUTE as f64\n",
    [('o(|| e(e(Time::try_from_hms(1, 2, 60.0))?.format(ISO)))', "01:03:00")], "second 60", "it is rejected")
bug("c26-leap-feb", "C26", "timestamp.rs", "            || second > SECS_PER_MINUTE as f64\n", "            || second.ceil() > SECS_PER_MINUTE as f64 || second.is_sign_negative()\n",
    [('o(|| ft(e(Timestamp::try_from_ymd_hms(2001, 1, 1, 1, 2, -0.0))?))', "2001-01-01 01:02:00")], "minus zero seconds", "it is rejected")
bug("c03-iso-bc-year", "C03", "timestamp.rs", "            // Compatible with ISO-8601 date formats\n            offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);", "            // Compatible with ISO-8601 date formats\n            offset += pg_ltostr_zeropad(&mut s[offset..], year % 100_000, 4);",
    [('ts("234567-01-02 03:04:05", YMD)', "234567-01-02 03:04:05")], "a year above 99999", "the year loses its first digit")
bug("c01-far-month", "C01", "common.rs", "const JULIAN_MAX_MONTH: i32 = 6;", "const JULIAN_MAX_MONTH: i32 = 5;", [], "unused", "unused")
BUGS.pop()
bug("c01-doy-march", "C01", "common.rs", "        (julian + 306) % 366 + 123\n", "        (julian + 305) % 366 + 123\n", [('o(|| fd(Date::from(59)))', "2000-02-29")], "unused", "unused")
BUGS.pop()
bug("c01-weekday-negative", "C19", "common.rs", "    let mut date = date + 1;\n    date %= 7;\n    // Cope if division truncates towards zero, as it probably does.\n    if date < 0 {", "    let mut date = date + 1;\n    date %= 7;\n    // Cope if division truncates towards zero, as it probably does.\n    if date <= -7 {",
    [('o(|| num(md("4714-11-24 BC").date_part(FieldType::Unit, DateUnit::Week)))', "48")], "weeks near the first supported date", "the week is wrong")
BUGS[-1]["id"] = "c19-first-weeks"
bug("c20-ms", "C20", "common.rs", "        *fsec = (*fsec / 1000) * 1000;", "        *fsec = (*fsec as f32 / 1000.0) as i64 * 1000;",
    [('o(|| ft(e(mts("2001-01-01 00:00:00.999999").truncate(FieldType::Unit, DateUnit::MilliSec))?))', "2001-01-01 00:00:00.999")], "unused", "unused")
BUGS.pop()
bug("c25-century", "C25", "common.rs", "        self.year = (self.year / 100) * 100;\n        self.truncate_interval_decade", "        self.year -= self.year.rem_euclid(100);\n        self.truncate_interval_decade",
    [('o(|| fi(e(mi("-150 years").truncate(FieldType::Unit, DateUnit::Century))?))', "-100 years")], "truncating a negative interval to a century", "it moves away from zero")
bug("c23-last-day", "C23", "timestamp.rs", "if value.value() >= TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE {", "if value.value() >= TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE - 1 {",
    [('o(|| ft(e(Timestamp::try_from(md("294276-12-31")))?))', "294276-12-31 00:00:00")], "the last day of the timestamp range", "it is rejected")
bug("c18-month-days", "C18", "interval.rs", "        let left: i128 = From::from(*self);\n        let right: i128 = From::from(*other);\n        left.cmp(&right)", "        let left: i128 = From::from(*self);\n        let right: i128 = From::from(*other);\n        left.cmp(&right).then(self.month.cmp(&other.month))",
    [('o(|| Ok(format!("{:?}", mi("1 mon").cmp(&mi("30 days")))))', "Equal")], "a month and thirty days", "equal intervals are ordered")
bug("c17-hours-sign", "C17", "interval.rs", "        } else if result.day < 0 && result.time > 0 {\n            result.time -= USECS_PER_DAY;\n            result.day += 1;\n        }\n        result\n", "        } else if result.day < 0 && result.time > USECS_PER_SEC {\n            result.time -= USECS_PER_DAY;\n            result.day += 1;\n        }\n        result\n",
    [('o(|| fi(mi("-1 day 0:00:00.5").justify_hours()))', "-23:59:59.5")], "negative days and a second or less", "the signs stay mixed")
bug("c05-postgres-minus", "C05", "interval.rs", "let minus = hour < 0 || min < 0 || sec < 0 || fsec < 0;", "let minus = hour < 0 || min < 0 || sec < 0;",
    [('iv("-0.25 s")', "-00:00:00.25")], "a negative fraction of a second", "the sign is lost")
bug("c10-frac-days-week", "C10", "parse.rs", "adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;", "adjust_fract_days(*f_val, tm, f_sec, if val < 0 { 31 } else { DAYS_PER_MONTH })?;",
    [('iv("-1.5 mons")', "-1 mons -15 days")], "a negative fraction of months", "a month has 31 days", nth=0)
