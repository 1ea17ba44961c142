BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde))

# C13, C21: days and infinities
bug("c13-reach-infinity", "C13", "date.rs", "        if date_ret.is_valid() {", "        if date_ret.is_valid() || date_ret.is_infinite() {",
    [('o(|| fd(e(Date::from(1).add_days(i32::MAX - 1))?))', "Err"), ('o(|| fd(e(Date::from(-1).add_days(i32::MIN + 1))?))', "Err")],
    "a date and a number of days whose sum is exactly the value that stands for infinity", "a finite date becomes infinite")
bug("c13-sub-infinite", "C21", "date.rs", "if self.is_infinite() || date.is_infinite() {", "if self.is_infinite() || date == DATE_END_VAL {",
    [('o(|| e(md("1999-01-01").sub_date(md("-infinity"))).map(|v| v.to_string()))', "Err")], "a date before 2000 minus -infinity", "a difference of days instead of an error")
BUGS[-1]["id"] = "c21-sub-early"
bug("c21-sub-one-infinite", "C21", "timestamp.rs", "if self.is_infinite() || timestamp.is_infinite() {\n            return Err(DateTimeError::invalid(format!(\n                \"sub have",
    "if self.is_infinite() && timestamp.is_infinite() {\n            return Err(DateTimeError::invalid(format!(\n                \"sub have",
    [('o(|| fi(e(mts("2000-01-02 00:00:00").sub_timestamp(mts("infinity")))?))', "Err")], "a finite minus an infinite timestamp", "a finite difference")
bug("c21-julian-part", "C21", "timestamp.rs", "            | DateUnit::Doy\n            | DateUnit::Tz\n", "            | DateUnit::Doy\n            | DateUnit::JULIAN\n            | DateUnit::Tz\n",
    [('o(|| num(mts("-infinity").date_part(FieldType::Unit, DateUnit::JULIAN)))', "-inf")], "the Julian day of an infinite timestamp", "it is zero",
    edits=[("timestamp.rs", "            | DateUnit::Doy\n            | DateUnit::Tz\n", "            | DateUnit::Doy\n            | DateUnit::JULIAN\n            | DateUnit::Tz\n", None),
           ("timestamp.rs", "            | DateUnit::Millennium\n            | DateUnit::JULIAN\n", "            | DateUnit::Millennium\n", None)])
bug("c21-special-case", "C08", "parse.rs", "                let buf = &mut current_buf[save_buf_pos..save_buf_pos + field_str.len()];\n", "                let buf = &mut current_buf[save_buf_pos..save_buf_pos + 1];\n",
    [('ts("-INFINITY", YMD)', "-infinity"), ('d("-Infinity", YMD)', "-infinity")], "-infinity in upper case", "it is rejected")
BUGS[-1]["id"] = "c08-upper-special"
# C08: dates
bug("c08-late-year", "C08", "parse.rs", "                    tm.year = val;\n                    *is2digits = false;\n", "                    tm.year = val;\n",
    [('d("08-Jan-0050", YMD)', "0050-01-08"), ('d("08-Jan-0099", YMD)', "0099-01-08")], "day-month name-year in year-month-day order, with a year below 100 written out", "the year moves to this or the last century")
bug("c08-day-as-month", "C08", "parse.rs", "                    && tm.mon <= 31\n", "                    && tm.mon <= 12\n",
    [('d("18 January 1999", MDY)', "1999-01-18")], "a day above 12 before a month name in month-day-year order", "it is rejected")
bug("c08-leap-doy", "C08", "parse.rs", "val >= 1 && val <= 366 {", "val >= 1 && val < 366 {",
    [('d("2000.366", YMD)', "2000-12-31"), ('d("2000-366", YMD)', "2000-12-31")], "the last day of a leap year as day of year", "it is rejected or misread")
bug("c08-century-70", "C08", "common.rs", "                if self.year < 70 {\n", "                if self.year <= 70 {\n",
    [('d("70-01-08", YMD)', "1970-01-08")], "the two-digit year 70", "2070 instead of 1970")
bug("c08-bc-century", "C08", "common.rs", "                // internally, we represent 1 BC as year zero, 2 BC as -1, etc.\n", "                if is2digits && self.year == 99 {\n                    self.year += 1900;\n                }\n",
    [('d("99-01-08 BC", YMD)', "0099-01-08 BC")], "a two-digit year before Christ", "the year gets a century")
BUGS.pop()
bug("c08-year-label", "C08", "parse.rs", "                    //already have a month and hour? then assume minutes.\n                    if (self.f_mask & TokenType::MONTH.mask()) != 0\n                        && (self.f_mask & TokenType::HOUR.mask()) != 0\n",
    "                    //already have a month and hour? then assume minutes.\n                    if (self.f_mask & TokenType::MONTH.mask()) != 0\n                        || (self.f_mask & TokenType::HOUR.mask()) != 0\n",
    [('ts("y2001 h4 m5 d6 mm7 s8", YMD)', "2001-05-06 04:07:08")], "labelled fields with the hour before the month", "the month is read as minutes")
bug("c08-julian-carry", "C08", "parse.rs", "                    self.t_mask = DTK_DATE_M;\n                    let (y, m, d) = julian2date(val);\n                    tm.set_ymd(y, m, d);\n                    self.is_julian = true;\n",
    "                    self.t_mask = DTK_DATE_M;\n                    let (y, m, d) = julian2date(val);\n                    tm.set_ymd(y, m, d);\n",
    [('d("J1", YMD)', "4714-11-25 BC"), ('d("J1721059", YMD)', "0001-12-31 BC")], "a Julian day before the year 1", "it is rejected", nth=0)
# C09: times
bug("c09-second-60-clock", "C09", "parse.rs", "        || tm.sec > SECS_PER_MINUTE\n        || *f_sec < 0\n", "        || tm.sec >= SECS_PER_MINUTE\n        || *f_sec < 0\n",
    [('t("04:05:60")', "04:06:00"), ('iv("0:00:60")', "00:01:00")], "a clock time with second 60", "it is rejected")
bug("c09-next-minute", "C09", "parse.rs", "|| *f_sec > USECS_PER_SEC\n", "|| *f_sec >= USECS_PER_SEC\n",
    [('t("04:05:06.9999999")', "04:05:07"), ('ts("2001-01-01 00:00:00.9999996", YMD)', "2001-01-01 00:00:01")], "a fraction that rounds up to a whole second", "it is rejected", nth=0)
bug("c09-midnight-am", "C09", "parse.rs", "    if ctx.mer == AM && tm.hour == HOURS_PER_DAY / 2 {\n", "    if ctx.mer == AM && tm.hour == HOURS_PER_DAY / 2 && tm.min == 0 {\n",
    [('t("12:30 AM")', "00:30:00"), ('t("12:00 AM")', "00:00:00")], "half past twelve at night as AM", "it is read as half past noon", nth=1)
bug("c09-compact-minute", "C09", "parse.rs", "            } else if field.len() > 4 {\n", "            } else if field.len() > 5 {\n",
    [('t("1230")', "12:30:00"), ('t("040506")', "04:05:06"), ('t("01234")', "Err")], "unused", "unused")
BUGS.pop()
# C10: intervals
bug("c10-space-sign", "C10", "parse.rs", "    let s = &s[1..];\n    let s = eat_whitespaces(s);\n    let mut buf_pos = 1;\n", "    let s = &s[1..];\n    let s = s.strip_prefix(b\" \").unwrap_or(s);\n    let mut buf_pos = 1;\n",
    [('iv("-\\t5 days")', "-5 days"), ('iv("-  5 days")', "-5 days")], "more than one blank between a sign and its number", "it is rejected")
bug("c10-decade-fraction", "C10", "parse.rs", "MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;", "MONTHS_PER_YEAR as f64).round() as i32 * 10)?;",
    [('iv("0.25 decade")', "2 years 6 mons"), ('iv("0.03 decade")', "3 mons")], "a fraction of a decade that is not a tenth of a month", "the months are multiples of ten",)
BUGS.pop()
bug("c10-sql-year-month-end", "C10", "parse.rs", "if val2 < 0 || val2 >= MONTHS_PER_YEAR {", "if val2 < 0 || val2 > MONTHS_PER_YEAR {",
    [('iv("1-12")', "Err"), ('iv("1-11")', "1 year 11 mons")], "a year-month literal with 12 months", "it is accepted")
bug("c10-sign-last", "C10", "parse.rs", "for field in fields.iter().skip(1) {\n            if !field.is_empty() && (field[0] == b'-' || field[0] == b'+') {", "for field in fields.iter().skip(1) {\n            if !field.is_empty() && field[0] == b'-' {",
    [('i("-1 +2:03:04", -1, IntervalStyle::SQLStandard)', "-1 days +02:03:04")], "a leading minus and a later plus in SQL style", "the plus is lost")
bug("c10-week-mask", "C10", "parse.rs", "            *t_mask = TokenType::WEEK.mask();", "            *t_mask = TokenType::DAY.mask();",
    [('iv("1 week 2 days")', "9 days")], "weeks and days together", "it is rejected")
bug("c10-subsecond-mask", "C10", "parse.rs", "            if *f_val == 0.0 {\n                *t_mask = TokenType::SECOND.mask();", "            if *f_val <= 0.0 {\n                *t_mask = TokenType::SECOND.mask();",
    [('iv("5 ms -1.5 s")', "Err"), ('iv("5 ms -1 s")', "-00:00:00.995")], "a negative fraction of a second and milliseconds", "the double input is accepted")
bug("c10-iso-basic-month", "C10", "parse.rs", "/ 100) % 100", "/ 100) % 10",
    [('iv("P00021103T040506")', "2 years 11 mons 3 days 04:05:06")], "an ISO duration in the basic format with a month above 9", "the tens are lost", nth=0)
bug("c10-hour-next", "C10", "parse.rs", "            adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;\n            *t_mask = TokenType::HOUR.mask();\n            *ty = TokenField::Day.value(); /* set for next field */\n", "            adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;\n            *t_mask = TokenType::HOUR.mask();\n",
    [('iv("3 4 hours")', "3 days 04:00:00")], "a number without a unit before hours", "it is rejected")
# C07
bug("c07-date-cache-prefix", "C07", "parse.rs", "        if tp.is_none() || key != tp.unwrap().token {", "        if tp.is_none() || !key.starts_with(tp.unwrap().token) {",
    [('o(|| { let _ = Date::try_from_str("1999 m 3 d 4", YMD); e(e(Date::try_from_str("1999 march 4", YMD))?.format(ISO, YMD)) })', "1999-03-04"),
     ('o(|| { let _ = Date::try_from_str("1 mar 2001", DMY); e(e(Date::try_from_str("1 marsh 2001", DMY))?.format(ISO, YMD)) })', "Err")],
    "two texts of which the second has a word that begins with the first one's at the same place", "the second word is taken for the first")
# C04 and printing
bug("c04-micro", "C04", "time.rs", "    offset += append_seconds(&mut str[offset..], tm.sec, fsec, MAX_TIME_PRECISION, true);", "    offset += append_seconds(&mut str[offset..], tm.sec, if fsec < 10 { 0 } else { fsec }, MAX_TIME_PRECISION, true);",
    [('t("00:00:00.000009")', "00:00:00.000009")], "a time with less than ten microseconds", "they are not printed")
bug("c04-last", "C04", "time.rs", "    let mut offset = pg_ltostr_zeropad(str, tm.hour, 2);", "    let mut offset = pg_ltostr_zeropad(str, tm.hour % 24, 2);",
    [('t("24:00:00")', "24:00:00")], "24:00:00", "it prints as the start of the day")
# C05/C27
bug("c05-sql-first-sign", "C05", "interval.rs", "            let has_day = mday != 0;", "            let has_day = mday != 0 || hour > 99;",
    [('o(|| e(mi("100:00:00").format(IntervalStyle::SQLStandard)))', "100:00:00")], "100 hours or more and no days in SQL style", "a zero day is printed")
BUGS[-1]["property"] = "C27"; BUGS[-1]["id"] = "c27-sql-no-day"
bug("c05-verbose-fraction", "C05", "interval.rs", "if sec < 0 || (sec == 0 && fsec < 0) {", "if sec < 0 {",
    [('o(|| e(mi("-0.5 s").format(IntervalStyle::PostgresVerbose)))', "@ 0.5 secs ago"), ('o(|| e(mi("1 day -0.5 s").format(IntervalStyle::PostgresVerbose)))', "@ 1 day -0.5 secs")], "a negative fraction of a second alone in verbose style", "it comes back positive")
# arithmetic
bug("c11-truncated-year", "C11", "timestamp.rs", "                    tm.year = tm.year.wrapping_add(tm.mon / MONTHS_PER_YEAR - 1);\n                    tm.mon = tm.mon % MONTHS_PER_YEAR + MONTHS_PER_YEAR;", "                    tm.year = tm.year.wrapping_add((tm.mon - 11) / MONTHS_PER_YEAR);\n                    tm.mon = tm.mon % MONTHS_PER_YEAR + MONTHS_PER_YEAR;",
    [('o(|| ft(e(mts("2000-12-15 00:00:00").sub_interval(mi("12 mons")))?))', "1999-12-15 00:00:00"), ('o(|| ft(e(mts("2000-12-15 00:00:00").sub_interval(mi("24 mons")))?))', "1998-12-15 00:00:00"), ('o(|| ft(e(mts("2000-01-15 00:00:00").sub_interval(mi("1 mons")))?))', "1999-12-15 00:00:00")], "going back to a December", "the year is one too late")
bug("c12-age-month", "C12", "timestamp.rs", "                tm.mday += days_of_month(tm1.year, tm1.mon);", "                tm.mday += days_of_month(tm1.year, tm2.mon);",
    [('o(|| fi(e(mts("2001-02-28 00:00:00").age(mts("2001-04-01 00:00:00")))?))', "-1 mons -1 days")], "a negative age that borrows days", "the wrong month's length is borrowed")
BUGS[-1]["cases"] = [('o(|| fi(e(mts("2001-02-27 00:00:00").age(mts("2001-05-01 00:00:00")))?))', "-2 mons -2 days")]
bug("c15-sub-order", "C15", "interval.rs", "let time = self.time.checked_sub(span.time);", "let time = span.negate()?.time.checked_add(self.time);",
    [('o(|| fi(e(ri(0, i32::MIN, 0).sub_interval(ri(0, i32::MIN, 3_600_000_000)))?))', "-01:00:00")], "subtracting an interval with a smallest part", "an error although the difference fits")
bug("c16-round-day", "C16", "interval.rs", "let month_remainder_days = timestamp_round(month_remainder_days);", "let month_remainder_days = month_remainder_days;",
    [('o(|| fi(e(mi("1 mon").mul_f64(1.1))?))', "1 mon 3 days"), ('o(|| fi(e(mi("7 mons").mul_f64(0.7))?))', "4 mons 27 days")], "a fraction of months whose days are whole but for rounding", "a microsecond or a day is lost")
bug("c17-justify-days-sign", "C17", "interval.rs", "        } else if result.month < 0 && result.day > 0 {\n            result.day -= DAYS_PER_MONTH;", "        } else if result.month < 0 && result.day > 0 && whole_month == 0 {\n            result.day -= DAYS_PER_MONTH;",
    [('o(|| fi(mi("-3 mons 35 days").justify_days()))', "-1 mons -25 days")], "negative months and more than a month of positive days", "the signs stay mixed")
bug("c18-hash-day", "C18", "interval.rs", "v += span.day() as i128 * USECS_PER_DAY as i128;", "v += (span.day() as i128 * USECS_PER_DAY as i128) & !1023;",
    [], "unused", "unused")
BUGS.pop()
bug("c19-iso-year-end", "C19", "common.rs", "        if dayn >= day4 - day0 {\n            year += 1;", "        if dayn > day4 - day0 {\n            year += 1;",
    [('o(|| num(md("2024-12-30").date_part(FieldType::Unit, DateUnit::IsoYear)))', "2025")], "the Monday in December on which an ISO year starts", "the ISO year is one too early")
bug("c20-interval-quarter", "C25", "common.rs", "        self.mon = 3 * (self.mon / 3);", "        self.mon = 3 * self.mon.div_euclid(3);",
    [('o(|| fi(e(mi("-5 mons").truncate(FieldType::Unit, DateUnit::Quarter))?))', "-3 mons")], "truncating negative months to a quarter", "it moves away from zero")
BUGS[-1]["id"] = "c25-interval-quarter"
bug("c20-millennium", "C20", "common.rs", "            self.year = -((999 - (self.year - 1)) / 1000) * 1000 + 1;", "            self.year = -((999 - self.year) / 1000) * 1000 + 1;",
    [('o(|| ft(e(mts("1001-05-05 00:00:00 BC").truncate(FieldType::Unit, DateUnit::Millennium))?))', "2000-01-01 00:00:00 BC"), ('o(|| ft(e(mts("1000-05-05 00:00:00 BC").truncate(FieldType::Unit, DateUnit::Millennium))?))', "1000-01-01 00:00:00 BC")], "the last year of a millennium before Christ", "truncation goes forward")
bug("c26-round", "C26", "time.rs", "            + (s * USECS_PER_SEC as f64).round() as i64;", "            + (s * USECS_PER_SEC as f64) as i64;",
    [('o(|| e(e(Time::try_from_hms(1, 2, 4.1))?.format(ISO)))', "01:02:04.1"), ('o(|| e(e(Time::try_from_hms(1, 2, 0.0000019))?.format(ISO)))', "01:02:00.000002")], "seconds that are not a whole number of microseconds as a binary fraction", "the last microsecond is lost")
# C24
bug("c24-year-unit", "C24", "parse.rs", "            INTERVAL_MASK_M | INTERVAL_MASK_YM => {\n                *ty = TokenField::Month.value();", "            INTERVAL_MASK_M | INTERVAL_MASK_YM => {\n                *ty = TokenField::Year.value();",
    [('i("5", (6 << 16) | 0xFFFF, IntervalStyle::Postgres)', "5 mons")], "a number without a unit under year to month", "it is years")
bug("c24-minute-second", "C24", "parse.rs", "                tm.sec = tm.min;\n                tm.min = tm.hour;\n                tm.hour = 0;\n            }\n", "                tm.sec = tm.min;\n                tm.min = tm.hour;\n            }\n",
    [('i("12:34", (0x1800 << 16) | 0xFFFF, IntervalStyle::Postgres)', "00:12:34")], "two clock fields under minute to second", "the minutes count as hours as well")
bug("c24-quarter-trunc", "C24", "interval.rs", "            else if range == (TokenType::DAY.mask() | TokenType::HOUR.mask()) {\n                self.time = (self.time / USECS_PER_HOUR) * USECS_PER_HOUR;", "            else if range == (TokenType::DAY.mask() | TokenType::HOUR.mask()) {\n                self.time = self.time.div_euclid(USECS_PER_HOUR) * USECS_PER_HOUR;",
    [('i("-1:30:00", (0x408 << 16) | 0xFFFF, IntervalStyle::Postgres)', "-01:00:00")], "a negative time under day to hour", "it moves away from zero")
# C06
bug("c06-token-len", "C06", "parse.rs", "        let key = if low_token.len() > MAX_TOKEN_LEN {\n            &low_token[0..MAX_TOKEN_LEN]\n        } else {\n            low_token\n        };\n\n        if tp.is_none()", "        let key = if low_token.len() != MAX_TOKEN_LEN {\n            &low_token[0..low_token.len().min(MAX_TOKEN_LEN)]\n        } else {\n            &low_token[0..MAX_TOKEN_LEN]\n        };\n\n        if tp.is_none()",
    [], "unused", "unused")
BUGS.pop()
bug("c23-to-time", "C23", "time.rs", "            * USECS_PER_SEC)\n            + fsec;\n", "            * USECS_PER_SEC)\n            + if tm.year > 0 { fsec } else { 0 };\n",
    [('o(|| { let v: Option<Time> = e(TryFrom::try_from(mts("0044-03-15 01:02:03.5 BC")))?; e(v.unwrap().format(ISO)) })', "01:02:03.5")], "the time of day of a timestamp before Christ with a fraction", "the fraction is lost")
bug("c14-add-whole", "C14", "time.rs", "        result -= result / USECS_PER_DAY * USECS_PER_DAY;\n        if result < 0 {\n            result += USECS_PER_DAY;\n        }\n        Time::from(result)\n    }\n\n    /// `Time` subtracts `Time`", "        if result > USECS_PER_DAY {\n            result -= USECS_PER_DAY;\n        }\n        if result < 0 {\n            result += USECS_PER_DAY;\n        }\n        Time::from(result)\n    }\n\n    /// `Time` subtracts `Time`",
    [('o(|| e(mt("19:00:00").add_interval(mi("5 hours")).format(ISO)))', "00:00:00")], "a sum that is exactly midnight", "it gives 24:00:00")
bug("c22-time-json", "C22", "serde.rs", "Time::try_from_str(v, -1, DateOrder::YMD).map_err", "Time::try_from_str(v, 5, DateOrder::YMD).map_err",
    [('o(|| e(e(serde_json::from_str::<Time>("\\"04:05:06.789012\\""))?.format(ISO)))', "04:05:06.789012")], "a time with microseconds in JSON", "the last digit is lost", serde=True)
bug("c02-sql-year-first", "C02", "date.rs", "            // compatible with Oracle/Ingres date formats.\n            if date_order == DateOrder::DMY {", "            // compatible with Oracle/Ingres date formats.\n            if date_order == DateOrder::DMY && tm.mday > 12 {",
    [('o(|| e(md("2001-02-03").format(SQL, DMY)))', "03/02/2001")], "a day of at most 12 in SQL style and day-month-year order", "day and month are swapped when read back")
bug("c03-postgres-dmy", "C03", "timestamp.rs", "            let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };", "            let year = if tm.year > 0 { tm.year } else { 1 - tm.year.max(-4712) };",
    [], "unused", "unused")
BUGS.pop()
