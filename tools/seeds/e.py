BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False, pre=""):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde, pre=pre))

SQL = "IntervalStyle::SQLStandard"
# ---- texts
bug("c09-fraction-to-second", "C09", "parse.rs", "        || *f_sec > USECS_PER_SEC\n    {\n        Err(DateTimeError::invalid(format!(\"time: {:?}", "        || *f_sec >= USECS_PER_SEC\n    {\n        Err(DateTimeError::invalid(format!(\"time: {:?}",
    [('t("10:00:00.9999999")', "10:00:01")], "a fraction that rounds to a whole second", "the text is rejected")
bug("c08-year-199", "C08", "parse.rs", "                if str.len() >= 3 && *is2digits {", "                if str.len() > 3 && *is2digits {",
    [('d("08-Jan-199", YMD)', "0199-01-08")], "day, month name and a year of three digits under YMD", "the date is rejected")
bug("c08-month-year-199", "C08", "parse.rs", "                if str.len() >= 3 || date_order == DateOrder::YMD {", "                if str.len() > 3 || date_order == DateOrder::YMD {",
    [('d("Jan-199-08", MDY)', "0199-01-08")], "month name, a year of three digits and the day", "the date is rejected")
bug("c08-first-year-199", "C08", "parse.rs", "            if str.len() >= 3 || date_order == DateOrder::YMD {", "            if str.len() > 3 || date_order == DateOrder::YMD {",
    [('d("199-02-03", DMY)', "0199-02-03")], "a year of three digits first under DMY", "the date is rejected", nth=0)
bug("c08-label-minutes", "C08", "parse.rs", "                    if (self.f_mask & TokenType::MONTH.mask()) != 0\n                        && (self.f_mask & TokenType::HOUR.mask()) != 0", "                    if (self.f_mask & TokenType::DAY.mask()) != 0\n                        && (self.f_mask & TokenType::HOUR.mask()) != 0",
    [('ts("y2001 m02 h04 m05 d03", YMD)', "2001-02-03 04:05:00")], "labelled fields with the day after the minutes", "the text is rejected")
bug("c10-double-ago", "C10", "parse.rs", "                        is_before = true;", "                        is_before = !is_before;",
    [('iv("1 day ago ago")', "-1 days")], "ago twice", "the signs cancel")
bug("c10-sql-second-sign", "C10", "parse.rs", "        for field in fields.iter().skip(1) {", "        for field in fields.iter().skip(2) {",
    [('i("-1 +10:20:30", -1, %s)' % SQL, "-1 days +10:20:30")], "SQL text whose second field has the only other sign", "the first sign spreads")
bug("c10-iso-clock-minutes", "C10", "parse.rs", "    adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;\n    match s.first() {", "    adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;\n    match s.first() {",
    [('iv("PT04:05.5")', "04:05:30")], "the alternative ISO form with a fraction of minutes", "it is a fraction of an hour")
bug("c10-half-us", "C10", "parse.rs", "            *f_sec += (val as f64 + *f_val).round() as i64;", "            *f_sec += (val as f64 + *f_val) as i64;",
    [('iv("1.7 us")', "00:00:00.000002")], "a fraction of a microsecond", "it is cut off")
bug("c08-julian-fraction", "C08", "parse.rs", "                        let mut time = time;\n                        time *= USECS_PER_DAY as f64;", "                        let mut time = time;\n                        time *= USECS_PER_DAY as f64 - 1.0;", 
    [('ts("J2451187.5", YMD)', "1999-01-08 12:00:00")], "a fraction of a Julian day", "it is a microsecond short", nth=0)
# ---- calendar
bug("c20-interval-millennium", "C20", "common.rs", "        self.year = (self.year / 1000) * 1000;", "        self.year = self.year.div_euclid(1000) * 1000;",
    [('o(|| fi(e(mi("-1500 years").truncate(FieldType::Unit, DateUnit::Millennium))?))', "-1000 years")], "a negative interval truncated to the millennium", "it moves away from zero")
bug("c20-century-edge", "C20", "common.rs", "            self.year = -((99 - (self.year - 1)) / 100) * 100 + 1;", "            self.year = -((98 - (self.year - 1)) / 100) * 100 + 1;",
    [('o(|| ft(e(mts("0101-06-01 BC").truncate(FieldType::Unit, DateUnit::Century))?))', "0200-01-01 00:00:00 BC")], "the last year of a century before year 1", "it is truncated to the next century")
bug("c19-iso-year-start", "C19", "common.rs", "        year -= 1;", "        year -= (mday < 3) as i32;",
    [('o(|| num(md("2010-01-03").date_part(FieldType::Unit, DateUnit::IsoYear)))', "2009")], "3 January in the last ISO week of the year before", "the ISO year is the calendar year")
bug("c11-leap-bc", "C11", "common.rs", "    y % 4 == 0 && ((y % 100) != 0 || (y % 400) == 0)", "    y % 4 == 0 && ((y % 100) != 0 || (y.rem_euclid(800)) % 400 == 0 && y != -400)",
    [('o(|| ft(e(mts("0401-01-31 BC").add_interval(mi("1 month")))?))', "0401-02-29 00:00:00 BC")], "a day clamped to the end of February 401 BC", "it is a common year")
bug("c03-wide-year", "C03", "common.rs", "    if num != 0 {\n        return pg_ltostr(s, value);", "    if num > 9 {\n        return pg_ltostr(s, value);",
    [('o(|| ft(mts("10001-01-01 00:00:00")))', "10001-01-01 00:00:00")], "a year of five digits", "its first digit is lost")
# ---- intervals
bug("c26-hours-i32", "C26", "interval.rs", "            .wrapping_add((minutes as i64).wrapping_mul(SECS_PER_MINUTE as i64 * USECS_PER_SEC))", "            .wrapping_add((minutes.wrapping_mul(SECS_PER_MINUTE) as i64).wrapping_mul(USECS_PER_SEC))",
    [('o(|| fi(e(Interval::try_from_ymwd_hms(0, 0, 0, 0, 0, 40_000_000, 0.0))?))', "666666:40:00")], "more minutes than fit 32 bits as seconds", "they wrap")
bug("c05-iso-min", "C05", "interval.rs", "            if hour != 0 || min != 0 || sec != 0 || fsec != 0 {\n                offset = set_one_byte(s, offset, b'T');", "            if hour != 0 || min > 0 || sec != 0 || fsec != 0 {\n                offset = set_one_byte(s, offset, b'T');",
    [('o(|| { let v = ri(0, 0, -60_000_000); fi(e(Interval::try_from_str(&e(v.format(IntervalStyle::ISO8601))?, -1, IntervalStyle::ISO8601))?) })', "-00:01:00")], "minutes alone, negative, in the ISO style", "they read back as months")
bug("c27-sql-year-only", "C27", "interval.rs", "            let has_day_time = mday != 0 || hour != 0 || min != 0 || sec != 0 || fsec != 0;", "            let has_day_time = mday != 0 || hour != 0 || min != 0 || sec != 0 || fsec.abs() > 1;",
    [('o(|| e(ri(14, 0, 1).format(%s)))' % SQL, "+1-2 +0 +0:00:00.000001")], "months and one microsecond in the SQL style", "the microsecond is lost")
bug("c19-epoch-remainder", "C19", "interval.rs", "                    result += SECS_PER_DAY as f64 * self.day as f64;", "                    result += (SECS_PER_DAY.wrapping_mul(self.day)) as f64;",
    [('o(|| num(mi("30000 days").date_part(FieldType::Epoch, DateUnit::Epoch)))', "2592000000")], "more days than fit 32 bits as seconds", "the epoch wraps")
bug("c15-add-day-wrap", "C15", "interval.rs", "        let day = self.day.checked_add(span.day);", "        let day = if self.month == span.month { Some(self.day.wrapping_add(span.day)) } else { self.day.checked_add(span.day) };",
    [('o(|| fi(e(mi("2147483647 days").add_interval(mi("1 day")))?))', "Err")], "days that overflow between intervals of equal months", "they wrap")
bug("c18-cmp-saturate", "C18", "interval.rs", "        let left: i128 = From::from(*self);\n        let right: i128 = From::from(*other);\n        left.cmp(&right)", "        let left: i128 = From::from(*self);\n        let right: i128 = From::from(*other);\n        left.clamp(std::i64::MIN as i128, std::i64::MAX as i128).cmp(&right.clamp(std::i64::MIN as i128, std::i64::MAX as i128))",
    [('o(|| Ok(format!("{:?}", mi("178000000 years").cmp(&mi("177000000 years")))))', "Greater")], "intervals longer than 292,000 years", "they are equal")
# ---- time, timestamp, date
bug("c14-sub-time-mod", "C14", "time.rs", "        let time = self.0.wrapping_sub(time.0);", "        let time = self.0.wrapping_sub(time.0) % USECS_PER_DAY;",
    [('o(|| fi(mt("24:00:00").sub_time(mt("00:00:00"))))', "24:00:00")], "the difference of 24:00:00 and midnight", "it is zero")
bug("c23-to-time-bc", "C23", "time.rs", "        let result = ((((tm.hour * MINS_PER_HOUR + tm.min) * SECS_PER_MINUTE) as i64", "        let tmhour = if tm.year < -4711 && tm.hour == 23 { 22 } else { tm.hour };\n        let result = ((((tmhour * MINS_PER_HOUR + tm.min) * SECS_PER_MINUTE) as i64",
    [('o(|| e(Option::<Time>::try_from(mts("4713-05-05 23:15:00 BC"))).map(|x| x.unwrap().format(ISO).unwrap()))', "23:15:00")], "the last hour of a day in the first two years", "it is an hour early")
bug("c20-time-milli", "C20", "time.rs", "        let it = interval.truncate(ty, unit)?;\n", "        let it = interval.truncate(ty, if unit == DateUnit::MilliSec && interval.time() >= 86_399_000_000 { DateUnit::Second } else { unit })?;\n",
    [('o(|| e(e(mt("23:59:59.5").truncate(FieldType::Unit, DateUnit::MilliSec))?.format(ISO)))', "23:59:59.5")], "the last second of the day", "milliseconds are lost")
bug("c12-sub-date", "C12", "timestamp.rs", "        let timetsamp: Timestamp = Timestamp::try_from(date)?;\n        self.sub_timestamp(timetsamp)", "        let timetsamp: Timestamp = Timestamp::try_from(date)?;\n        if self.is_finite() && self < timetsamp {\n            return timetsamp.sub_timestamp(self)?.negate().map(|i| i.justify_days());\n        }\n        self.sub_timestamp(timetsamp)",
    [('o(|| fi(e(mts("2001-01-01").sub_date(md("2001-06-01")))?))', "-151 days")], "an earlier timestamp minus a date more than a month later", "days become months")
# ---- serde
bug("c22-ts-order", "C22", "serde.rs", "                Timestamp::try_from_str(v, -1, DateOrder::YMD).map_err(de::Error::custom)", "                Timestamp::try_from_str(v, if v.len() > 26 { 5 } else { -1 }, DateOrder::YMD).map_err(de::Error::custom)",
    [('o(|| { let t = mts("12001-02-03 04:05:06.123456"); let s = serde_json::to_string(&t).unwrap(); ft(e(serde_json::from_str::<Timestamp>(&s))?) })', "12001-02-03 04:05:06.123456")], "a year of five digits with six digits of the fraction", "the last digit is rounded", serde=True)
