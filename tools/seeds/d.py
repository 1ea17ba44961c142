BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False, pre=""):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde, pre=pre))

# ---- C07
bug("c07-packed-memo", "C07", "common.rs", "pub fn julian2date(jd: i32) -> (i32, i32, i32) {\n    let mut julian = jd as u32 + 32044;",
"""pub fn julian2date(jd: i32) -> (i32, i32, i32) {
    // the last day converted: its number, year, month and day
    static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    let last = LAST.load(Relaxed);
    if last != 0 && last as u32 == jd as u32 {
        return ((last >> 48) as i16 as i32, (last >> 40) as u8 as i32, (last >> 32) as u8 as i32);
    }
    let r = split_julian(jd);
    LAST.store((r.0 as u64) << 48 | (r.1 as u64) << 40 | (r.2 as u64) << 32 | jd as u32 as u64, Relaxed);
    r
}

#[inline]
fn split_julian(jd: i32) -> (i32, i32, i32) {
    let mut julian = jd as u32 + 32044;""",
    [('o(|| { let _ = md("40000-01-01").format(ISO, YMD); e(md("40000-01-01").format(ISO, YMD)) })', "40000-01-01")], "one day beyond the year 32767 converted twice in a row", "its year wraps")
bug("c07-racy-memo", "C07", "common.rs", "pub fn date_to_iso_week(year: i32, mon: i32, mday: i32) -> i32 {\n    //current day.\n    let dayn = date2julian(year, mon, mday);",
"""pub fn date_to_iso_week(year: i32, mon: i32, mday: i32) -> i32 {
    use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
    static DAY: AtomicI32 = AtomicI32::new(i32::MIN);
    static WEEK: AtomicI32 = AtomicI32::new(0);
    let dayn = date2julian(year, mon, mday);
    if DAY.load(SeqCst) == dayn {
        return WEEK.load(SeqCst);
    }
    let week = iso_week(year, dayn);
    WEEK.store(week, SeqCst);
    DAY.store(dayn, SeqCst);
    week
}

fn iso_week(year: i32, dayn: i32) -> i32 {""",
    [('race()', "52")],
    "two threads converting different days, the one switched away from between the memo's two loads or stores", "one gets the other's week",
    pre='''
fn race() -> String {
    let go = |d: &'static str, n: f64| std::thread::spawn(move || {
        let d = md(d);
        (0..3_000_000).find_map(|_| { let w = d.date_part(FieldType::Unit, DateUnit::Week).unwrap(); if w != n { Some(w) } else { None } })
    });
    let h = [go("1999-12-27", 52.0), go("1999-02-01", 5.0), go("1999-12-28", 52.0), go("1999-02-02", 5.0)];
    for x in h {
        if let Some(w) = x.join().unwrap() { return format!("a wrong week {w}"); }
    }
    "52".to_string()
}
''')
bug("c07-negative-cache", "C07", "parse.rs", "        if tp.is_none() || key != tp.unwrap().token {\n            search_date_token(key)",
"""        if tp.is_none() || key != tp.unwrap().token {
            // words which were not found lately
            thread_local!(static MISSED: std::cell::Cell<u64> = std::cell::Cell::new(0));
            let bit = 1u64 << (key.iter().fold(0u8, |a, c| a.wrapping_mul(31).wrapping_add(*c)) & 63);
            if MISSED.with(|m| m.get()) & bit != 0 {
                return (TokenType::UnknownField, 0);
            }
            let found = search_date_token(key);
            if found.is_none() {
                MISSED.with(|m| m.set(m.get() | bit));
            }
            found""",
    [('o(|| { for k in 0..3000u32 { let w: String = (0..3).map(|i| (b\'a\' + (k / 15u32.pow(i) % 15) as u8) as char).collect(); let _ = Date::try_from_str(&format!("1 {w} 2001"), DMY); } e(e(Date::try_from_str("1 march 2001", DMY))?.format(ISO, YMD)) })', "2001-03-01")],
    "an unknown word, and later on the same thread a keyword with the same hash", "the keyword is no longer known")
bug("c07-shared-typmod", "C07", "interval.rs", "        if typmod >= 0 {\n            let range = interval_range(typmod);\n            let precision = interval_precision(typmod);\n",
"""        if typmod >= 0 {
            use std::sync::atomic::{AtomicI32, Ordering::Relaxed};
            // the last type modifier taken apart
            static RANGE: AtomicI32 = AtomicI32::new(0);
            static PRECISION: AtomicI32 = AtomicI32::new(0);
            RANGE.store(interval_range(typmod), Relaxed);
            PRECISION.store(interval_precision(typmod), Relaxed);
            let (range, precision) = (RANGE.load(Relaxed), PRECISION.load(Relaxed));
""",
    [('race()', "fine")], "two threads reading intervals with different type modifiers, one switched away from between the stores and the loads", "one uses the other's restriction",
    pre='''
fn race() -> String {
    let go = |p: i32, w: &'static str| std::thread::spawn(move || {
        (0..400_000).find_map(|_| { let g = i("1 day 01:02:03.456", 0x7FFF << 16 | p, IntervalStyle::Postgres); if g != w { Some(g) } else { None } })
    });
    let h = [go(0, "1 day 01:02:03"), go(2, "1 day 01:02:03.46"), go(0, "1 day 01:02:03"), go(1, "1 day 01:02:03.5")];
    for x in h {
        if let Some(g) = x.join().unwrap() { return g; }
    }
    "fine".to_string()
}
''')
# ---- C04
bug("c04-leading-zeros", "C04", "common.rs", "            if got_nonzero {\n                s[offset + precision as usize] = (b'0' + remainder as u8) as u8;\n                valid_num += 1;\n            }\n",
"            if got_nonzero {\n                s[offset + precision as usize] = (b'0' + remainder as u8) as u8;\n                valid_num += 1;\n            }\n            if value == 0 && precision > 3 {\n                break;\n            }\n",
    [('t("00:00:00.000005")', "00:00:00.000005"), ('t("10:00:00.00001")', "10:00:00.00001")], "a fraction of a few microseconds", "it prints as a larger one")
bug("c04-minute-59", "C04", "time.rs", "        time -= tm.min as i64 * USECS_PER_MINUTE;\n        tm.sec = (time / USECS_PER_SEC) as i32;", "        time -= tm.min as i64 * USECS_PER_MINUTE;\n        tm.sec = (time as f32 / USECS_PER_SEC as f32) as i32;",
    [('t("00:00:59.999999")', "00:00:59.999999"), ('t("12:34:56.999999")', "12:34:56.999999")], "the last microsecond of a second", "the text is not the time")
# ---- C12, C21
bug("c21-same-infinity", "C21", "timestamp.rs", "    pub fn sub_timestamp(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {\n", "    pub fn sub_timestamp(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {\n        if self == timestamp {\n            return Ok(Interval::from_mdt(0, 0, 0));\n        }\n",
    [('o(|| fi(e(mts("infinity").sub_timestamp(mts("infinity")))?))', "Err")], "an infinity minus itself", "it is zero, not an error")
bug("c21-age-opposite", "C21", "timestamp.rs", "    pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {\n        if self.is_infinite() || timestamp.is_infinite() {", "    pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {\n        if self == timestamp {\n            return Ok(Interval::from_mdt(0, 0, 0));\n        }\n        if self.is_infinite() || timestamp.is_infinite() {",
    [('o(|| fi(e(mts("-infinity").age(mts("-infinity")))?))', "Err")], "the age of an infinity against itself", "it is zero, not an error")
bug("c21-date-days-zero", "C21", "date.rs", "    pub fn sub_days(self, days: i32) -> Result<Date, DateTimeError> {\n        if self.is_infinite() {", "    pub fn sub_days(self, days: i32) -> Result<Date, DateTimeError> {\n        if self.is_infinite() && days != std::i32::MIN {",
    [('o(|| fd(e(md("infinity").sub_days(i32::MIN))?))', "infinity")], "the smallest number of days taken from an infinity", "an error or a finite date")
bug("c21-add-time", "C21", "date.rs", "        if timestamp.is_finite() {\n            timestamp = timestamp.add_time(time)?;", "        if timestamp.is_finite() || i64::from(time) == crate::common::USECS_PER_DAY {\n            timestamp = timestamp.add_time(time)?;",
    [('o(|| ft(e(md("infinity").add_time(mt("24:00:00")))?))', "infinity")], "an infinite date and 24:00:00", "an error")
bug("c21-trunc-week", "C21", "timestamp.rs", "    fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {\n        if self.is_infinite() {", "    fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {\n        if self.is_infinite() && unit != DateUnit::MicroSec {",
    [('o(|| ft(e(mts("-infinity").truncate(FieldType::Unit, DateUnit::MicroSec))?))', "-infinity")], "an infinity truncated to the microsecond", "an error")
# ---- C16
bug("c16-div-min-day", "C16", "interval.rs", "        if day.is_nan() || day > std::i32::MAX as f64 || day < std::i32::MIN as f64 {", "        if day.is_nan() || day > std::i32::MAX as f64 || day <= std::i32::MIN as f64 {",
    [('o(|| fi(e(mi("-2147483648 days").div_f64(1.0))?))', "-2147483648 days")], "a quotient of exactly the smallest number of days", "it is an overflow")
bug("c16-mul-max-month", "C16", "interval.rs", "            || result_month > std::i32::MAX as f64\n", "            || result_month as f32 > std::i32::MAX as f32 - 129.0\n",
    [('o(|| fi(e(mi("2147483646 mons").mul_f64(1.0))?))', "178956970 years 6 mons")], "a product close to the largest number of months", "it is an overflow")
bug("c16-div-time", "C16", "interval.rs", "            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();", "            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64 + 0.5).floor();",
    [('o(|| fi(e(mi("-5 us").div_f64(2.0))?))', "-00:00:00.000003")], "a negative half of a microsecond", "it is rounded up")
# ---- C19, C20
bug("c19-epoch-month", "C19", "interval.rs", "                        * (self.month % MONTHS_PER_YEAR) as f64;", "                        * (self.month.abs() % MONTHS_PER_YEAR) as f64;",
    [('o(|| num(mi("-5 mons").date_part(FieldType::Epoch, DateUnit::Epoch)))', "-12960000")], "negative months", "the epoch counts them as positive")
bug("c19-quarter-neg", "C19", "interval.rs", "                    DateUnit::Quarter => Ok(((tm.mon / 3) + 1) as f64),", "                    DateUnit::Quarter => Ok((tm.mon.div_euclid(3) + 1) as f64),",
    [('o(|| num(mi("-1 mons").date_part(FieldType::Unit, DateUnit::Quarter)))', "1")], "negative months", "the quarter is the one before")
bug("c20-iso-week-year", "C20", "common.rs", "        if woy <= 1 && self.mon == MONTHS_PER_YEAR {", "        if woy <= 1 && self.mon == MONTHS_PER_YEAR && self.mday > 29 {",
    [('o(|| ft(e(mts("2014-12-29").truncate(FieldType::Unit, DateUnit::Week))?))', "2014-12-29 00:00:00")], "29 December in the first ISO week of the next year", "the week is a year early")
bug("c20-milli-neg", "C20", "common.rs", "        *fsec = (*fsec / 1000) * 1000;", "        *fsec = (*fsec).div_euclid(1000) * 1000;",
    [('o(|| fi(e(mi("-0.0015 s").truncate(FieldType::Unit, DateUnit::MilliSec))?))', "-00:00:00.001")], "a negative interval truncated to the millisecond", "it moves away from zero")
bug("c20-decade-zero", "C20", "common.rs", "            self.year = -((8 - (self.year - 1)) / 10) * 10;", "            self.year = -((9 - (self.year - 1)) / 10) * 10;",
    [('o(|| ft(e(mts("0011-06-01 BC").truncate(FieldType::Unit, DateUnit::Decade))?))', "0011-01-01 00:00:00 BC")], "the year of a decade's start before year 1", "it is truncated to the decade before")
# ---- C22
bug("c22-infinite-date", "C22", "serde.rs", "                i32::try_from(v)\n                    .map(Date::new)\n                    .map_err(|_| de::Error::invalid_value(de::Unexpected::Signed(v), &self))", "                Ok(Date::new(v as i32))", [('x', 'x')], "unused", "unused")
BUGS.pop()
bug("c22-date-style", "C22", "serde.rs", "                Date::try_from_str(v, DateOrder::YMD).map_err(de::Error::custom)", "                Date::try_from_str(v.trim_end_matches(\" BC\"), DateOrder::YMD).and_then(|d| if v.len() > 13 && v.ends_with(\"BC\") { Date::try_from_str(v, DateOrder::YMD) } else if v.ends_with(\"BC\") { Date::try_from_str(v, DateOrder::YMD) } else { Ok(d) }).map_err(de::Error::custom)",
    [('o(|| { let d = md("4714-12-01 BC"); let s = serde_json::to_string(&d).unwrap(); e(e(serde_json::from_str::<Date>(&s))?.format(ISO, YMD)) })', "4714-12-01 BC"), ('o(|| { let d = md("0001-02-29 BC"); let s = serde_json::to_string(&d).unwrap(); e(e(serde_json::from_str::<Date>(&s))?.format(ISO, YMD)) })', "0001-02-29 BC")],
    "29 February of a leap year BC that is none AD", "it can not be deserialised", serde=True)
bug("c22-interval-order", "C22", "serde.rs", 'const FIELDS: &[&str] = &["time", "day", "month"];', 'const FIELDS: &[&str] = &["day", "time", "month"];', [], "unused", "unused")
BUGS.pop()
# ---- C24
bug("c24-negative-round", "C24", "interval.rs", "                    self.time = -(((-self.time + INTERVAL_OFFSETS[precision as usize])", "                    self.time = -(((-self.time + INTERVAL_OFFSETS[precision as usize] - (precision == 5) as i64)",
    [('i("-0.000005 s", 0x7FFF << 16 | 5, IntervalStyle::Postgres)', "-00:00:00.00001")], "a negative half at five digits", "it is rounded to zero")
# ---- C05, C27
bug("c27-verbose-sec", "C27", "interval.rs", "                if sec.abs() != 1 || fsec != 0 {", "                if sec != 1 || fsec != 0 {",
    [('o(|| e(mi("-1 sec").format(IntervalStyle::PostgresVerbose)))', "@ 1 sec ago")], "minus one second in the verbose style", "the plural")
bug("c27-iso-minus-fraction", "C27", "interval.rs", "                if sec < 0 || fsec < 0 {\n                    offset = set_one_byte(s, offset, b'-');", "                if sec < 0 || sec == 0 && min <= 0 && hour <= 0 && fsec < 0 {\n                    offset = set_one_byte(s, offset, b'-');",
    [('o(|| e(ri(0, 0, -500_000).format(IntervalStyle::ISO8601)))', "PT-0.5S")], "unused", "unused")
BUGS.pop()
# ---- C10
bug("c10-cache-len", "C10", "parse.rs", "    // not all time fields are specified.\n    if (f_mask & DTK_TIME_M) != DTK_TIME_M {", "    // not all time fields are specified.\n    if (f_mask & DTK_TIME_M) == 0 {", [], "unused", "unused")
BUGS.pop()
# ---- C09
bug("c08-long-compact", "C08", "parse.rs", "        let (v, _) = str2i32(&str[0..len - 4])?;\n        tm.year = v;\n        if (len - 4) == 2 {", "        let (v, _) = str2i32(&str[0..len - 4])?;\n        tm.year = v;\n        if (len - 4) <= 3 {",
    [('d("0990108", YMD)', "0099-01-08")], "compact digits with a year of three", "the century is added")
# ---- C15, C17, C18
bug("c15-neg-day", "C15", "interval.rs", "    pub fn negate(self) -> Result<Self, DateTimeError> {", "    pub fn negate(self) -> Result<Self, DateTimeError> {\n        if self.day == std::i32::MIN && self.month == 0 {\n            return Ok(Interval::from_mdt(0, std::i32::MAX, -(self.time as i128) as i64));\n        }",
    [('o(|| fi(e(mi("-2147483648 days").negate())?))', "Err")], "the smallest number of days", "its negation is one short")
# ---- C11, C13, C23, C26
bug("c11-day-after-clamp", "C11", "timestamp.rs", "                let max_mon_days = days_of_month(tm.year, tm.mon);\n", "                let max_mon_days = days_of_month(tm.year.abs(), tm.mon);\n", [], "unused", "unused")
BUGS.pop()
bug("c11-min-month", "C11", "timestamp.rs", "                } else if tm.mon < 1 {\n                    tm.year = tm.year.wrapping_add(tm.mon / MONTHS_PER_YEAR - 1);", "                } else if tm.mon < 1 {\n                    tm.year = tm.year.wrapping_add((tm.mon as f32 / MONTHS_PER_YEAR as f32) as i32 - 1);",
    [], "unused", "unused")
BUGS.pop()
bug("c13-add-days-early", "C13", "date.rs", "        let date_ret = Date::new(result);\n        // Check for integer overflow and out-of-allowed-range.\n        if date_ret.is_valid() {", "        let date_ret = Date::new(result);\n        // Check for integer overflow and out-of-allowed-range.\n        if date_ret.is_valid() || days == 0 && result < 0 && date_ret.is_finite() || result == -POSTGRES_EPOCH_JDATE - 1 {",
    [('o(|| fd(e(md("4714-11-24 BC").add_days(-1))?))', "Err")], "the day before the first supported one", "it is accepted")
bug("c23-date-bc", "C23", "date.rs", "            let result = date2julian(tm.year, tm.mon, tm.mday) - POSTGRES_EPOCH_JDATE;\n            Ok(Date::new(result))", "            let result = value.value() / USECS_PER_DAY - (value.value() < 0 && fsec != 0) as i64;\n            Ok(Date::new(result as i32))",
    [('o(|| fd(e(Date::try_from(mts("1999-12-31 12:00:00")))?))', "1999-12-31")], "a timestamp before 2000 with a whole number of seconds after midnight", "the next day")
bug("c26-interval-carry", "C26", "interval.rs", "x", "y", [], "x", "x")
BUGS.pop()
# ---- C01, C02, C03
bug("c03-german-sec", "C03", "timestamp.rs", "            /* German variant on European style */\n            offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);", "            /* German variant on European style */\n            let fsec = if tm.year < -99 { fsec / 10 * 10 } else { fsec };\n            offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);",
    [('o(|| e(mts("0200-01-02 03:04:05.123456 BC").format(German, DMY)))', "02.01.0200 03:04:05.123456 BC")], "a microsecond before the year 100 BC in the German style", "the last digit is lost")
bug("c02-postgres-dmy-bc", "C02", "date.rs", "            if date_order == DateOrder::DMY {\n                offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);\n                offset = set_one_byte(s, offset, b'-');", "            if date_order == DateOrder::DMY || tm.mday > 12 && tm.year < 0 {\n                offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);\n                offset = set_one_byte(s, offset, b'-');",
    [('o(|| e(md("0005-03-20 BC").format(Postgres, MDY)))', "03.20.0005 BC")], "a day after the twelfth of a month before 1 BC in the Postgres style for MDY", "day and month change places")
