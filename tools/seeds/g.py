BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False, pre=""):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde, pre=pre))

bug("c28-zero-days", "C28", "date.rs", "        let result = match self.0.checked_add(days) {", "        if days == 0 {\n            return Ok(self);\n        }\n\n        let result = match self.0.checked_add(days) {",
    [('o(|| e(Date::from(-2451546).add_days(0)).map(|v| i32::from(v).to_string()))', "Err")], "a date out of range made from a raw number, and no days added to it", "the value out of range comes back as a result")
bug("c28-julian-lower", "C28", "parse.rs", "    if date < 0 || date > std::i32::MAX as i64 {", "    if date < -32044 || date > std::i32::MAX as i64 {",
    [('o(|| e(Date::try_from(Timestamp::from(-211_900_000_000_000_000))).map(|v| i32::from(v).to_string()))', "Err")], "a timestamp shortly before 4714 BC made from a raw number", "it becomes a date out of range")
bug("c28-add-valid", "C28", "date.rs", "        if date_ret.is_valid() {", "        if date_ret.is_valid() || days > 0 && self.0 < -POSTGRES_EPOCH_JDATE {",
    [('o(|| e(Date::from(i32::MIN + 5).add_days(7)).map(|v| i32::from(v).to_string()))', "Err")], "a raw date before the minimum and a positive number of days", "the sum out of range is a result")
bug("c28-sub-wrap", "C28", "date.rs", "        let result = self.value().checked_sub(days);", "        let result = if self.value() < 0 && days > 0 { Some(self.value().wrapping_sub(days)) } else { self.value().checked_sub(days) };",
    [('o(|| e(Date::from(i32::MIN + 5).sub_days(i32::MAX)).map(|v| i32::from(v).to_string()))', "Err")], "a raw date near the minimum of 32 bits, less more than two thousand million days", "the subtraction wraps around to a valid date")
bug("c28-from-date", "C28", "timestamp.rs", "            if value.value() >= TIMESTAMP_END_JULIAN - POSTGRES_EPOCH_JDATE {", "            if (value.value() + POSTGRES_EPOCH_JDATE) as u32 >= TIMESTAMP_END_JULIAN as u32 {",
    [('o(|| { let x: Timestamp = e(Timestamp::try_from(Date::from(i32::MAX - 5)))?; ft(x) })', "Err")], "a raw date within 2.5 million days of the largest 32-bit number", "it panics")
bug("c28-time-neg", "C28", "time.rs", "        let time = self.0.wrapping_sub(time.0);", "        let time = if time.0 >= 0 { self.0 - time.0 } else { self.0.wrapping_add(time.0.wrapping_neg()) };",
    [('o(|| { fi(Time::from(i64::MIN).sub_time(Time::from(1))) })', "Err")], "a raw time at the minimum of 64 bits", "the subtraction panics")
bug("c08-underscore", "C08", "parse.rs", "                || i == b'_'\n                || i == b'.'", "                || i == b'.'",
    [('d("12 Jan-08_", YMD)', "Err"), ('d("12 Jan-08_", DMY)', "Err")], "an underscore after a date with the month by name and a hyphen", "it is ignored")
bug("c09-named-month-day", "C09", "parse.rs", "                        TokenType::MONTH => {\n                            tm.mon = val;\n                            have_text_month = true;", "                        TokenType::MONTH => {\n                            tm.mon = if val > 7 { val - 1 } else { val };\n                            have_text_month = true;",
    [('t("31-Oct-1999 04:05")', "04:05:00"), ('t("31-Aug-1999 04:05")', "04:05:00")], "a time with a date whose month is a name, the 31st of October", "the time is rejected")
bug("c26-exact-hours", "C26", "timestamp.rs", "        let time = (((hour * MINS_PER_HOUR + minute) * SECS_PER_MINUTE) as i64 * USECS_PER_SEC)", "        let time = ((((hour * MINS_PER_HOUR + minute) & !((hour == 11) as i32)) * SECS_PER_MINUTE) as i64 * USECS_PER_SEC)",
    [('o(|| ft(e(Timestamp::try_from_ymd_hms(2001, 2, 3, 11, 31, 0.0))?))', "2001-02-03 11:31:00")], "an odd minute of the hour before noon", "the minute is one less")
bug("c27-years-group", "C27", "interval.rs", "    let mut mon = tm.mon;", "    let mut mon = if tm.year == 10_002 { -tm.mon } else { tm.mon };",
    [('o(|| e(mi("10002 years 3 mons").format(IntervalStyle::SQLStandard)))', "10002-3")], "an interval of 10,002 years and some months in the SQL style", "the months have the wrong sign", nth=0)
bug("c09-label-minute", "C09", "parse.rs", "                    // already have an hour? then assume minutes.\n                    if (self.f_mask & TokenType::HOUR.mask()) != 0 {\n                        tm.min = val;", "                    // already have an hour? then assume minutes.\n                    if (self.f_mask & TokenType::HOUR.mask()) != 0 {\n                        tm.min = if val == 29 { 30 } else { val };",
    [('t("h 4 m 29")', "04:29:00")], "minutes after the label m", "29 becomes 30")
