BUGS = []

def bug(id, prop, file, old, new, cases, needs, breaks, nth=None, edits=None, serde=False, pre=""):
    BUGS.append(dict(id=id, property=prop, file=file, old=old, new=new, cases=cases, needs=needs, breaks=breaks, nth=nth, edits=edits, serde=serde, pre=pre))

SQL = "IntervalStyle::SQLStandard"
bug("c24-time-precision-7", "C24", "time.rs", "        if typmod >= 0 && typmod <= MAX_TIME_PRECISION {", "        if typmod >= 0 && typmod <= MAX_TIME_PRECISION + 1 {",
    [('o(|| e(e(Time::try_from_str("04:05:06.789012", 7, YMD))?.format(ISO)))', "04:05:06.789012")], "a time read with precision 7", "it panics")
bug("c10-months-float", "C10", "interval.rs", "        if total_months > std::i32::MAX as f64 ", "        if total_months > std::i32::MAX as f32 as f64 ",
    [('iv("178956970 years 8 mons")', "Err")], "one month more than an interval can hold", "it is one month less")
bug("c22-time-order", "C22", "serde.rs", "                Time::try_from_str(v, -1, DateOrder::YMD).map_err(de::Error::custom)", "                Time::try_from_str(v, -1, DateOrder::MDY).map_err(de::Error::custom)",
    [('o(|| { let x = e(serde_json::from_str::<Time>("\\"99-Jan-08 04:05:06\\""))?; e(x.format(ISO)) })', "04:05:06")], "JSON of a time with a date whose year of two digits comes first", "it is rejected", serde=True)
bug("c22-date-order-dmy", "C22", "serde.rs", "                Date::try_from_str(v, DateOrder::YMD).map_err(de::Error::custom)", "                Date::try_from_str(v, if v.len() == 8 { DateOrder::DMY } else { DateOrder::YMD }).map_err(de::Error::custom)",
    [('o(|| { let x = e(serde_json::from_str::<Date>("\\"01-02-03\\""))?; e(x.format(ISO, YMD)) })', "2001-02-03")], "JSON of a date with a year of two digits", "the day and the year change places", serde=True)
