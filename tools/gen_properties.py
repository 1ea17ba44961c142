#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Calendar dates map one-to-one onto the supported day range",
  "Every existing proleptic-Gregorian calendar date from 4714-11-24 BC to 5874897-12-31 AD can be constructed from year, month and day, consecutive calendar dates get consecutive day numbers (2000-01-01 being day 0), and reading year, month and day back (from the printed date, or by field extraction) gives the date that was put in. "
  "Every year/month/day triple that is not such a date (no such month, no such day in that month and year, year zero, out of range) is rejected with an error. BC years are given as negative numbers.",
  ["inputs"], "all calendar dates in range; all year/month/day triples in and around the valid box, and at the i32 extremes",
  "The tests construct a few dozen dates; leap rules, century rules, the BC boundary and range ends are about every one of 2.1 billion days.",
  ["src/date.rs", "src/common.rs"],
  [("Date::try_from_ymd", "src/date.rs"), ("date2julian / julian2date / days_of_month / validate_date", "src/common.rs")],
  ["Date -> i32", "Date::format", "date_part"])
p("C02", "Printed dates read back as the same date",
  "For every supported date, the text printed in a date style reads back as exactly that date when read under a field order the printed form is meant for: ISO and XSD text under every order, SQL and Postgres text printed for DMY or MDY under the same order, German text under DMY. "
  "The printed text itself is the documented layout of the style (zero-padded two-digit month and day, at least four-digit year, ' BC' suffix before year 1).",
  ["inputs", "configurations"], "all dates x all date styles x all field orders for which the printed form is unambiguous",
  "Tests check about twenty literal strings; year widths, BC suffixes and style/order combinations multiply to billions of texts.",
  ["src/date.rs", "src/parse.rs", "src/common.rs"],
  [("format_date", "src/date.rs"), ("parse_date_time / decode_date_time", "src/parse.rs")],
  ["Date::format then Date::try_from_str"])
p("C03", "Printed timestamps read back as the same timestamp",
  "For every supported finite timestamp, to the microsecond, the text printed in a date style reads back as exactly that timestamp when read under a field order the printed form is meant for: ISO, XSD and Postgres text under every order (Postgres: printed for and read with the same DMY or MDY order), SQL text printed for DMY or MDY under the same order, German text under DMY. "
  "The text printed shows exactly the calendar fields of the value, with trailing fraction zeros dropped and ' BC' appended before year 1.",
  ["inputs", "configurations"], "all timestamps x all date styles x field orders, reached through boundary days x boundary and full sets of times of day",
  "Tests check a few literal strings; each month name, weekday, fraction width, BC year and year width is a separate path in printing and in reading.",
  ["src/timestamp.rs", "src/parse.rs", "src/token.rs"],
  [("format_date_time", "src/timestamp.rs"), ("timestamp2time / decode_date_time", "src/parse.rs"), ("DATE_TOKENS", "src/token.rs")],
  ["Timestamp::format then Timestamp::try_from_str"])
p("C04", "Printed times of day read back as the same time",
  "For every time of day from 00:00:00 to 24:00:00 inclusive, to the microsecond, the printed text is hh:mm:ss with the fraction (if any) stripped of trailing zeros, and reading it back gives exactly that time, for every date style and field order.",
  ["inputs", "configurations"], "all 86,400,000,001 microsecond values, through all seconds x all fraction digit patterns and all fractions x boundary seconds",
  "Tests use about ten values; rounding of the fraction can fail on isolated microsecond values only.",
  ["src/time.rs", "src/parse.rs", "src/common.rs"],
  [("format_time / append_seconds", "src/time.rs, src/common.rs"), ("decode_time / decode_time_only", "src/parse.rs")],
  ["Time::format then Time::try_from_str"])
p("C05", "Printed intervals read back as the same interval",
  "For every interval whose hour part fits in 31 bits with sign, in each of the four interval styles, formatting succeeds without panicking, and reading the printed text in the same style gives an interval with exactly the same months, days and microseconds, including every mix of signs among the parts and fractions of a second.",
  ["inputs", "configurations"], "all intervals (boundary products of months x days x times, signs included) x the four styles",
  "Tests print and read a few literals; sign propagation ('ago', leading minus, mixed signs) and per-style zero handling depend on combinations of six fields.",
  ["src/interval.rs", "src/parse.rs"],
  [("format_interval", "src/interval.rs"), ("decode_interval / decode_iso8601_interval", "src/parse.rs")],
  ["Interval::format then Interval::try_from_str"])
p("C06", "Reading any text ends in a value in range or an error, never a crash",
  "Reading any string whatsoever (any length, any characters) as a date, time, timestamp or interval, with any field order, precision or style, returns either an error or a value inside the supported range of its type (a date or timestamp in range or infinite, a time between 00:00:00 and 24:00:00). "
  "It never panics, never overflows silently and always terminates, and an accepted value can be printed again (an interval only if its hours fit in 31 bits; otherwise printing it is an error, not a crash).",
  ["inputs", "configurations"], "all strings over a grammar-covering alphabet up to a length, all token sequences up to a depth, plus long inputs, for every reader and configuration",
  "Tests feed well-formed or mildly malformed literals; the readers index fixed buffers and do unchecked arithmetic on digits.",
  ["src/parse.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("parse_date_time and its field state machine", "src/parse.rs"), ("decode_*", "src/parse.rs"), ("fixed work buffer", "src/common.rs MAX_DATE_LEN")],
  ["try_from_str of all four types"])
p("C07", "Results never depend on earlier calls, other threads or leftover memory",
  "Every operation is a pure function of its arguments: the result of reading or printing a value is the same whatever was read or printed before on the same thread, whatever other threads do at the same time in any interleaving, and whatever bytes happen to be left in the memory it uses.",
  ["histories", "schedules", "inputs"], "all sequences of calls up to a length over an alphabet covering every keyword and cache slot; all interleavings of short per-thread call sequences; all stack fill patterns from a set",
  "Each test runs calls in one order; the keyword look-up caches are per-thread state and the work arrays start uninitialised, so an effect needs a particular predecessor call.",
  ["src/parse.rs", "src/token.rs"],
  [("DATE_CACHE / DELTA_CACHE thread-locals", "src/parse.rs"), ("uninitialised field arrays", "src/date.rs, src/time.rs, src/timestamp.rs, src/interval.rs")],
  ["try_from_str / format results"], [("keyword cache", "last keyword seen at each field position")])
p("C08", "Date text is read by PostgreSQL's rules for order, year and era",
  "A date written in any of the accepted notations - ISO, SQL or German delimiters, with a month name, compact digits, Julian day or year and day-of-year, in upper or lower case and with extra blanks - reads as the calendar date it denotes under the given field order. "
  "Two-digit years mean 1970-2069, BC negates the era, and a text denoting a non-existent date (month 13, day 32, 29 February of a common year, year 0) is rejected; reading as a timestamp with a time of day attached gives the same day plus that time. A text without a date is rejected, and the date reader and the timestamp reader accept the same texts and agree on the day.",
  ["inputs", "configurations"], "all renderings (notation x delimiter x order x case x era) of boundary years x all days, and all out-of-range field combinations",
  "Tests sample the PostgreSQL documentation's table; the rules interact (order x digits x name position x era).",
  ["src/parse.rs", "src/common.rs", "src/token.rs"],
  [("decode_date / decode_number / decode_number_field / validate_date", "src/parse.rs, src/common.rs"), ("DATE_TOKENS", "src/token.rs")],
  ["Date::try_from_str", "Timestamp::try_from_str"])
p("C09", "Time-of-day text is read by PostgreSQL's rules",
  "A time of day written as h:m, h:m:s, h:m:s.fraction, m:s.fraction, compact hhmm or hhmmss digits, with field labels (h4m5s6), after a T, or with AM/PM reads as the instant it denotes, with fractions rounded to the microsecond; 12 AM is midnight and 12 PM noon. "
  "Field values outside hour 0-24, minute 0-59, second 0-60, hour above 12 with AM or PM, and anything later than 24:00:00 are rejected, both alone and attached to a date.",
  ["inputs"], "all h x m x s in and around range in each notation, all fraction digit strings up to a length, all meridian suffixes",
  "Tests read a few literals; each of the boundary values 12, 24, 59, 60 has its own branch and they combine.",
  ["src/parse.rs", "src/time.rs"],
  [("decode_time / decode_time_only / decode_number_field", "src/parse.rs")],
  ["Time::try_from_str", "Timestamp::try_from_str"])
p("C10", "Interval text is read by unit, sign and fraction rules",
  "A list of signed quantities with units (from microseconds to millennia, in any accepted spelling or abbreviation and any case), an SQL-standard year-month or day-time literal, or an ISO 8601 duration reads as the interval whose months, days and microseconds are the exact sum of its parts, fractional quantities of weeks, days, hours, minutes and seconds spilling into smaller units; 'ago' negates all parts. "
  "Repeated units, unknown units and values whose sum does not fit are rejected rather than wrapped.",
  ["inputs", "configurations"], "all sequences of quantity x unit up to a length, all unit spellings, all SQL-standard and ISO 8601 shapes over boundary numbers",
  "Tests read a few dozen literals; unit tables, sign scope, fraction cascade and overflow combine.",
  ["src/parse.rs", "src/token.rs", "src/interval.rs"],
  [("decode_interval / decode_interval_number_field / adjust_frac_*", "src/parse.rs"), ("decode_iso8601_interval", "src/parse.rs"), ("DELTA_TOKENS", "src/token.rs")],
  ["Interval::try_from_str"])
p("C11", "Adding an interval moves months with clamping, then days, then time",
  "Adding an interval to a timestamp or date moves the calendar month first (keeping the day of month, or the last day of the target month if it is shorter), then the days, then the elapsed microseconds, exactly; subtracting adds the negated interval. "
  "If any step leaves the supported timestamp range the result is an error, never a wrapped or clipped value.",
  ["inputs"], "all boundary timestamps x boundary intervals (months x days x times, both signs, integer extremes), all month-ends x month counts",
  "Tests add a few intervals; month-end clamping, BC years and 64-bit overflow lie at specific combinations.",
  ["src/timestamp.rs", "src/date.rs", "src/common.rs"],
  [("Timestamp::add_interval / sub_interval", "src/timestamp.rs"), ("Date::add_interval / sub_interval", "src/date.rs"), ("PgTime::to_timestamp", "src/common.rs")],
  ["raw i64 of the result"])
p("C12", "Timestamp differences are exact and ages symbolic",
  "Subtracting two finite timestamps (or a date from a timestamp) gives whole days plus a remainder of less than a day with the same sign, whose total is the exact microsecond difference, or an error when that does not fit. "
  "The age of two timestamps is the symbolic year-month, day and time difference, all parts of one sign, fewer than 31 days and 24 hours, borrowing days from the length of the earlier timestamp's month; swapping the arguments negates it and equal arguments give zero.",
  ["inputs"], "all pairs of boundary timestamps",
  "Tests subtract a few pairs; borrowing across month lengths and the extremes of the range are about pairs.",
  ["src/timestamp.rs", "src/interval.rs"],
  [("Timestamp::sub_timestamp / sub_date / age", "src/timestamp.rs"), ("Interval::justify_hours", "src/interval.rs")],
  ["Interval parts"])
p("C13", "Day arithmetic on dates is exact or an error",
  "Adding or subtracting a number of days moves a date by exactly that many days and fails exactly when the result leaves the supported range; the difference of two finite dates is the exact number of days between them, so that adding it back returns to the start. Combining a date with a time of day gives that instant of that day.",
  ["inputs"], "all pairs of boundary dates and day counts including the i32 extremes",
  "Tests cover a handful of pairs; the failures are at overflow and range edges.",
  ["src/date.rs"],
  [("Date::add_days / sub_days / sub_date / add_time", "src/date.rs")], ["raw i32 of the result"])
p("C14", "Time-of-day arithmetic is exact modulo 24 hours",
  "Adding an interval to a time of day, or subtracting one, uses only the interval's time part and gives the unique time of day in [00:00, 24:00) congruent to the exact sum modulo 24 hours, for every interval however large; the difference of two times is their exact difference.",
  ["inputs"], "all boundary times x boundary interval time parts, including 64-bit extremes",
  "Tests add small intervals; wrap-around for large or negative spans needs specific values.",
  ["src/time.rs"],
  [("Time::add_interval / sub_interval / sub_time", "src/time.rs")], ["raw i64 of the result"])
p("C15", "Interval addition, subtraction and negation are exact part by part",
  "Adding, subtracting and negating intervals works independently and exactly on months, days and microseconds, and reports an overflow error exactly when some part does not fit, never a wrapped value. Consequently subtraction undoes addition and negating twice gives the original whenever no error is reported.",
  ["inputs"], "all pairs over boundary values of each part",
  "Tests add small intervals; overflow of one part while the others fit needs the boundary product.",
  ["src/interval.rs"],
  [("Interval::add_interval / sub_interval / negate", "src/interval.rs")], ["interval parts"])
p("C16", "Scaling an interval keeps its length and cascades fractions downward",
  "Multiplying or dividing an interval by a number scales each part, keeps the whole months and days, and passes only their fractions down (30 days per month, 24 hours per day; fractions that add up to a whole day count as a day), so that the total length is the scaled total up to rounding (a fraction of a month is kept to a millionth of a day); scaling by whole factors without overflow is exact part by part, and a negated interval or factor gives the negated result. "
  "Dividing by zero, a NaN factor and any result that does not fit are reported as errors rather than producing garbage or a panic.",
  ["inputs"], "all boundary intervals x a factor set covering integers, dyadic and decimal fractions, extremes, zero, infinities and NaN",
  "Tests multiply a few literals; rounding cascades and range checks fail on particular products.",
  ["src/interval.rs"],
  [("Interval::mul_f64 / div_f64", "src/interval.rs")], ["interval parts"])
p("C17", "Justifying an interval preserves its length and normalises its parts",
  "Justifying hours, days or the whole interval never changes its total length (24-hour days, 30-day months) as long as the parts fit, leaves the adjusted parts within their bounds (time below 24 hours, days below 30) with no opposite signs between the parts it adjusts, and doing it twice changes nothing more.",
  ["inputs"], "all intervals over boundary products of months x days x times",
  "Tests justify a few literals; sign repair has separate branches per sign combination and exact multiples.",
  ["src/interval.rs"],
  [("justify_hours / justify_days / justify_interval", "src/interval.rs")], ["interval parts"])
p("C18", "Ordering, equality and hashing agree and follow time",
  "Dates, times and timestamps order chronologically with minus infinity first and infinity last; intervals order by total length (24-hour days, 30-day months) without overflow. For all four types the order is total and transitive, and comparing equal, being equal and hashing alike always agree.",
  ["inputs"], "all pairs and triples over boundary values of each type",
  "Tests compare a few pairs; consistency of order, equality and hash is a statement about all pairs.",
  ["src/interval.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs"],
  [("Ord / PartialOrd / PartialEq / Hash for Interval", "src/interval.rs"), ("derived orders", "src/date.rs, src/time.rs, src/timestamp.rs")],
  ["cmp, ==, hash"])
p("C19", "Extracted fields are the calendar and clock fields of the value",
  "Extracting a field from any finite date, timestamp, time or interval gives the value the proleptic Gregorian and ISO week calendars define: second to hour, day, month, quarter, year (BC negative, no year zero), decade, century, millennium, day of week and ISO day, day of year, ISO week and ISO year (for years from 1 AD), Julian day; for intervals the sign-carrying parts and the epoch total. "
  "Units that do not apply to the type are rejected, as are dates beyond the timestamp range and intervals of more than 2^31 hours.",
  ["inputs", "configurations"], "all days of the 400-year cycle and all boundary years x all units; all boundary times and intervals x all units",
  "Tests extract fields of a dozen values; ISO weeks and BC centuries deviate only on specific days.",
  ["src/timestamp.rs", "src/interval.rs", "src/time.rs", "src/date.rs", "src/common.rs"],
  [("date_part", "src/timestamp.rs, src/interval.rs, src/time.rs"), ("date_to_iso_week / date_to_iso_year", "src/common.rs")],
  ["date_part"])
p("C20", "Truncation gives the latest unit boundary not after the value",
  "Truncating a finite date or timestamp to a unit gives the start of the period (microsecond to millennium, weeks starting on Monday) that contains it: never later than the value, in the same period, unchanged by truncating again; a start before the supported range is an error. "
  "Truncating an interval zeroes everything below the unit keeping the sign of the parts, and truncating a time does so modulo 24 hours; units that do not apply, dates beyond the timestamp range and intervals of more than 2^31 hours are rejected.",
  ["inputs", "configurations"], "all days of the 400-year cycle and all boundary years x boundary times x all units; boundary intervals and times x all units",
  "Tests truncate one or two values per unit; week truncation around New Year and BC centuries fail only on specific days.",
  ["src/common.rs", "src/timestamp.rs", "src/interval.rs", "src/time.rs", "src/date.rs"],
  [("truncate_timestamp_* / truncate_interval_*", "src/common.rs"), ("truncate", "src/timestamp.rs, src/interval.rs, src/time.rs")],
  ["truncate"])
p("C21", "Infinities are absorbing, ordered, and survive text and conversion",
  "The infinite dates and timestamps print as 'infinity' and '-infinity' in every style, read back from those words in any case, are reported as not finite (every other value, and every time and interval, as finite), convert between date and timestamp as the same infinity, and compare beyond every finite value. "
  "Adding or subtracting days, times and intervals, and truncating, leaves them unchanged (subtracting an interval whose negation does not fit is an error); differences with an infinity are errors; field extraction gives the signed infinity for ever-growing fields and zero for cyclic ones.",
  ["inputs", "configurations"], "both infinities x all operations x all styles, orders, units and boundary operands",
  "Tests check a few operations on infinities; each operation needs its own guard and the sentinels are ordinary integers otherwise.",
  ["src/date.rs", "src/timestamp.rs", "src/time.rs"],
  [("is_infinite guards", "src/date.rs, src/timestamp.rs"), ("infinite_part / format_special_timestamp", "src/timestamp.rs")],
  ["all public operations"])
p("C22", "Serialised values deserialise to the same value",
  "Serialising any supported date, time, timestamp or interval to a human-readable or to a binary format and deserialising it gives the same value, infinities included, whether or not the binary format describes its own data (integers then arrive in the width the format chose, structs as lists or maps). The human-readable form is the ISO text (SQL-standard text for intervals) and the binary form holds the raw numbers; human-readable text in any notation is read under year-month-day order and, for intervals, the SQL-standard style; malformed input gives an error.",
  ["inputs", "configurations"], "all boundary values of each type x JSON and bincode, plus malformed and permuted encodings",
  "Tests round-trip one or two values per type.",
  ["src/serde.rs"],
  [("Serialize / Deserialize impls", "src/serde.rs")], ["serde_json and bincode round trips"])
p("C23", "Conversions between types keep the instant",
  "Converting a date to a timestamp gives its midnight and converting back gives the same date; converting a timestamp to a date or to a time of day gives the calendar day and the time within that day, so that recombining them gives the timestamp back, also before 2000 and before year 1. "
  "A date beyond the timestamp range is an error; a time converts to an interval of that length, and an interval to its time part modulo 24 hours.",
  ["inputs"], "all dates in timestamp range; boundary days x boundary times of day; boundary intervals",
  "Tests convert a few values; negative day counts and microsecond borrow go wrong only for particular pre-epoch values.",
  ["src/date.rs", "src/timestamp.rs", "src/time.rs", "src/interval.rs", "src/parse.rs"],
  [("TryFrom<Timestamp> for Date / Option<Time>, TryFrom<Date> for Timestamp, From<Interval> for Time", "src/date.rs, src/time.rs, src/timestamp.rs"), ("timestamp2time", "src/parse.rs")],
  ["conversions"])
p("C24", "Requested precision rounds to nearest and restricts fields exactly",
  "Reading a time, timestamp or interval with a fractional-second precision of 0 to 6 gives the full-precision value rounded to the nearest multiple of that precision (halves away from zero), and the result is still a valid value or an error. "
  "An interval field restriction (year, month, day, hour, minute, second and the standard ranges) zeroes exactly the fields below the last one named and gives a number without a unit the last field named (two clock fields under minute to second are m:s), and precisions or restrictions that do not exist are rejected for timestamps and intervals; for times a precision outside 0 to 6 has no effect.",
  ["inputs", "configurations"], "boundary values around every rounding half x all precisions; all restriction masks x boundary intervals",
  "Tests use a few precisions and values; ties, negative values and range ends are specific values.",
  ["src/timestamp.rs", "src/time.rs", "src/interval.rs"],
  [("adjust_by_typmod", "src/timestamp.rs, src/time.rs, src/interval.rs")], ["try_from_str with a type modifier"])
p("C25", "Any sequence of operations stays valid and agrees with plain arithmetic",
  "Starting from any valid values, every sequence of public operations (arithmetic, truncation, conversion, printing and reading back) ends, after each step, in an error or in a valid value equal to what integer and calendar arithmetic predicts; no sequence panics.",
  ["histories"], "all sequences of operations up to a depth from a set of start values, breadth first with state deduplication",
  "Tests apply single operations to fresh values; states reached by chaining operations are never the start of another one.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("all public operations", "src/*.rs")], ["raw values after each step"])
p("C26", "Construction from components accepts exactly the valid combinations",
  "A time of day is constructed from hour, minute and second exactly when 0:00:00 <= it <= 24:00:00 with minute below 60 and second in 0..60 (60 carrying into the next minute), and a timestamp exactly when its date part exists (year 1 or later), its time part is valid and the result is in range; the value is the instant denoted, seconds rounded to the microsecond. "
  "An interval is constructed from years to seconds as the exact months, days and microseconds they sum to, whenever those fit; NaN and infinite seconds are errors for all three. The empty constructors give midnight and the zero interval.",
  ["inputs"], "all hour x minute x second boundary combinations, boundary dates, and extreme and non-finite components",
  "Tests construct a few values; acceptance is a conjunction of bounds over six numbers including floating-point specials.",
  ["src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("Time::try_from_hms", "src/time.rs"), ("Timestamp::try_from_ymd_hms", "src/timestamp.rs"), ("Interval::try_from_ymwd_hms", "src/interval.rs")],
  ["raw values"])

p("C27", "Printed intervals have exactly the form of their style",
  "An interval whose hours fit prints in each of the four styles exactly as PostgreSQL prints it: the same units in the same order, zero units left out, singular and plural words, signs (a '+' after a negative part in the Postgres style, 'ago' for a negative leading part in the verbose style, one common sign or one sign per part in the SQL standard style, one sign per unit in ISO 8601), two-digit minutes and seconds in clock forms, and the fraction of a second with its trailing zeros removed; a zero interval prints as '00:00:00', '@ 0', '0' and 'PT0S'.",
  ["inputs", "configurations"], "all boundary intervals (months x days x times) x the four styles, every second of two days and every microsecond of a second of both signs",
  "Tests pin a dozen printed intervals; the form depends on the combination of signs and zeros of seven fields.",
  ["src/interval.rs", "src/common.rs"],
  [("Interval::format", "src/interval.rs"), ("interval2tm, format_interval and the add_*_int_part helpers", "src/interval.rs")],
  ["printed text"])

p("C28", "Values made from raw numbers never crash an operation",
  "A date, time or timestamp can be made from any raw number (the From conversions, binary deserialisation), also from one outside its supported range. Every public operation on such values - printing, serialising, extracting, truncating, converting, adding, subtracting, comparing - ends in a value or an error, never in a panic or an arithmetic overflow. An out-of-range date is an error to print or to convert to a timestamp; day arithmetic on raw dates is exact or an error; and every sum with a raw date, time or timestamp is in the supported range (or infinite) or an error.",
  ["inputs"], "raw numbers around every range end, integer limit and power of two, in and out of range x every operation, all pairs",
  "Tests only use values in range; the raw numbers that overflow an intermediate step lie outside it.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/serde.rs"],
  [("From<i32> for Date, From<i64> for Time and Timestamp", "src/date.rs, src/time.rs, src/timestamp.rs"), ("Date::format, Timestamp::try_from(Date), Time::to_pgtime", "src/date.rs, src/timestamp.rs, src/time.rs")],
  ["results of every operation"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
