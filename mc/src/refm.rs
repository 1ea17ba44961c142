//! Independent reference model: proleptic Gregorian calendar and exact integer arithmetic.
//! Deliberately boring: i64/i128 everywhere, no shared code or algorithms with the crate.

pub const US: i64 = 1_000_000;
pub const MIN_US: i64 = 60 * US;
pub const HOUR_US: i64 = 3600 * US;
pub const DAY_US: i64 = 86_400 * US;

pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

/// Days in month m of astronomical year y.
pub fn dim(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        _ => 0,
    }
}

/// Day number of y-m-d (astronomical year), 2000-01-01 = 0.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    // days before year y counted from year 0
    let before_year = |y: i64| {
        365 * y + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400)
    };
    let mut n = before_year(y) - before_year(2000);
    let cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    n += cum[(m - 1) as usize];
    if m > 2 && leap(y) {
        n += 1;
    }
    n + d - 1
}

/// Calendar date (astronomical year) of a day number.
pub fn civil(n: i64) -> (i64, i64, i64) {
    // 146097 days per 400 years; year 2000 starts a cycle.
    let cycle = n.div_euclid(146_097);
    let mut r = n.rem_euclid(146_097);
    let mut y = 2000 + 400 * cycle;
    // first century of the cycle has 36525 days, the others 36524
    if r >= 36_525 {
        let c = 1 + (r - 36_525) / 36_524;
        r = (r - 36_525) % 36_524;
        y += 100 * c;
        // within such a century the first four-year group has 1460 days
        if r >= 1460 {
            y += 4 + 4 * ((r - 1460) / 1461);
            r = (r - 1460) % 1461;
        }
    } else {
        y += 4 * (r / 1461);
        r %= 1461;
    }
    loop {
        let len = if leap(y) { 366 } else { 365 };
        if r < len {
            break;
        }
        r -= len;
        y += 1;
    }
    let mut m = 1;
    while r >= dim(y, m) {
        r -= dim(y, m);
        m += 1;
    }
    (y, m, r + 1)
}

/// Date range [DATE_MIN, DATE_END) as day numbers.
pub const DATE_MIN: i64 = -2_451_545;
pub const DATE_END: i64 = 2_145_031_949;
/// Timestamp range [TS_MIN, TS_END) in microseconds.
pub const TS_MIN: i64 = -211_813_488_000_000_000;
pub const TS_END: i64 = 9_223_371_331_200_000_000;
pub const TS_DAY_END: i64 = TS_END / DAY_US;

pub fn self_check() {
    assert_eq!(days(-4713, 11, 24), DATE_MIN);
    assert_eq!(days(5_874_898, 1, 1), DATE_END);
    assert_eq!(DATE_MIN * DAY_US, TS_MIN);
    assert_eq!(days(294_277, 1, 1) * DAY_US, TS_END);
    // the two calendar algorithms are inverse to each other over several cycles and the ends
    for base in [DATE_MIN, -1_000_000, -730_500, 0, TS_DAY_END - 146_100, DATE_END - 146_100] {
        for n in base..base + 146_100 {
            let (y, m, d) = civil(n);
            assert_eq!(days(y, m, d), n);
            assert!((1..=12).contains(&m) && d >= 1 && d <= dim(y, m));
        }
    }
    assert_eq!(dow(days(2000, 1, 1)), 6);
    assert_eq!(iso_week(days(2018, 12, 31)), (2019, 1));
    assert_eq!(iso_week(days(2021, 1, 3)), (2020, 53));
}

/// 0 = Sunday.
pub fn dow(n: i64) -> i64 {
    (n + 6).rem_euclid(7)
}

/// (ISO year, ISO week): the week belongs to the year holding its Thursday.
pub fn iso_week(n: i64) -> (i64, i64) {
    let monday = n - (dow(n) + 6) % 7;
    let (y, _, _) = civil(monday + 3);
    let doy = monday + 3 - days(y, 1, 1);
    (y, doy / 7 + 1)
}

/// User-visible year: no year zero.
pub fn vis_year(y: i64) -> i64 {
    if y > 0 {
        y
    } else {
        y - 1
    }
}

/// Astronomical year of a user-visible one.
pub fn astro(v: i64) -> i64 {
    if v > 0 {
        v
    } else {
        v + 1
    }
}

pub fn date_ok(n: i64) -> bool {
    (DATE_MIN..DATE_END).contains(&n)
}
pub fn ts_ok(t: i128) -> bool {
    t >= TS_MIN as i128 && t < TS_END as i128
}

/// months, days, microseconds
pub type Iv = (i32, i32, i64);

pub fn iv_total(v: Iv) -> i128 {
    v.2 as i128 + (v.1 as i128 + 30 * v.0 as i128) * DAY_US as i128
}

fn i32ok(x: i128) -> Option<i32> {
    i32::try_from(x).ok()
}
fn i64ok(x: i128) -> Option<i64> {
    i64::try_from(x).ok()
}

pub fn iv_mk(m: i128, d: i128, t: i128) -> Option<Iv> {
    Some((i32ok(m)?, i32ok(d)?, i64ok(t)?))
}
pub fn r_iv_add(a: Iv, b: Iv) -> Option<Iv> {
    iv_mk(a.0 as i128 + b.0 as i128, a.1 as i128 + b.1 as i128, a.2 as i128 + b.2 as i128)
}
pub fn r_iv_sub(a: Iv, b: Iv) -> Option<Iv> {
    iv_mk(a.0 as i128 - b.0 as i128, a.1 as i128 - b.1 as i128, a.2 as i128 - b.2 as i128)
}
pub fn r_iv_neg(a: Iv) -> Option<Iv> {
    iv_mk(-(a.0 as i128), -(a.1 as i128), -(a.2 as i128))
}

/// Timestamp + interval: months with clamping, then days, then time; None = error.
pub fn r_ts_add(ts: i64, v: Iv) -> Option<i64> {
    let mut t = ts as i128;
    if v.0 != 0 {
        let day = t.div_euclid(DAY_US as i128) as i64;
        let tod = t.rem_euclid(DAY_US as i128);
        let (y, m, d) = civil(day);
        let months = y * 12 + (m - 1) + v.0 as i64;
        let (ny, nm) = (months.div_euclid(12), months.rem_euclid(12) + 1);
        let nd = d.min(dim(ny, nm));
        t = days(ny, nm, nd) as i128 * DAY_US as i128 + tod;
        if !ts_ok(t) {
            return None;
        }
    }
    if v.1 != 0 {
        t += v.1 as i128 * DAY_US as i128;
        if !ts_ok(t) {
            return None;
        }
    }
    t += v.2 as i128;
    if !ts_ok(t) {
        return None;
    }
    Some(t as i64)
}

pub fn r_ts_sub(ts: i64, v: Iv) -> Option<i64> {
    r_ts_add(ts, r_iv_neg(v)?)
}

pub fn r_ts_diff(a: i64, b: i64) -> Option<Iv> {
    let d = a as i128 - b as i128;
    i64ok(d)?;
    let day = DAY_US as i128;
    Some((0, (d / day) as i32, (d % day) as i64))
}

pub fn r_ts_age(a: i64, b: i64) -> Iv {
    if a < b {
        let (m, d, t) = r_ts_age(b, a);
        return (-m, -d, -t);
    }
    let split = |x: i64| (civil(x.div_euclid(DAY_US)), x.rem_euclid(DAY_US));
    let ((ly, lm, ld), lt) = split(a);
    let ((ey, em, ed), et) = split(b);
    let mut t = lt - et;
    let mut d = ld - ed;
    let mut m = (ly * 12 + lm) - (ey * 12 + em);
    if t < 0 {
        t += DAY_US;
        d -= 1;
    }
    if d < 0 {
        d += dim(ey, em);
        m -= 1;
    }
    (m as i32, d as i32, t)
}

pub fn time_mod(x: i128) -> i64 {
    x.rem_euclid(DAY_US as i128) as i64
}

pub fn r_justify_hours(v: Iv) -> Option<Iv> {
    let day = DAY_US as i128;
    let mut t = v.2 as i128;
    let mut d = v.1 as i128 + t / day;
    t %= day;
    if d > 0 && t < 0 {
        t += day;
        d -= 1;
    } else if d < 0 && t > 0 {
        t -= day;
        d += 1;
    }
    iv_mk(v.0 as i128, d, t)
}

pub fn r_justify_days(v: Iv) -> Option<Iv> {
    let mut d = v.1 as i128;
    let mut m = v.0 as i128 + d / 30;
    d %= 30;
    if m > 0 && d < 0 {
        d += 30;
        m -= 1;
    } else if m < 0 && d > 0 {
        d -= 30;
        m += 1;
    }
    iv_mk(m, d, v.2 as i128)
}

// ---------------------------------------------------------------- text

pub fn frac_str(us: i64) -> String {
    if us == 0 {
        return String::new();
    }
    let s = format!(".{:06}", us);
    s.trim_end_matches('0').to_string()
}

pub fn tod_str(t: i64) -> String {
    let h = t / HOUR_US;
    let m = t / MIN_US % 60;
    let s = t / US % 60;
    format!("{:02}:{:02}:{:02}{}", h, m, s, frac_str(t % US))
}

pub const MONTHS: [&str; 12] = [
    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
];
pub const MONTHS_FULL: [&str; 12] = [
    "January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
    "November", "December",
];
pub const WDAYS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
pub const WDAYS_FULL: [&str; 7] = [
    "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
];

// ---------------------------------------------------------------- truncation / extraction

/// Start (day number) of the period of the given unit that holds day n.
pub fn period_start_day(unit: &str, n: i64) -> i64 {
    let (y, m, _) = civil(n);
    match unit {
        "day" => n,
        "week" => n - (dow(n) + 6) % 7,
        "month" => days(y, m, 1),
        "quarter" => days(y, (m - 1) / 3 * 3 + 1, 1),
        "year" => days(y, 1, 1),
        "decade" => days(y.div_euclid(10) * 10, 1, 1),
        "century" => days((y - 1).div_euclid(100) * 100 + 1, 1, 1),
        "millennium" => days((y - 1).div_euclid(1000) * 1000 + 1, 1, 1),
        _ => unreachable!(),
    }
}

/// Truncation of a timestamp; None = error.
pub fn r_ts_trunc(unit: &str, ts: i64) -> Option<i64> {
    let day = ts.div_euclid(DAY_US);
    let r = match unit {
        "micro" => ts as i128,
        "milli" => (ts.div_euclid(1000) as i128) * 1000,
        "second" => (ts.div_euclid(US) as i128) * US as i128,
        "minute" => (ts.div_euclid(MIN_US) as i128) * MIN_US as i128,
        "hour" => (ts.div_euclid(HOUR_US) as i128) * HOUR_US as i128,
        u => period_start_day(u, day) as i128 * DAY_US as i128,
    };
    if ts_ok(r) {
        Some(r as i64)
    } else {
        None
    }
}

/// Truncation of an interval; None = error.
pub fn r_iv_trunc(unit: &str, v: Iv) -> Iv {
    let q = |x: i64, u: i64| x / u * u;
    let (m, d, t) = v;
    match unit {
        "micro" => v,
        "milli" => (m, d, q(t, 1000)),
        "second" => (m, d, q(t, US)),
        "minute" => (m, d, q(t, MIN_US)),
        "hour" => (m, d, q(t, HOUR_US)),
        "day" => (m, d, 0),
        "month" => (m, 0, 0),
        "quarter" => (m / 3 * 3, 0, 0),
        "year" => (m / 12 * 12, 0, 0),
        "decade" => (m / 120 * 120, 0, 0),
        "century" => (m / 1200 * 1200, 0, 0),
        "millennium" => (m / 12000 * 12000, 0, 0),
        _ => unreachable!(),
    }
}

/// Extraction from a timestamp; None = the unit does not apply.
pub fn r_ts_part(unit: &str, ts: i64) -> Option<f64> {
    let n = ts.div_euclid(DAY_US);
    let tod = ts.rem_euclid(DAY_US);
    let (y, m, d) = civil(n);
    Some(match unit {
        "micro" => (tod % MIN_US) as f64,
        "milli" => (tod % MIN_US / US * 1000) as f64 + (tod % US) as f64 / 1000.0,
        "second" => (tod % MIN_US / US) as f64 + (tod % US) as f64 / 1e6,
        "minute" => (tod / MIN_US % 60) as f64,
        "hour" => (tod / HOUR_US) as f64,
        "day" => d as f64,
        "week" => iso_week(n).1 as f64,
        "month" => m as f64,
        "quarter" => ((m + 2) / 3) as f64,
        "year" => vis_year(y) as f64,
        "decade" => y.div_euclid(10) as f64,
        "century" => {
            let c = (y - 1).div_euclid(100);
            (if c >= 0 { c + 1 } else { c }) as f64
        }
        "millennium" => {
            let c = (y - 1).div_euclid(1000);
            (if c >= 0 { c + 1 } else { c }) as f64
        }
        "julian" => (n - DATE_MIN) as f64 + tod as f64 / DAY_US as f64,
        "isoyear" => iso_week(n).0 as f64,
        "dow" => dow(n) as f64,
        "isodow" => {
            let w = dow(n);
            (if w == 0 { 7 } else { w }) as f64
        }
        "doy" => (n - days(y, 1, 1) + 1) as f64,
        _ => return None,
    })
}

pub fn r_time_part(unit: &str, t: i64) -> Option<f64> {
    Some(match unit {
        "micro" => (t % MIN_US) as f64,
        "milli" => (t % MIN_US / US * 1000) as f64 + (t % US) as f64 / 1000.0,
        "second" => (t % MIN_US / US) as f64 + (t % US) as f64 / 1e6,
        "minute" => (t / MIN_US % 60) as f64,
        "hour" => (t / HOUR_US) as f64,
        _ => return None,
    })
}

pub fn r_iv_part(unit: &str, v: Iv) -> Option<f64> {
    let (m, d, t) = v;
    Some(match unit {
        "micro" | "milli" | "second" | "minute" | "hour" => return r_time_part(unit, t),
        "day" => d as f64,
        "month" => (m % 12) as f64,
        "quarter" => (m % 12 / 3 + 1) as f64,
        "year" => (m / 12) as f64,
        "decade" => (m / 120) as f64,
        "century" => (m / 1200) as f64,
        "millennium" => (m / 12000) as f64,
        _ => return None,
    })
}

/// Rounds to the nearest multiple of 10^(6-p) microseconds, halves away from zero.
pub fn round_prec(x: i64, p: usize) -> i128 {
    let unit = 10i128.pow(6 - p as u32);
    let x = x as i128;
    let a = x.abs();
    let r = (a + unit / 2) / unit * unit;
    if x < 0 {
        -r
    } else {
        r
    }
}
