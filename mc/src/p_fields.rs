//! C19 extraction, C20 truncation, C21 infinities.
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;
use std::cmp::Ordering;

const CAL_UNITS: [&str; 13] = [
    "day", "week", "month", "quarter", "year", "decade", "century", "millennium", "julian", "dow", "isodow", "doy", "isoyear",
];
const CLOCK_UNITS: [&str; 5] = ["micro", "milli", "second", "minute", "hour"];

/// Equal, up to the rounding of a division for the fractional fields.
fn close(unit: &str, got: &Out<f64>, want: Option<f64>) -> bool {
    match (got, want) {
        (Out::Ok(g), Some(w)) => {
            if matches!(unit, "second" | "milli" | "julian" | "epoch") {
                (g - w).abs() <= 5e-16 * w.abs() * 2.0
            } else {
                *g == w
            }
        }
        (Out::Err, None) => true,
        _ => false,
    }
}

// ------------------------------------------------------------------ C19

/// All calendar fields of one day; ISO years before 1 AD are outside the property.
fn day_fields(ctx: &Ctx, l: &mut Loc, n: i64, tod: i64, (y, m, d): (i64, i64, i64)) {
    let ts = n * DAY_US + tod;
    let (iy, iw) = iso_week(n);
    let doy = n - days(y, 1, 1) + 1;
    let c = (y - 1).div_euclid(100);
    let k = (y - 1).div_euclid(1000);
    let w = dow(n);
    let want: [f64; 13] = [
        d as f64,
        iw as f64,
        m as f64,
        ((m + 2) / 3) as f64,
        vis_year(y) as f64,
        y.div_euclid(10) as f64,
        (if c >= 0 { c + 1 } else { c }) as f64,
        (if k >= 0 { k + 1 } else { k }) as f64,
        (n - DATE_MIN) as f64 + tod as f64 / DAY_US as f64,
        w as f64,
        (if w == 0 { 7 } else { w }) as f64,
        doy as f64,
        iy as f64,
    ];
    l.st();
    for (i, u) in CAL_UNITS.iter().enumerate() {
        if *u == "isoyear" && iy < 1 {
            continue;
        }
        l.tr(1);
        let g = ts_part(ts, false, unit(u));
        ctx.ensure(l, close(u, &g, Some(want[i])), || vec![st!["ts.part", ts, false, u]], || format!("{}", want[i]), || g.show());
    }
}

fn clock_fields(ctx: &Ctx, l: &mut Loc, ts: i64) {
    l.st();
    let t = ts.rem_euclid(DAY_US);
    for u in CLOCK_UNITS {
        l.tr(2);
        let w = r_time_part(u, t);
        let g = ts_part(ts, false, unit(u));
        ctx.ensure(l, close(u, &g, w), || vec![st!["ts.part", ts, false, u]], || format!("{:?}", w), || g.show());
        let g = time_part(t, false, unit(u));
        ctx.ensure(l, close(u, &g, w), || vec![st!["time.part", t, false, u]], || format!("{:?}", w), || g.show());
    }
}

/// Extraction is independent of the other part: time of a timestamp vs calendar fields.
pub fn c19(ctx: &Ctx) {
    let nd = (TS_DAY_END - DATE_MIN) as u64;
    let step = 1u64;
    ctx.bound(format!("13 calendar fields of every {step}th day of the timestamp range, from 4714 BC to 294276 AD, at a time of day that varies"));
    ctx.par(nd.div_ceil(step), 16_384, |l, i| {
        let n = DATE_MIN + (i * step) as i64;
        let tod = (i as i64 * 591_593_137).rem_euclid(DAY_US);
        day_fields(ctx, l, n, tod, civil(n));
    });
    ctx.bound("the same for every day of years -4713..3000");
    let (a, b) = (DATE_MIN, days(3001, 1, 1));
    ctx.par((b - a) as u64, 8192, |l, i| {
        let n = a + i as i64;
        day_fields(ctx, l, n, if i % 2 == 0 { 0 } else { DAY_US - 1 }, civil(n));
    });
    // dates give the fields of their midnight
    let kd = key_days(ctx, true);
    ctx.bound(format!("{} boundary dates: 18 fields equal those of midnight; inapplicable units rejected", kd.len()));
    ctx.par(kd.len() as u64, 16, |l, i| {
        let n = kd[i as usize];
        for (u, du) in UNITS {
            if u == "isoyear" && iso_week(n).0 < 1 {
                continue;
            }
            l.tr(1);
            let w = r_ts_part(u, n * DAY_US);
            let g = date_part(n as i32, false, du);
            ctx.ensure(l, close(u, &g, w), || vec![st!["date.part", n, false, u]], || format!("{:?}", w), || g.show());
            let g = ts_part(n * DAY_US + 7, false, du);
            let w = r_ts_part(u, n * DAY_US + 7);
            ctx.ensure(l, close(u, &g, w), || vec![st!["ts.part", n * DAY_US + 7, false, u]], || format!("{:?}", w), || g.show());
        }
    });
    // clock fields
    ctx.bound("5 clock fields of every second of a day (fraction varying) for timestamps on 5 days and for times");
    let ds = [DATE_MIN, -1, 0, days(0, 2, 29), TS_DAY_END - 1];
    ctx.par(5 * 86_400, 2048, |l, i| {
        let s = (i % 86_400) as i64;
        clock_fields(ctx, l, ds[(i / 86_400) as usize] * DAY_US + s * US + (s * 7919) % US);
    });
    let fs = ctx.pick(5u64, 1);
    ctx.bound(format!("every {fs}th microsecond of a minute"));
    ctx.par(60_000_000 / fs / ctx.pick(20, 1), 16_384, |l, i| {
        clock_fields(ctx, l, -DAY_US * 3 + 23 * HOUR_US + 59 * MIN_US + (i * fs) as i64 * ctx.pick(20, 1));
    });
    // times: the end of the day, inapplicable units, epoch
    let mut td = tods(ctx);
    td.push(DAY_US);
    ctx.par(td.len() as u64, 16, |l, i| {
        let t = td[i as usize];
        l.st();
        for (u, du) in UNITS {
            l.tr(2);
            let w = r_time_part(u, t);
            let g = time_part(t, false, du);
            ctx.ensure(l, close(u, &g, w), || vec![st!["time.part", t, false, u]], || format!("{:?}", w), || g.show());
            let w = if u == "epoch" { Some(t as f64 / 1e6) } else { None };
            let g = time_part(t, true, du);
            ctx.ensure(l, close(u, &g, w), || vec![st!["time.part", t, true, u]], || format!("{:?}", w), || g.show());
        }
    });
    // wrong field type for dates and timestamps
    ctx.par(kd.len() as u64, 64, |l, i| {
        let n = kd[i as usize];
        for (u, du) in UNITS {
            if u == "epoch" {
                continue;
            }
            l.tr(2);
            let g = ts_part(n * DAY_US, true, du);
            ctx.check(l, &g, &Out::Err, || vec![st!["ts.part", n * DAY_US, true, u]]);
            let g = date_part(n as i32, true, du);
            ctx.check(l, &g, &Out::Err, || vec![st!["date.part", n, true, u]]);
        }
    });
    // intervals
    let is = i32s();
    let ls = i64s();
    ctx.bound(format!("{} months x {} times x 5 days and {} days: interval fields, epoch", is.len(), ls.len(), is.len()));
    let dims = [is.len() as u64, ls.len() as u64];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b] = digits(i, dims);
        for d in [0, 1, -29, i32::MAX, i32::MIN] {
            iv_fields(ctx, l, (is[a], d, ls[b]));
        }
        iv_fields(ctx, l, (is[is.len() - 1 - a], is[a], ls[b]));
    });
    let w = ctx.pick(13_000u64, 300_000);
    ctx.bound(format!("month counts -{0}..{0}", w));
    ctx.par(2 * w + 1, 512, |l, i| iv_fields(ctx, l, ((i as i64 - w as i64) as i32, -3, -5 * HOUR_US - 61_000_001)));
    ctx.assume("ISO years before 1 AD, extraction from intervals of more than 2^31 hours (an error) and from dates beyond the timestamp range (an error) are outside the property");
    ctx.sample(|| format!("isoyear of 2018-12-31 -> {:?}", ts_part(days(2018, 12, 31) * DAY_US, false, unit("isoyear"))));
    ctx.sample(|| format!("century of 1 BC -> {:?}", ts_part(days(0, 5, 1) * DAY_US, false, unit("century"))));
}

fn hours_fit(v: Iv) -> bool {
    i32::try_from(v.2 / HOUR_US).is_ok()
}

fn iv_fields(ctx: &Ctx, l: &mut Loc, v: Iv) {
    l.st();
    for (u, du) in UNITS {
        l.tr(2);
        let w = if hours_fit(v) { r_iv_part(u, v) } else { None };
        let g = iv_part(v, false, du);
        ctx.ensure(l, close(u, &g, w), || vec![st!["iv.part", v.0, v.1, v.2, false, u]], || format!("{:?}", w), || g.show());
        let g = iv_part(v, true, du);
        if u == "epoch" {
            // years of 365.25 days, months of 30 days
            let secs = v.2 as f64 / 1e6
                + 86_400.0 * (365.25 * (v.0 / 12) as f64 + 30.0 * (v.0 % 12) as f64 + v.1 as f64);
            let mag = (v.2 as f64 / 1e6).abs() + 86_400.0 * (365.25 * (v.0 / 12).abs() as f64 + 360.0 + (v.1 as f64).abs());
            let ok = matches!(&g, Out::Ok(x) if (x - secs).abs() <= mag * 1e-15);
            ctx.ensure(l, ok, || vec![st!["iv.part", v.0, v.1, v.2, true, u]], || format!("{secs}"), || g.show());
        } else {
            ctx.check(l, &g, &Out::Err, || vec![st!["iv.part", v.0, v.1, v.2, true, u]]);
        }
    }
}

// ------------------------------------------------------------------ C20

fn trunc_ts(ctx: &Ctx, l: &mut Loc, ts: i64, u: &str, start: Option<i64>) {
    l.tr(1);
    let want = match start {
        Some(s) => Out::Ok(s),
        None => Out::Err,
    };
    let g = ts_trunc(ts, false, unit(u));
    ctx.check(l, &g, &want, || vec![st!["ts.trunc", ts, false, u]]);
}

pub fn c20(ctx: &Ctx) {
    const DU: [&str; 8] = ["day", "week", "month", "quarter", "year", "decade", "century", "millennium"];
    let nd = (TS_DAY_END - DATE_MIN) as u64;
    let step = 1u64;
    ctx.bound(format!("every {step}th day of the timestamp range truncated to 8 calendar units"));
    let one = |l: &mut Loc, n: i64, tod: i64| {
        l.st();
        for u in DU {
            let s = period_start_day(u, n);
            trunc_ts(ctx, l, n * DAY_US + tod, u, if s >= DATE_MIN { Some(s * DAY_US) } else { None });
        }
    };
    ctx.par(nd.div_ceil(step), 16_384, |l, i| one(l, DATE_MIN + (i * step) as i64, (i as i64 * 591_593_137).rem_euclid(DAY_US)));
    ctx.bound("every day of years -4713..3000, first and last microsecond");
    let (a, b) = (DATE_MIN, days(3001, 1, 1));
    ctx.par((b - a) as u64, 8192, |l, i| {
        one(l, a + i as i64, 0);
        one(l, a + i as i64, DAY_US - 1);
    });
    // clock units, idempotence, same period, not after
    let kd = key_days(ctx, true);
    let td = tods(ctx);
    let kstep = ctx.pick(5, 1);
    let kd2: Vec<i64> = kd.iter().copied().enumerate().filter(|(i, n)| i % kstep == 0 || *n < DATE_MIN + 10 || *n > TS_DAY_END - 10).map(|x| x.1).collect();
    ctx.bound(format!("{} days x {} times of day x 13 units: the unit boundary, and truncating again changes nothing", kd2.len(), td.len()));
    let dims = [kd2.len() as u64, td.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b] = digits(i, dims);
        let ts = kd2[a] * DAY_US + td[b];
        l.st();
        for u in TRUNC_UNITS {
            let w = r_ts_trunc(u, ts);
            trunc_ts(ctx, l, ts, u, w);
            if let Some(w) = w {
                l.tr(1);
                let g = ts_trunc(w, false, unit(u));
                ctx.check(l, &g, &Out::Ok(w), || vec![st!["ts.trunc", ts, false, u], st!["ts.trunc", w, false, u]]);
            }
        }
    });
    // dates
    let mut dd = kd.clone();
    for base in [DATE_MIN, -365, days(1, 1, 1) - 20, days(-100, 12, 20), days(2019, 12, 20)] {
        dd.extend(base..base + 400);
    }
    let dd = dedup(dd);
    ctx.bound(format!("{} dates x 23 units, inapplicable units rejected", dd.len()));
    ctx.par(dd.len() as u64, 32, |l, i| {
        let n = dd[i as usize];
        l.st();
        for (u, du) in UNITS {
            l.tr(3);
            let g = date_trunc(n as i32, false, du);
            let w = if TRUNC_UNITS.contains(&u) {
                match r_ts_trunc(u, n * DAY_US) {
                    Some(t) => Out::Ok(t.div_euclid(DAY_US) as i32),
                    None => Out::Err,
                }
            } else {
                Out::Err
            };
            ctx.check(l, &g, &w, || vec![st!["date.trunc", n, false, u]]);
            if !TRUNC_UNITS.contains(&u) {
                let g = ts_trunc(n * DAY_US, false, du);
                ctx.check(l, &g, &Out::Err, || vec![st!["ts.trunc", n * DAY_US, false, u]]);
            }
            let g = ts_trunc(n * DAY_US, true, du);
            ctx.check(l, &g, &Out::Err, || vec![st!["ts.trunc", n * DAY_US, true, u]]);
        }
    });
    // times
    let mut tt = td.clone();
    tt.push(DAY_US);
    ctx.bound(format!("{} times of day and every second of the day x 23 units", tt.len()));
    let time = |l: &mut Loc, t: i64| {
        l.st();
        for (u, du) in UNITS {
            l.tr(1);
            let g = time_trunc(t, false, du);
            let w = if u != "week" && TRUNC_UNITS.contains(&u) { Out::Ok(time_mod(r_iv_trunc(u, (0, 0, t)).2 as i128)) } else { Out::Err };
            ctx.check(l, &g, &w, || vec![st!["time.trunc", t, false, u]]);
        }
    };
    ctx.par(tt.len() as u64, 32, |l, i| time(l, tt[i as usize]));
    ctx.par(86_400, 512, |l, i| time(l, i as i64 * US + (i as i64 * 7919) % US));
    // intervals
    let is = i32s();
    let ls = i64s();
    ctx.bound(format!("intervals: {} months x {} times x 5 days x 23 units; month counts -30000..30000", is.len(), ls.len()));
    let iv = |l: &mut Loc, v: Iv| {
        l.st();
        for (u, du) in UNITS {
            l.tr(1);
            let g = iv_trunc(v, false, du);
            let w = if u != "week" && TRUNC_UNITS.contains(&u) && hours_fit(v) { Out::Ok(r_iv_trunc(u, v)) } else { Out::Err };
            if ctx.check(l, &g, &w, || vec![st!["iv.trunc", v.0, v.1, v.2, false, u]]) {
                if let Out::Ok(w) = w {
                    l.tr(1);
                    let g = iv_trunc(w, false, du);
                    ctx.check(l, &g, &Out::Ok(w), || vec![st!["iv.trunc", w.0, w.1, w.2, false, u]]);
                }
            }
            if u == "hour" || u == "epoch" {
                let g = iv_trunc(v, true, du);
                ctx.check(l, &g, &Out::Err, || vec![st!["iv.trunc", v.0, v.1, v.2, true, u]]);
            }
        }
    };
    let dims = [is.len() as u64, ls.len() as u64];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b] = digits(i, dims);
        for d in [0, 1, -29, i32::MAX, i32::MIN] {
            iv(l, (is[a], d, ls[b]));
        }
    });
    ctx.par(60_001, 512, |l, i| iv(l, (i as i32 - 30_000, 7, -5 * HOUR_US - 61_000_001)));
    ctx.assume("dates beyond the timestamp range and intervals of more than 2^31 hours are rejected; they are outside the property");
    ctx.sample(|| format!("week of 2020-01-01 -> {:?}", date_trunc(days(2020, 1, 1) as i32, false, unit("week"))));
    ctx.sample(|| format!("century of the first day -> {:?}", date_trunc(DATE_MIN as i32, false, unit("century"))));
}

// ------------------------------------------------------------------ C21

pub fn c21(ctx: &Ctx) {
    let inf_d = [(i32::MIN, "-infinity"), (i32::MAX, "infinity")];
    let inf_t = [(i64::MIN, "-infinity"), (i64::MAX, "infinity")];
    ctx.bound("both infinities of dates and timestamps x every style and order");
    ctx.seq(|l| {
        for k in 0..2 {
            let (d, word) = inf_d[k];
            let (t, _) = inf_t[k];
            l.st();
            for s in STYLES {
                for o in ORDERS {
                    l.tr(2);
                    let g = date_format(d, s, o);
                    ctx.check(l, &g, &Out::Ok(word.to_string()), || vec![st!["date.format", d, style_name(s), order_name(o)]]);
                    let g = ts_format(t, s, o);
                    ctx.check(l, &g, &Out::Ok(word.to_string()), || vec![st!["ts.format", t, style_name(s), order_name(o)]]);
                }
            }
            l.tr(6);
            let fin = call1(|| (mkd(d).is_finite(), mkd(d).is_infinite(), mkts(t).is_finite(), mkts(t).is_infinite()));
            ctx.check(l, &fin, &Out::Ok((false, true, false, true)), || vec![st!["is_finite", d, t]]);
            let g = date_to_ts(d);
            ctx.check(l, &g, &Out::Ok(t), || vec![st!["date.to_ts", d]]);
            let g = ts_to_date(t);
            ctx.check(l, &g, &Out::Ok(d), || vec![st!["ts.to_date", t]]);
            let g = ts_to_time(t);
            ctx.check(l, &g, &Out::Ok(None), || vec![st!["ts.to_time", t]]);
        }
    });
    // every capitalisation of the words
    ctx.bound("every capitalisation (256) of the word x sign x blanks x field orders x precisions -1..6");
    ctx.par(256, 4, |l, mask| {
        let mut w = String::new();
        for (i, c) in "infinity".chars().enumerate() {
            w.push(if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c });
        }
        for (k, sign) in ["-", ""].iter().enumerate() {
            for (pre, post) in [("", ""), (" ", ""), ("", "  "), ("\t", "\n")] {
                let s = format!("{pre}{sign}{w}{post}");
                l.st();
                for o in ORDERS {
                    l.tr(2);
                    let g = date_parse(&s, o);
                    ctx.check(l, &g, &Out::Ok(inf_d[k].0), || vec![st!["date.parse", s, order_name(o)]]);
                    for p in -1..=6 {
                        let g = ts_parse(&s, p, o);
                        ctx.check(l, &g, &Out::Ok(inf_t[k].0), || vec![st!["ts.parse", s, p, order_name(o)]]);
                    }
                }
            }
        }
    });
    // arithmetic
    let is = i32s();
    let ls = i64s();
    ctx.bound(format!("{} day counts, {} x {} x 5 intervals, all times of day added to and subtracted from the infinities", is.len(), is.len(), ls.len()));
    ctx.par(is.len() as u64, 1, |l, i| {
        let k = is[i as usize];
        for j in 0..2 {
            let (d, t) = (inf_d[j].0, inf_t[j].0);
            l.st();
            l.tr(2);
            let g = date_add_days(d, k);
            ctx.check(l, &g, &Out::Ok(d), || vec![st!["date.add_days", d, k]]);
            let g = date_sub_days(d, k);
            ctx.check(l, &g, &Out::Ok(d), || vec![st!["date.sub_days", d, k]]);
            for &x in &ls {
                for d2 in [0, 1, -30, i32::MAX, i32::MIN] {
                    let v = (k, d2, x);
                    l.tr(4);
                    let g = ts_add(t, v);
                    ctx.check(l, &g, &Out::Ok(t), || vec![st!["ts.add", t, v.0, v.1, v.2]]);
                    let g = date_add_iv(d, v);
                    ctx.check(l, &g, &Out::Ok(t), || vec![st!["date.add_iv", d, v.0, v.1, v.2]]);
                    if r_iv_neg(v).is_some() {
                        let g = ts_sub(t, v);
                        ctx.check(l, &g, &Out::Ok(t), || vec![st!["ts.sub", t, v.0, v.1, v.2]]);
                        let g = date_sub_iv(d, v);
                        ctx.check(l, &g, &Out::Ok(t), || vec![st!["date.sub_iv", d, v.0, v.1, v.2]]);
                    }
                }
            }
        }
    });
    ctx.assume("subtracting an interval that can not be negated is an error, also from an infinity");
    let mut td = tods(ctx);
    td.push(DAY_US);
    ctx.par(td.len() as u64, 64, |l, i| {
        let x = td[i as usize];
        for j in 0..2 {
            let (d, t) = (inf_d[j].0, inf_t[j].0);
            l.st();
            l.tr(3);
            let g = date_add_time(d, x);
            ctx.check(l, &g, &Out::Ok(t), || vec![st!["date.add_time", d, x]]);
            let g = ts_add_time(t, x);
            ctx.check(l, &g, &Out::Ok(t), || vec![st!["ts.add_time", t, x]]);
            let g = ts_sub_time(t, x);
            ctx.check(l, &g, &Out::Ok(t), || vec![st!["ts.sub_time", t, x]]);
        }
    });
    // truncation and extraction
    ctx.bound("every unit truncated and extracted");
    ctx.seq(|l| {
        for (u, du) in UNITS {
            for j in 0..2 {
                let (d, t) = (inf_d[j].0, inf_t[j].0);
                l.st();
                l.tr(4);
                if TRUNC_UNITS.contains(&u) {
                    let g = date_trunc(d, false, du);
                    ctx.check(l, &g, &Out::Ok(d), || vec![st!["date.trunc", d, false, u]]);
                    let g = ts_trunc(t, false, du);
                    ctx.check(l, &g, &Out::Ok(t), || vec![st!["ts.trunc", t, false, u]]);
                }
                let w = match u {
                    "year" | "decade" | "century" | "millennium" | "julian" | "isoyear" | "epoch" => {
                        Out::Ok(if j == 0 { f64::NEG_INFINITY } else { f64::INFINITY })
                    }
                    "delta" => Out::Err,
                    _ => Out::Ok(0.0),
                };
                let g = date_part(d, false, du);
                ctx.check(l, &g, &w, || vec![st!["date.part", d, false, u]]);
                let g = ts_part(t, false, du);
                ctx.check(l, &g, &w, || vec![st!["ts.part", t, false, u]]);
            }
        }
    });
    // differences and order against finite values
    let kd = key_days(ctx, false);
    ctx.bound(format!("differences with, and order against, {} finite dates and timestamps", kd.len()));
    ctx.par(kd.len() as u64 + 2, 16, |l, i| {
        let (n, t) = if (i as usize) < kd.len() {
            let n = kd[i as usize];
            (n as i32, if n < TS_DAY_END { n * DAY_US + (n * 7919).rem_euclid(DAY_US) } else { TS_END - 1 })
        } else {
            let j = i as usize - kd.len();
            (inf_d[j].0, inf_t[j].0)
        };
        for j in 0..2 {
            let (d, x) = (inf_d[j].0, inf_t[j].0);
            l.st();
            l.tr(9);
            for (a, b) in [(d, n), (n, d)] {
                let g = date_sub_date(a, b);
                ctx.check(l, &g, &Out::Err, || vec![st!["date.sub_date", a, b]]);
            }
            for (a, b) in [(x, t), (t, x)] {
                let g = ts_diff(a, b);
                ctx.check(l, &g, &Out::Err, || vec![st!["ts.diff", a, b]]);
                let g = ts_age(a, b);
                ctx.check(l, &g, &Out::Err, || vec![st!["ts.age", a, b]]);
            }
            let g = ts_sub_date(x, n);
            ctx.check(l, &g, &Out::Err, || vec![st!["ts.sub_date", x, n]]);
            let g = ts_sub_date(t, d);
            ctx.check(l, &g, &Out::Err, || vec![st!["ts.sub_date", t, d]]);
            let want = if (d, x) == (n, t) {
                Ordering::Equal
            } else if j == 0 {
                Ordering::Less
            } else {
                Ordering::Greater
            };
            let g = call1(|| (mkd(d).cmp(&mkd(n)), mkts(x).cmp(&mkts(t))));
            ctx.check(l, &g, &Out::Ok((want, want)), || vec![st!["order", d, n, x, t]]);
        }
        if (i as usize) < kd.len() {
            let g = call1(|| (mkd(n).is_finite(), mkts(t).is_finite(), mkts(t).is_infinite()));
            ctx.check(l, &g, &Out::Ok((true, true, false)), || vec![st!["is_finite", n, t]]);
        }
    });
    // times and intervals have no infinities
    let td = tods(ctx);
    let ivs = few_ivs();
    ctx.bound(format!("{} times of day and {} intervals (extremes included) are finite", td.len() + 1, ivs.len()));
    ctx.seq(|l| {
        for &t in td.iter().chain([DAY_US].iter()) {
            l.st();
            l.tr(1);
            let g = call1(|| (mkt(t).is_finite(), mkt(t).is_infinite()));
            ctx.check(l, &g, &Out::Ok((true, false)), || vec![st!["time is_finite", t]]);
        }
        for &v in &ivs {
            l.st();
            l.tr(1);
            let g = call1(|| (mkiv(v).is_finite(), mkiv(v).is_infinite()));
            ctx.check(l, &g, &Out::Ok((true, false)), || vec![st!["interval is_finite", v.0, v.1, v.2]]);
        }
    });
    // no finite operation reaches an infinity
    ctx.sample(|| format!("'-Infinity' -> {:?}", date_parse("-Infinity", DateOrder::YMD)));
    ctx.sample(|| format!("trunc(infinity) -> {:?}", ts_trunc(i64::MAX, false, unit("year"))));
}
