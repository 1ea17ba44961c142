//! C01 calendar bijection, C02-C04 text round trips, C13 day arithmetic, C23 conversions.
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;

fn push_pad(s: &mut String, mut v: i64, w: usize) {
    let mut b = [0u8; 20];
    let mut n = 0;
    loop {
        b[n] = b'0' + (v % 10) as u8;
        v /= 10;
        n += 1;
        if v == 0 && n >= w {
            break;
        }
    }
    for i in (0..n).rev() {
        s.push(b[i] as char);
    }
}

/// The documented text of a date.
pub fn date_text(s: &mut String, st: DateStyle, o: DateOrder, y: i64, m: i64, d: i64) {
    s.clear();
    let vy = vis_year(y).abs();
    match st {
        DateStyle::ISO | DateStyle::XSD => {
            push_pad(s, vy, 4);
            s.push('-');
            push_pad(s, m, 2);
            s.push('-');
            push_pad(s, d, 2);
        }
        _ => {
            let dfirst = o == DateOrder::DMY || st == DateStyle::German;
            let sep = match st {
                DateStyle::SQL => '/',
                DateStyle::German => '.',
                // the traditional style: dd-mm-yyyy, but mm.dd.yyyy (fixed by the existing tests)
                _ => {
                    if o == DateOrder::DMY {
                        '-'
                    } else {
                        '.'
                    }
                }
            };
            push_pad(s, if dfirst { d } else { m }, 2);
            s.push(sep);
            push_pad(s, if dfirst { m } else { d }, 2);
            s.push(sep);
            push_pad(s, vy, 4);
        }
    }
    if y <= 0 {
        s.push_str(" BC");
    }
}

pub fn push_tod(s: &mut String, t: i64) {
    push_pad(s, t / HOUR_US, 2);
    s.push(':');
    push_pad(s, t / MIN_US % 60, 2);
    s.push(':');
    push_pad(s, t / US % 60, 2);
    let f = t % US;
    if f != 0 {
        s.push('.');
        push_pad(s, f, 6);
        while s.ends_with('0') {
            s.pop();
        }
    }
}

/// The documented text of a timestamp.
pub fn ts_text(s: &mut String, st: DateStyle, o: DateOrder, ts: i64) {
    let n = ts.div_euclid(DAY_US);
    let t = ts.rem_euclid(DAY_US);
    let (y, m, d) = civil(n);
    if st == DateStyle::Postgres {
        s.clear();
        s.push_str(WDAYS[dow(n) as usize]);
        s.push(' ');
        if o == DateOrder::DMY {
            push_pad(s, d, 2);
            s.push(' ');
            s.push_str(MONTHS[m as usize - 1]);
        } else {
            s.push_str(MONTHS[m as usize - 1]);
            s.push(' ');
            push_pad(s, d, 2);
        }
        s.push(' ');
        push_tod(s, t);
        s.push(' ');
        push_pad(s, vis_year(y).abs(), 4);
    } else {
        date_text(s, st, o, y, m, d);
        if y <= 0 {
            s.truncate(s.len() - 3);
        }
        s.push(if st == DateStyle::XSD { 'T' } else { ' ' });
        push_tod(s, t);
    }
    if y <= 0 {
        s.push_str(" BC");
    }
}

/// (style, order printed for, order read with): the combinations the property quantifies over.
pub fn roundtrip_combos() -> Vec<(DateStyle, DateOrder, DateOrder)> {
    let mut v = vec![];
    for s in [DateStyle::ISO, DateStyle::XSD] {
        for o in ORDERS {
            for p in ORDERS {
                v.push((s, o, p));
            }
        }
    }
    for s in [DateStyle::SQL, DateStyle::Postgres] {
        for o in [DateOrder::DMY, DateOrder::MDY] {
            v.push((s, o, o));
        }
    }
    for o in ORDERS {
        v.push((DateStyle::German, o, DateOrder::DMY));
    }
    v
}

// ------------------------------------------------------------------ C01

pub fn c01(ctx: &Ctx) {
    const Y0: i64 = -4713;
    const Y1: i64 = 5_874_897;
    let ny = (Y1 - Y0 + 1) as u64;
    ctx.bound("every calendar date of the supported range constructed from y/m/d (all 2.1e9 days)");
    ctx.bound("for every year of the range: months 0 and 13, day 0 and the day after the last of every month rejected");
    ctx.par(ny, 512, |l, i| {
        let y = Y0 + i as i64;
        let vy = vis_year(y) as i32;
        let mut n = days(y, 1, 1);
        for m in 1..=12i64 {
            let len = dim(y, m);
            for d in 1..=len {
                let want = if n >= DATE_MIN { Out::Ok(n as i32) } else { Out::Err };
                let got = date_ymd(vy, m as i32, d as i32);
                l.st();
                l.tr(1);
                ctx.check(l, &got, &want, || vec![st!["date.ymd", vy, m, d]]);
                n += 1;
            }
            for d in [0, len + 1] {
                let got = date_ymd(vy, m as i32, d as i32);
                l.tr(1);
                ctx.check(l, &got, &Out::Err, || vec![st!["date.ymd", vy, m, d]]);
            }
        }
        for m in [0, 13] {
            let got = date_ymd(vy, m, 1);
            l.tr(1);
            ctx.check(l, &got, &Out::Err, || vec![st!["date.ymd", vy, m, 1]]);
        }
    });
    ctx.sample(|| format!("2000-02-29 -> {:?}", date_ymd(2000, 2, 29)));
    ctx.sample(|| format!("4714-11-24 BC -> {:?}", date_ymd(-4714, 11, 24)));
    ctx.sample(|| format!("1900-02-29 -> {:?}", date_ymd(1900, 2, 29)));

    // extremes of the argument space
    let ex: Vec<i32> = vec![
        i32::MIN, i32::MIN + 1, -5_874_899, -5_874_898, -10_000, -4716, -4715, -4714, -4713, -1, 0, 1, 2, 4, 100, 400,
        2000, 2001, 5_874_896, 5_874_897, 5_874_898, 5_874_899, 5_880_000, 10_000_000, 23_860_929, i32::MAX - 1,
        i32::MAX,
    ];
    let md: Vec<i32> = (-3..=35).chain([i32::MIN, i32::MIN + 1, -100, 99, 127, 128, 255, 256, 257, i32::MAX]).collect();
    ctx.bound(format!("{} extreme years x {} months x {} days", ex.len(), md.len(), md.len()));
    let dims = [ex.len() as u64, md.len() as u64, md.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b, c] = digits(i, dims);
        let (y, m, d) = (ex[a], md[b], md[c]);
        let want = if y == 0 || !(1..=12).contains(&m) || d < 1 {
            Out::Err
        } else {
            let ay = astro(y as i64);
            if d as i64 > dim(ay, m as i64) {
                Out::Err
            } else {
                let n = days(ay, m as i64, d as i64);
                if date_ok(n) {
                    Out::Ok(n as i32)
                } else {
                    Out::Err
                }
            }
        };
        l.st();
        l.tr(1);
        let got = date_ymd(y, m, d);
        ctx.check(l, &got, &want, || vec![st!["date.ymd", y, m, d]]);
    });

    // reading back by field extraction: every day in timestamp range
    ctx.bound("year, month and day extracted from every day in timestamp range (1.1e8 days)");
    let ndays = (TS_DAY_END - DATE_MIN) as u64;
    ctx.par_chunks(ndays, 20_000, |l, a, b| {
        let (mut y, mut m, mut d) = civil(DATE_MIN + a as i64);
        for i in a..b {
            let n = (DATE_MIN + i as i64) as i32;
            for (u, w) in [("year", vis_year(y)), ("month", m), ("day", d)] {
                let got = date_part(n, false, unit(u));
                l.tr(1);
                ctx.check(l, &got, &Out::Ok(w as f64), || vec![st!["date.part", n, false, u]]);
            }
            next_day(&mut y, &mut m, &mut d);
        }
    });

    // reading back from the printed ISO text
    let (lo, hi) = (DATE_MIN, DATE_END);
    if ctx.quick() {
        ctx.bound("printed ISO text of 10 days of every month of boundary years and of the first of each month of every year");
        let ys = years(ctx, false);
        ctx.par(ys.len() as u64, 1, |l, i| {
            for n in key_days_of(ys[i as usize]) {
                iso_read(ctx, l, n);
            }
        });
        ctx.par(ny, 2048, |l, i| {
            let y = Y0 + i as i64;
            for m in 1..=12 {
                let n = days(y, m, 1);
                if date_ok(n) {
                    iso_read(ctx, l, n);
                }
                let n = n - 1;
                if date_ok(n) {
                    iso_read(ctx, l, n);
                }
            }
        });
    } else {
        ctx.bound("printed ISO text of every supported day (2.1e9 days)");
        ctx.par_chunks((hi - lo) as u64, 50_000, |l, a, b| {
            let (mut y, mut m, mut d) = civil(lo + a as i64);
            let mut s = String::new();
            for i in a..b {
                let n = lo + i as i64;
                date_text(&mut s, DateStyle::ISO, DateOrder::YMD, y, m, d);
                let got = date_format(n as i32, DateStyle::ISO, DateOrder::YMD);
                l.tr(1);
                l.compared += 1;
                if !matches!(&got, Out::Ok(g) if *g == s) {
                    ctx.fail(vec![st!["date.format", n, "ISO", "YMD"]], s.clone(), got.show());
                }
                next_day(&mut y, &mut m, &mut d);
            }
        });
    }
}

fn iso_read(ctx: &Ctx, l: &mut Loc, n: i64) {
    let (y, m, d) = civil(n);
    let mut s = String::new();
    date_text(&mut s, DateStyle::ISO, DateOrder::YMD, y, m, d);
    let got = date_format(n as i32, DateStyle::ISO, DateOrder::YMD);
    l.tr(1);
    l.compared += 1;
    if !matches!(&got, Out::Ok(g) if *g == s) {
        ctx.fail(vec![st!["date.format", n, "ISO", "YMD"]], s, got.show());
    }
}

fn next_day(y: &mut i64, m: &mut i64, d: &mut i64) {
    *d += 1;
    if *d > dim(*y, *m) {
        *d = 1;
        *m += 1;
        if *m > 12 {
            *m = 1;
            *y += 1;
        }
    }
}

// ------------------------------------------------------------------ C02

fn date_roundtrip(ctx: &Ctx, l: &mut Loc, n: i64, combos: &[(DateStyle, DateOrder, DateOrder)], buf: &mut String) {
    let (y, m, d) = civil(n);
    l.st();
    let mut last: Option<(DateStyle, DateOrder, String)> = None;
    for &(s, po, ro) in combos {
        let text = match &last {
            Some((ls, lo, t)) if *ls == s && *lo == po => t.clone(),
            _ => {
                let got = date_format(n as i32, s, po);
                l.tr(1);
                l.compared += 1;
                date_text(buf, s, po, y, m, d);
                match got {
                    Out::Ok(g) if g == *buf => g,
                    g => {
                        ctx.fail(
                            vec![st!["date.format", n, style_name(s), order_name(po)]],
                            buf.clone(),
                            g.show(),
                        );
                        continue;
                    }
                }
            }
        };
        let back = date_parse(&text, ro);
        l.tr(1);
        ctx.check(l, &back, &Out::Ok(n as i32), || {
            vec![
                st!["date.format", n, style_name(s), order_name(po)],
                st!["date.parse", text, order_name(ro)],
            ]
        });
        last = Some((s, po, text));
    }
}

pub fn c02(ctx: &Ctx) {
    let combos = roundtrip_combos();
    // one order pair per distinct text for the largest sweeps
    let lite: Vec<_> = combos
        .iter()
        .copied()
        .filter(|c| match c.0 {
            DateStyle::ISO => c.1 == DateOrder::YMD,
            DateStyle::XSD => false,
            DateStyle::German => c.1 == DateOrder::DMY,
            _ => true,
        })
        .collect();
    let (ylo, yhi) = ctx.pick((-4713i64, 3200i64), (-4713, 30_000));
    ctx.bound(format!("every day of years {ylo}..{yhi} (astronomical) x {} style/order/order combinations", combos.len()));
    let (a, b) = (days(ylo, 1, 1).max(DATE_MIN), days(yhi + 1, 1, 1));
    ctx.par_chunks((b - a) as u64, 4000, |l, x, y| {
        let mut buf = String::new();
        for i in x..y {
            date_roundtrip(ctx, l, a + i as i64, &combos, &mut buf);
        }
    });
    let ys = years(ctx, false);
    ctx.bound(format!("every day of {} boundary years x all combinations", ys.len()));
    ctx.par(ys.len() as u64, 1, |l, i| {
        let y = ys[i as usize];
        let mut buf = String::new();
        for n in days(y, 1, 1)..days(y + 1, 1, 1) {
            if date_ok(n) {
                date_roundtrip(ctx, l, n, &combos, &mut buf);
            }
        }
    });
    let ny = (5_874_897 + 4713 + 1) as u64;
    ctx.bound("every year of the range x 29 February (or 28) and a rotating other month end x 6 combinations");
    ctx.par(ny, 4096, |l, i| {
        let y = -4713 + i as i64;
        let mut buf = String::new();
        let rot = 1 + (y.rem_euclid(12));
        for (m, d) in [(2, dim(y, 2)), (rot, dim(y, rot))] {
            let n = days(y, m, d);
            if date_ok(n) {
                date_roundtrip(ctx, l, n, &lite, &mut buf);
            }
        }
    });
    if !ctx.quick() {
        ctx.bound("every supported day (2.1e9) x ISO text read as YMD");
        let iso = [(DateStyle::ISO, DateOrder::YMD, DateOrder::YMD)];
        ctx.par_chunks((DATE_END - DATE_MIN) as u64, 50_000, |l, x, y| {
            let mut buf = String::new();
            for i in x..y {
                date_roundtrip(ctx, l, DATE_MIN + i as i64, &iso, &mut buf);
            }
        });
    }
    for n in [DATE_MIN, -730_120, 0, 6968, DATE_END - 1] {
        ctx.sample(|| format!("{n} -> {:?} / {:?}", date_format(n as i32, DateStyle::ISO, DateOrder::YMD), date_format(n as i32, DateStyle::SQL, DateOrder::DMY)));
    }
}

// ------------------------------------------------------------------ C03

fn ts_roundtrip(ctx: &Ctx, l: &mut Loc, ts: i64, combos: &[(DateStyle, DateOrder, DateOrder)], buf: &mut String) {
    l.st();
    let mut last: Option<(DateStyle, DateOrder, String)> = None;
    for &(s, po, ro) in combos {
        let text = match &last {
            Some((ls, lo, t)) if *ls == s && *lo == po => t.clone(),
            _ => {
                let got = ts_format(ts, s, po);
                l.tr(1);
                l.compared += 1;
                ts_text(buf, s, po, ts);
                match got {
                    Out::Ok(g) if g == *buf => g,
                    g => {
                        ctx.fail(vec![st!["ts.format", ts, style_name(s), order_name(po)]], buf.clone(), g.show());
                        continue;
                    }
                }
            }
        };
        let back = ts_parse(&text, -1, ro);
        l.tr(1);
        ctx.check(l, &back, &Out::Ok(ts), || {
            vec![
                st!["ts.format", ts, style_name(s), order_name(po)],
                st!["ts.parse", text, -1, order_name(ro)],
            ]
        });
        last = Some((s, po, text));
    }
}

pub fn c03(ctx: &Ctx) {
    let combos = roundtrip_combos();
    let kd = key_days(ctx, true);
    let ft = few_tods();
    ctx.bound(format!("{} boundary days x {} times of day x {} style/order/order combinations", kd.len(), ft.len(), combos.len()));
    let dims = [kd.len() as u64, ft.len() as u64];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b] = digits(i, dims);
        let mut buf = String::new();
        ts_roundtrip(ctx, l, kd[a] * DAY_US + ft[b], &combos, &mut buf);
    });
    let fd = few_days(true);
    let td = tods(ctx);
    ctx.bound(format!("{} days x {} times of day x all combinations", fd.len(), td.len()));
    let dims = [fd.len() as u64, td.len() as u64];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b] = digits(i, dims);
        let mut buf = String::new();
        ts_roundtrip(ctx, l, fd[a] * DAY_US + td[b], &combos, &mut buf);
    });
    // every day of a 400-year cycle (all weekday/month/day combinations), around 2000 and around 1 BC/AD
    let lite = [
        (DateStyle::ISO, DateOrder::YMD, DateOrder::YMD),
        (DateStyle::Postgres, DateOrder::MDY, DateOrder::MDY),
        (DateStyle::Postgres, DateOrder::DMY, DateOrder::DMY),
        (DateStyle::SQL, DateOrder::MDY, DateOrder::MDY),
    ];
    ctx.bound("every day of years -199..200 and 1801..2200 x 4 combinations at a time of day that varies with the day");
    for base in [days(-199, 1, 1), days(1801, 1, 1)] {
        ctx.par(146_097, 512, |l, i| {
            let n = base + i as i64;
            let mut buf = String::new();
            let t = (i as i64 * 591_593_137).rem_euclid(DAY_US);
            ts_roundtrip(ctx, l, n * DAY_US + t, &lite, &mut buf);
        });
    }
    // every fraction of a second, before and after the epoch, and at the range ends
    let step = ctx.pick(7u64, 1u64);
    let bases = [0i64, -DAY_US, TS_MIN, TS_END - US, days(1969, 7, 20) * DAY_US + 3 * HOUR_US, days(-3, 3, 3) * DAY_US + 59 * US];
    ctx.bound(format!("fractions 0..999999 (every {step}th) of a second at {} instants, ISO", bases.len()));
    let iso = [(DateStyle::ISO, DateOrder::YMD, DateOrder::YMD)];
    let per = 1_000_000u64.div_ceil(step);
    ctx.par(bases.len() as u64 * per, 4096, |l, i| {
        let b = bases[(i / per) as usize];
        let f = ((i % per) * step) as i64;
        let mut buf = String::new();
        ts_roundtrip(ctx, l, b + f, &iso, &mut buf);
    });
    // every year of the range
    ctx.bound("every year of the timestamp range x 3 instants x 4 combinations");
    ctx.par(294_276 + 4713 + 1, 512, |l, i| {
        let y = -4713 + i as i64;
        let mut buf = String::new();
        for (m, d, t) in [(1, 1, 0), (2, dim(y, 2), DAY_US / 2 + 1), (12, 31, DAY_US - 1)] {
            let ts = days(y, m, d) as i128 * DAY_US as i128 + t as i128;
            if ts_ok(ts) {
                ts_roundtrip(ctx, l, ts as i64, &lite, &mut buf);
            }
        }
    });
    if !ctx.quick() {
        ctx.bound("every second of 24 days x ISO and Postgres");
        let fd = few_days(true);
        let dims = [24, 86_400];
        ctx.par(product(dims), 4096, |l, i| {
            let [a, b] = digits(i, dims);
            let mut buf = String::new();
            ts_roundtrip(ctx, l, fd[a] * DAY_US + b as i64 * US + (b as i64 * 7919) % US, &lite[..2], &mut buf);
        });
    }
    // every day of the range
    let step = ctx.pick3(0u64, 37, 1);
    if step > 0 {
        ctx.bound(format!("every {step}th day of the whole timestamp range at a time of day that varies with the day x ISO and Postgres"));
        ctx.par((TS_DAY_END - DATE_MIN) as u64 / step, 4096, |l, i| {
            let n = DATE_MIN + (i * step) as i64;
            let mut buf = String::new();
            let t = (n * 591_593_137).rem_euclid(DAY_US);
            ts_roundtrip(ctx, l, n * DAY_US + t, &lite[..2], &mut buf);
        });
    }
    for t in [TS_MIN, -1, 0, TS_END - 1] {
        ctx.sample(|| format!("{t} -> {:?} / {:?}", ts_format(t, DateStyle::ISO, DateOrder::YMD), ts_format(t, DateStyle::Postgres, DateOrder::MDY)));
    }
}

// ------------------------------------------------------------------ C04

fn time_roundtrip(ctx: &Ctx, l: &mut Loc, t: i64, styles: &[DateStyle], orders: &[DateOrder], buf: &mut String) {
    l.st();
    buf.clear();
    push_tod(buf, t);
    for &s in styles {
        let got = time_format(t, s);
        l.tr(1);
        l.compared += 1;
        match got {
            Out::Ok(g) if g == *buf => {}
            g => ctx.fail(vec![st!["time.format", t, style_name(s)]], buf.clone(), g.show()),
        }
    }
    for &o in orders {
        let back = time_parse(buf, -1, o);
        l.tr(1);
        ctx.check(l, &back, &Out::Ok(t), || {
            vec![st!["time.format", t, style_name(styles[0])], st!["time.parse", buf, -1, order_name(o)]]
        });
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.bound("every second of the day x 40 fraction patterns; 24:00:00");
    let mut fr: Vec<i64> = vec![0];
    for k in 0..6u32 {
        let p = 10i64.pow(k);
        fr.extend([p, 2 * p, 3 * p, 5 * p, 7 * p, 9 * p]);
    }
    fr.extend([999_999, 123_456, 999_990]);
    let n = fr.len() as u64;
    ctx.par(86_400 * n, 4096, |l, i| {
        let t = (i / n) as i64 * US + fr[(i % n) as usize];
        let mut buf = String::new();
        time_roundtrip(ctx, l, t, &STYLES[..1], &ORDERS[..1], &mut buf);
    });
    let secs: Vec<i64> = ctx.pick(vec![0, 59, 3600, 43_199, 86_399], vec![0, 1, 9, 59, 60, 3599, 3600, 35_999, 43_199, 43_200, 46_800, 86_339, 86_340, 86_399]);
    let secs = if ctx.deep() { (0..86_400).step_by(433).chain(secs).collect() } else { secs };
    ctx.bound(format!("every fraction 0..999999 at {} seconds", secs.len()));
    ctx.par(secs.len() as u64 * 1_000_000, 4096, |l, i| {
        let t = secs[(i / 1_000_000) as usize] * US + (i % 1_000_000) as i64;
        let mut buf = String::new();
        time_roundtrip(ctx, l, t, &STYLES[..1], &ORDERS[..1], &mut buf);
    });
    ctx.bound("every minute and boundary times x all styles and orders");
    ctx.par(1441, 8, |l, i| {
        let mut buf = String::new();
        for f in [0, 1, 999_999, 59 * US + 500_000] {
            let t = i as i64 * MIN_US + f;
            if t <= DAY_US {
                time_roundtrip(ctx, l, t, &STYLES, &ORDERS, &mut buf);
            }
        }
    });
    for t in [0, 1, 43_200_000_001, DAY_US - 1, DAY_US] {
        ctx.sample(|| format!("{t} -> {:?}", time_format(t, DateStyle::ISO)));
    }
}

// ------------------------------------------------------------------ C13

pub fn c13(ctx: &Ctx) {
    let mut ds = key_days(ctx, false);
    ds.retain(|n| n % 3 == 0 || *n < DATE_MIN + 40 || *n > DATE_END - 40 || (-40..40).contains(n) || !ctx.quick());
    let mut ks: Vec<i64> = i32s().into_iter().map(|x| x as i64).collect();
    for d in few_days(false) {
        // differences that land exactly on, and just outside, the range ends
        for k in [DATE_MIN - d, DATE_MIN - d - 1, DATE_END - 1 - d, DATE_END - d, d, -d] {
            ks.push(k);
        }
    }
    ks.retain(|k| i32::try_from(*k).is_ok());
    let ks = dedup(ks);
    ctx.bound(format!("{} boundary days x {} day counts", ds.len(), ks.len()));
    let want = |x: i64| if date_ok(x) { Out::Ok(x as i32) } else { Out::Err };
    let dims = [ds.len() as u64, ks.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b] = digits(i, dims);
        let (d, k) = (ds[a], ks[b]);
        l.st();
        l.tr(2);
        let g = date_add_days(d as i32, k as i32);
        ctx.check(l, &g, &want(d + k), || vec![st!["date.add_days", d, k]]);
        let g = date_sub_days(d as i32, k as i32);
        ctx.check(l, &g, &want(d - k), || vec![st!["date.sub_days", d, k]]);
    });
    // per date, the exact range ends
    let all = key_days(ctx, false);
    ctx.par(all.len() as u64, 16, |l, i| {
        let d = all[i as usize];
        for t in [DATE_MIN - 1, DATE_MIN, DATE_MIN + 1, DATE_END - 2, DATE_END - 1, DATE_END] {
            let k = t - d;
            if let Ok(k32) = i32::try_from(k) {
                l.tr(1);
                let g = date_add_days(d as i32, k32);
                ctx.check(l, &g, &want(t), || vec![st!["date.add_days", d, k]]);
            }
            if let Ok(k32) = i32::try_from(-k) {
                l.tr(1);
                let g = date_sub_days(d as i32, k32);
                ctx.check(l, &g, &want(t), || vec![st!["date.sub_days", d, -k]]);
            }
        }
    });
    ctx.bound(format!("all pairs of {} boundary days: difference, and adding it back", ds.len()));
    let dims = [ds.len() as u64, ds.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        let (x, y) = (ds[a], ds[b]);
        l.st();
        l.tr(1);
        let want = match i32::try_from(x - y) {
            Ok(v) => Out::Ok(v),
            Err(_) => Out::Err,
        };
        let g = date_sub_date(x as i32, y as i32);
        if ctx.check(l, &g, &want, || vec![st!["date.sub_date", x, y]]) {
            if let Out::Ok(k) = g {
                l.tr(1);
                let g = date_add_days(y as i32, k);
                ctx.check(l, &g, &Out::Ok(x as i32), || vec![st!["date.sub_date", x, y], st!["date.add_days", y, k]]);
            }
        }
    });
    let mut ts = few_tods();
    ts.push(DAY_US);
    ctx.bound(format!("{} boundary days x {} times of day combined", all.len(), ts.len()));
    let dims = [all.len() as u64, ts.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b] = digits(i, dims);
        let (d, t) = (all[a], ts[b]);
        l.st();
        l.tr(1);
        let r = d as i128 * DAY_US as i128 + t as i128;
        let want = if d < TS_DAY_END && ts_ok(r) { Out::Ok(r as i64) } else { Out::Err };
        let g = date_add_time(d as i32, t);
        ctx.check(l, &g, &want, || vec![st!["date.add_time", d, t]]);
    });
    // every day of the range, +-1
    let step = ctx.pick(9973u64, 1u64);
    ctx.bound(format!("successor and predecessor of every {step}th day of the range"));
    let n = ((DATE_END - DATE_MIN) as u64).div_ceil(step);
    ctx.par(n, 65_536, |l, i| {
        let d = DATE_MIN + (i * step) as i64;
        l.st();
        l.tr(2);
        let g = date_add_days(d as i32, 1);
        ctx.check(l, &g, &want(d + 1), || vec![st!["date.add_days", d, 1]]);
        let g = date_sub_days(d as i32, 1);
        ctx.check(l, &g, &want(d - 1), || vec![st!["date.sub_days", d, 1]]);
    });
    ctx.sample(|| format!("max date + 1 -> {:?}", date_add_days((DATE_END - 1) as i32, 1)));
    ctx.sample(|| format!("max - min -> {:?}", date_sub_date((DATE_END - 1) as i32, DATE_MIN as i32)));
}

// ------------------------------------------------------------------ C23

fn ts_split(ctx: &Ctx, l: &mut Loc, ts: i64) {
    let n = ts.div_euclid(DAY_US);
    let t = ts.rem_euclid(DAY_US);
    l.st();
    l.tr(2);
    let d = ts_to_date(ts);
    let ok1 = ctx.check(l, &d, &Out::Ok(n as i32), || vec![st!["ts.to_date", ts]]);
    let x = ts_to_time(ts);
    let ok2 = ctx.check(l, &x, &Out::Ok(Some(t)), || vec![st!["ts.to_time", ts]]);
    if ok1 && ok2 {
        l.tr(1);
        let g = date_add_time(n as i32, t);
        ctx.check(l, &g, &Out::Ok(ts), || {
            vec![st!["ts.to_date", ts], st!["ts.to_time", ts], st!["date.add_time", n, t]]
        });
    }
}

pub fn c23(ctx: &Ctx) {
    ctx.bound("every day of the timestamp range converted to midnight and back (1.1e8 days)");
    ctx.par((TS_DAY_END - DATE_MIN) as u64, 65_536, |l, i| {
        let n = DATE_MIN + i as i64;
        l.st();
        l.tr(2);
        let g = date_to_ts(n as i32);
        ctx.check(l, &g, &Out::Ok(n * DAY_US), || vec![st!["date.to_ts", n]]);
        let g = ts_to_date(n * DAY_US);
        ctx.check(l, &g, &Out::Ok(n as i32), || vec![st!["ts.to_date", n * DAY_US]]);
        // the last microsecond of the day still belongs to it
        l.tr(1);
        let g = ts_to_date(n * DAY_US + DAY_US - 1);
        ctx.check(l, &g, &Out::Ok(n as i32), || vec![st!["ts.to_date", n * DAY_US + DAY_US - 1]]);
    });
    let far: Vec<i64> = key_days(ctx, false).into_iter().filter(|n| *n >= TS_DAY_END).chain(TS_DAY_END..TS_DAY_END + 5000).collect();
    ctx.bound(format!("{} dates beyond the timestamp range rejected", far.len()));
    ctx.par(far.len() as u64, 64, |l, i| {
        let n = far[i as usize];
        l.st();
        l.tr(1);
        let g = date_to_ts(n as i32);
        ctx.check(l, &g, &Out::Err, || vec![st!["date.to_ts", n]]);
    });
    let kd = key_days(ctx, true);
    let td = tods(ctx);
    ctx.bound(format!("{} boundary days x {} times of day split and recombined", kd.len(), td.len()));
    let dims = [kd.len() as u64, td.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b] = digits(i, dims);
        ts_split(ctx, l, kd[a] * DAY_US + td[b]);
    });
    ctx.bound("every second (with a varying fraction) of 6 days");
    let ds = [DATE_MIN, days(0, 12, 31), -1, 0, 1, TS_DAY_END - 1];
    ctx.par(6 * 86_400, 2048, |l, i| {
        let d = ds[(i / 86_400) as usize];
        let s = (i % 86_400) as i64;
        ts_split(ctx, l, d * DAY_US + s * US + (s * 7919) % US);
    });
    let ts = {
        let mut v = tods(ctx);
        v.push(DAY_US);
        v
    };
    ctx.par(ts.len() as u64, 64, |l, i| {
        let t = ts[i as usize];
        l.st();
        l.tr(2);
        let g = time_to_iv(t);
        ctx.check(l, &g, &Out::Ok((0, 0, t)), || vec![st!["time.to_iv", t]]);
        let g = iv_to_time((0, 0, t));
        ctx.check(l, &g, &Out::Ok(time_mod(t as i128)), || vec![st!["iv.to_time", 0, 0, t]]);
    });
    let mut big = i64s();
    for k in -40i64..40 {
        for e in [-1, 0, 1, 12345] {
            big.push(k * DAY_US + e);
        }
    }
    let big = dedup(big);
    let ms = [0, 1, -1, i32::MAX, i32::MIN];
    ctx.bound(format!("{} interval time parts x 25 month/day parts reduced to a time of day", big.len()));
    let dims = [big.len() as u64, 5, 5];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b, c] = digits(i, dims);
        let v = (ms[b], ms[c], big[a]);
        l.st();
        l.tr(1);
        let g = iv_to_time(v);
        ctx.check(l, &g, &Out::Ok(time_mod(v.2 as i128)), || vec![st!["iv.to_time", v.0, v.1, v.2]]);
    });
    ctx.sample(|| format!("-1us -> {:?} {:?}", ts_to_date(-1), ts_to_time(-1)));
    ctx.sample(|| format!("-2 hours -> {:?}", iv_to_time((0, 0, -2 * HOUR_US))));
}
