//! Reading and printing of text: C05 (interval round trips), C08 (date text), C09 (time text),
//! C10 (interval text), C24 (precision and field restrictions).
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;

// ------------------------------------------------------------------ C05

fn hours_fit(v: Iv) -> bool {
    (v.2 / HOUR_US).abs() < (1 << 31)
}

fn iv_roundtrip(ctx: &Ctx, l: &mut Loc, v: Iv) {
    l.st();
    if !hours_fit(v) {
        return;
    }
    for s in ISTYLES {
        l.tr(1);
        match iv_format(v, s) {
            Out::Ok(t) => {
                l.tr(1);
                let back = iv_parse(&t, -1, s);
                ctx.check(l, &back, &Out::Ok(v), || {
                    vec![st!["iv.format", v.0, v.1, v.2, istyle_name(s)], st!["iv.parse", t, -1, istyle_name(s)]]
                });
            }
            g => {
                l.cmp();
                ctx.fail(vec![st!["iv.format", v.0, v.1, v.2, istyle_name(s)]], "a text", g.show());
            }
        }
    }
}

pub fn c05(ctx: &Ctx) {
    let (m, d, t) = (i32s(), i32s(), i64s());
    let d = if ctx.quick() { few_i32s() } else { d };
    ctx.bound(format!("{} months x {} days x {} times x 4 styles", m.len(), d.len(), t.len()));
    let dims = [m.len() as u64, d.len() as u64, t.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b, c] = digits(i, dims);
        iv_roundtrip(ctx, l, (m[a], d[b], t[c]));
    });
    let (r, rd) = ctx.pick3((40i64, 40i64), (400, 40), (2000, 200));
    ctx.bound(format!("all months -{r}..{r} x days -{rd}..{rd} x 9 times"));
    let ts = [0, 1, -1, 500_000, -US, MIN_US, -HOUR_US - 1, 25 * HOUR_US + 61 * US + 120, -DAY_US];
    let dims = [2 * r as u64 + 1, 2 * rd as u64 + 1, 9];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b, c] = digits(i, dims);
        iv_roundtrip(ctx, l, ((a as i64 - r) as i32, (b as i64 - rd) as i32, ts[c]));
    });
    // the six clock fields: zero, one digit, two digits, with signs and fractions
    let h = [0i64, 1, 9, 10, 23, 24, 99, 100, 1000, 35_791_394, 2_147_483_646, 2_147_483_647];
    let ms = [0i64, 1, 9, 10, 59];
    let fr = [0i64, 1, 10, 100, 120_000, 123_456, 500_000, 900_000, 999_999, 9, 90, 99_999];
    let md = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (14, 3), (-14, -3), (-14, 3), (14, -3), (12, 0), (-12, 0), (11, 0)];
    ctx.bound("12 hours x 5 minutes x 5 seconds x 12 fractions x both signs x 12 month/day parts x 4 styles");
    let dims = [12, 5, 5, 12, 2, 12];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b, c, d, e, f] = digits(i, dims);
        let t = h[a] * HOUR_US + ms[b] * MIN_US + ms[c] * US + fr[d];
        iv_roundtrip(ctx, l, (md[f].0, md[f].1, if e == 0 { t } else { -t }));
    });
    let step = ctx.pick(1i64, 1);
    ctx.bound("every fraction of a second -999999..999999 x 3 contexts x 4 styles");
    let n = (2_000_000 / step) as u64;
    ctx.par(n, 2048, |l, i| {
        let f = i as i64 * step - 999_999;
        for (m, d, t) in [(0, 0, 0), (-13, 1, 3661 * US), (1, -1, -3661 * US)] {
            iv_roundtrip(ctx, l, (m, d, t + f));
        }
    });
    ctx.bound("every month count -130000..130000 x 3 contexts, every day and hour count -20000..20000 x 2 contexts");
    ctx.par(260_001, 512, |l, i| {
        let m = i as i32 - 130_000;
        for (d, t) in [(0, 0), (1, -US), (-1, 1)] {
            iv_roundtrip(ctx, l, (m, d, t));
        }
    });
    ctx.par(40_001, 512, |l, i| {
        let x = i as i32 - 20_000;
        for v in [(0, x, 0), (-13, x, 61 * US), (0, 0, x as i64 * HOUR_US), (0, 1, x as i64 * HOUR_US - 1)] {
            iv_roundtrip(ctx, l, v);
        }
    });
    if !ctx.quick() {
        ctx.bound("every second of -3..3 days, every month count -60000..60000, every day count -60000..60000");
        ctx.par(6 * 86_400, 1024, |l, i| iv_roundtrip(ctx, l, (0, 0, (i as i64 - 3 * 86_400) * US + 250_000)));
        ctx.par(120_001, 1024, |l, i| {
            iv_roundtrip(ctx, l, (i as i32 - 60_000, 0, 0));
            iv_roundtrip(ctx, l, (0, i as i32 - 60_000, -1));
        });
    }
    for v in [(0, 0, 0), (14, -3, 14_706_789_000), (-1, 0, -1), (i32::MIN, i32::MIN, 1)] {
        ctx.sample(|| format!("{v:?} -> {:?}", ISTYLES.map(|s| iv_format(v, s))));
    }
}

// ------------------------------------------------------------------ C08

/// A notation: renders (display year text, month, day) and says under which orders it denotes that date.
/// Short years (1-2 digits) are only written where `short` allows.
struct Notation {
    name: &'static str,
    orders: &'static [DateOrder],
    short_orders: &'static [DateOrder],
    render: fn(&str, i64, i64) -> String,
    /// needs year digits of exactly this width at least
    bc: bool,
    range: Ranges,
}
#[derive(Clone, Copy, PartialEq)]
enum Ranges {
    /// month and day numbers are written out
    Md,
    /// month by name: only the day number can be wrong
    D,
}
const YMD: DateOrder = DateOrder::YMD;
const DMY: DateOrder = DateOrder::DMY;
const MDY: DateOrder = DateOrder::MDY;
const ALL: &[DateOrder] = &[YMD, DMY, MDY];
const DM: &[DateOrder] = &[DMY, MDY];

fn mon(m: i64) -> &'static str {
    MONTHS[(m - 1) as usize]
}
fn mon_full(m: i64) -> &'static str {
    MONTHS_FULL[(m - 1) as usize]
}

const NOTATIONS: &[Notation] = &[
    Notation { name: "y-m-d", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y}-{m:02}-{d:02}"), bc: true, range: Ranges::Md },
    Notation { name: "y/m/d", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y}/{m:02}/{d:02}"), bc: true, range: Ranges::Md },
    Notation { name: "y.m.d", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y}.{m:02}.{d:02}"), bc: true, range: Ranges::Md },
    Notation { name: "y-m-d unpadded", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y}-{m}-{d}"), bc: true, range: Ranges::Md },
    Notation { name: "m/d/y", orders: &[MDY], short_orders: &[MDY], render: |y, m, d| format!("{m:02}/{d:02}/{y}"), bc: true, range: Ranges::Md },
    Notation { name: "m-d-y", orders: &[MDY], short_orders: &[MDY], render: |y, m, d| format!("{m:02}-{d:02}-{y}"), bc: true, range: Ranges::Md },
    Notation { name: "m.d.y", orders: &[MDY], short_orders: &[MDY], render: |y, m, d| format!("{m:02}.{d:02}.{y}"), bc: true, range: Ranges::Md },
    Notation { name: "m/d/y unpadded", orders: &[MDY], short_orders: &[MDY], render: |y, m, d| format!("{m}/{d}/{y}"), bc: true, range: Ranges::Md },
    Notation { name: "d/m/y", orders: &[DMY], short_orders: &[DMY], render: |y, m, d| format!("{d:02}/{m:02}/{y}"), bc: true, range: Ranges::Md },
    Notation { name: "d-m-y", orders: &[DMY], short_orders: &[DMY], render: |y, m, d| format!("{d:02}-{m:02}-{y}"), bc: true, range: Ranges::Md },
    Notation { name: "d.m.y", orders: &[DMY], short_orders: &[DMY], render: |y, m, d| format!("{d:02}.{m:02}.{y}"), bc: true, range: Ranges::Md },
    Notation { name: "d/m/y unpadded", orders: &[DMY], short_orders: &[DMY], render: |y, m, d| format!("{d}/{m}/{y}"), bc: true, range: Ranges::Md },
    Notation { name: "ymd compact", orders: ALL, short_orders: ALL, render: |y, m, d| format!("{y}{m:02}{d:02}"), bc: true, range: Ranges::Md },
    Notation { name: "labels", orders: ALL, short_orders: &[], render: |y, m, d| format!("y{y}m{m:02}d{d:02}"), bc: true, range: Ranges::Md },
    Notation { name: "Month d, y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{} {d}, {y}", mon_full(m)), bc: true, range: Ranges::D },
    Notation { name: "Mon d y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{} {d} {y}", mon(m)), bc: true, range: Ranges::D },
    Notation { name: "d Month y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{d} {} {y}", mon_full(m)), bc: true, range: Ranges::D },
    Notation { name: "d Mon y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{d:02} {} {y}", mon(m)), bc: true, range: Ranges::D },
    Notation { name: "y Month d", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y} {} {d}", mon_full(m)), bc: true, range: Ranges::D },
    Notation { name: "y-Mon-d", orders: ALL, short_orders: &[YMD], render: |y, m, d| format!("{y}-{}-{d:02}", mon(m)), bc: true, range: Ranges::D },
    Notation { name: "d-Mon-y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{d:02}-{}-{y}", mon(m)), bc: true, range: Ranges::D },
    Notation { name: "d-Month-y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{d}-{}-{y}", mon_full(m)), bc: true, range: Ranges::D },
    Notation { name: "Mon-d-y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{}-{d:02}-{y}", mon(m)), bc: true, range: Ranges::D },
    Notation { name: "Month-d-y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{}-{d}-{y}", mon_full(m)), bc: true, range: Ranges::D },
    Notation { name: "Mon/d/y", orders: ALL, short_orders: DM, render: |y, m, d| format!("{}/{d:02}/{y}", mon(m)), bc: true, range: Ranges::D },
];

/// Case, blanks and era word variants of a text (`era`: "", "BC", "AD").
fn dress(k: usize, text: &str, era: &str) -> String {
    let e = |s: &str| if era.is_empty() { String::new() } else { format!(" {s}") };
    match k {
        0 => format!("{text}{}", e(era)),
        1 => format!("{}{}", text.to_lowercase(), e(&era.to_lowercase())),
        2 => format!("{}{}", text.to_uppercase(), e(era)),
        3 => format!("  {}{}  ", text.replace(' ', "   "), e(era)),
        _ => format!("\t{}\n{}\t", text, e(era)),
    }
}

fn year_text(y: i64) -> (String, &'static str) {
    let v = vis_year(y);
    (format!("{:04}", v.abs()), if v < 0 { "BC" } else { "" })
}

fn want_date(n: i64) -> Out<i32> {
    if date_ok(n) {
        Out::Ok(n as i32)
    } else {
        Out::Err
    }
}
fn want_ts(t: i128) -> Out<i64> {
    if ts_ok(t) {
        Out::Ok(t as i64)
    } else {
        Out::Err
    }
}

fn c08_date(ctx: &Ctx, l: &mut Loc, o: DateOrder, text: &str, want: &Out<i32>) {
    l.tr(1);
    ctx.check(l, &date_parse(text, o), want, || vec![st!["date.parse", text, order_name(o)]]);
}
fn c08_ts(ctx: &Ctx, l: &mut Loc, o: DateOrder, text: &str, want: &Out<i64>) {
    l.tr(1);
    ctx.check(l, &ts_parse(text, -1, o), want, || vec![st!["ts.parse", text, -1, order_name(o)]]);
}

/// The year is a number of its own, separated by blanks.
fn lone_year(nt: &Notation) -> bool {
    nt.range == Ranges::D && nt.name.contains(' ')
}

/// The text of a day of the calendar, or of one just outside, in every notation.
pub fn notations_of(y: &str, m: i64, d: i64) -> Vec<String> {
    NOTATIONS.iter().map(|n| (n.render)(y, m, d)).collect()
}

/// All notations of one existing day.
fn c08_day(ctx: &Ctx, l: &mut Loc, n: i64, dresses: usize, with_ts: bool) {
    let (y, m, d) = civil(n);
    let (yt, era) = year_text(y);
    let want = want_date(n);
    l.st();
    for nt in NOTATIONS {
        if !era.is_empty() && !nt.bc {
            continue;
        }
        if yt.len() >= 6 && lone_year(nt) {
            continue; // a lone number of six digits is a compact date or time
        }
        let base = (nt.render)(&yt, m, d);
        for &o in nt.orders {
            for k in 0..dresses {
                c08_date(ctx, l, o, &dress(k, &base, era), &want);
            }
            if era.is_empty() {
                c08_date(ctx, l, o, &dress(0, &base, "AD"), &want);
            }
            if with_ts {
                let sod = n as i128 * DAY_US as i128;
                let e = if era.is_empty() { String::new() } else { format!(" {era}") };
                c08_ts(ctx, l, o, &format!("{base}{e}"), &want_ts(sod));
                let t = (13 * 3600 + 5 * 60 + 9) as i128 * US as i128;
                c08_ts(ctx, l, o, &format!("{base} 13:05:09{e}"), &want_ts(sod + t));
                c08_ts(ctx, l, o, &format!("{base}{e} 13:05:09.25"), &want_ts(sod + t + 250_000));
                c08_ts(ctx, l, o, &format!("{base} 1:05:09 PM{e}"), &want_ts(sod + t));
                c08_ts(ctx, l, o, &format!("{base} 130509{e}"), &want_ts(sod + t));
                c08_ts(ctx, l, o, &format!("{base} 24:00{e}"), &want_ts(sod + DAY_US as i128));
                if nt.name == "y-m-d" || nt.name == "ymd compact" {
                    c08_ts(ctx, l, o, &format!("{base}T13:05:09{e}"), &want_ts(sod + t));
                    c08_ts(ctx, l, o, &format!("{base}t130509{e}"), &want_ts(sod + t));
                    c08_ts(ctx, l, o, &format!("{base} T 13:05:09{e}"), &want_ts(sod + t));
                }
            }
        }
        if (1970..2070).contains(&y) {
            let sy = format!("{:02}", y % 100);
            let base = (nt.render)(&sy, m, d);
            for &o in nt.short_orders {
                for k in 0..dresses {
                    c08_date(ctx, l, o, &dress(k, &base, ""), &want);
                }
                c08_date(ctx, l, o, &dress(0, &base, "AD"), &want);
                if with_ts {
                    c08_ts(ctx, l, o, &format!("{base} 13:05:09"), &want_ts(n as i128 * DAY_US as i128 + 47_109_000_000));
                }
            }
        }
    }
    // day of year, Julian day, weekday prefix
    let doy = n - days(y, 1, 1) + 1;
    let w = dow(n) as usize;
    let e = if era.is_empty() { String::new() } else { format!(" {era}") };
    let mut texts = vec![format!("{yt}.{doy:03}{e}"), format!("{yt}-{doy:03}{e}")];
    if yt.len() < 6 {
        texts.extend([
            format!("{} {} {d} {yt}{e}", WDAYS[w], mon(m)),
            format!("{}, {} {d}, {yt}{e}", WDAYS_FULL[w], mon_full(m)),
            format!("on {} {d} {yt}{e}", mon_full(m)),
        ]);
    }
    let j = n - DATE_MIN;
    if j >= 0 {
        texts.extend([format!("J{j}"), format!("j{j}"), format!("J {j}"), format!("julian {j}"), format!("Julian {j}"), format!("JD {j}")]);
    }
    for t in &texts {
        for o in ALL {
            c08_date(ctx, l, *o, t, &want);
        }
    }
    if with_ts && j >= 0 {
        c08_ts(ctx, l, YMD, &format!("J{j} 04:05:06"), &want_ts(n as i128 * DAY_US as i128 + 14_706_000_000));
    }
}

/// Every notation of a day that does not exist is rejected.
fn c08_bad(ctx: &Ctx, l: &mut Loc, y: i64, m: i64, d: i64) {
    let (yt, era) = if y == i64::MIN { ("0000".to_string(), "") } else { year_text(y) };
    l.st();
    for nt in NOTATIONS {
        if nt.range == Ranges::D && !(1..=12).contains(&m) {
            continue;
        }
        let base = (nt.render)(&yt, m, d);
        for &o in nt.orders {
            c08_date(ctx, l, o, &dress(0, &base, era), &Out::Err);
            let e = if era.is_empty() { String::new() } else { format!(" {era}") };
            c08_ts(ctx, l, o, &format!("{base} 04:05:06{e}"), &Out::Err);
        }
        if (1970..2070).contains(&y) {
            let base = (nt.render)(&format!("{:02}", y % 100), m, d);
            for &o in nt.short_orders {
                c08_date(ctx, l, o, &base, &Out::Err);
            }
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let ys = years(ctx, false);
    ctx.bound(format!("{} notations x every day of {} boundary years x 3 orders x 5 case/blank/era dressings", NOTATIONS.len() + 12, ys.len()));
    ctx.par(ys.len() as u64 * 366, 16, |l, i| {
        let y = ys[(i / 366) as usize];
        let n = days(y, 1, 1) + (i % 366) as i64;
        if date_ok(n) && civil(n).0 == y {
            c08_day(ctx, l, n, 5, i % 366 % 7 == 0 || i % 366 > 360);
        }
    });
    ctx.bound("every day of 1970..2069 (two-digit years) x all notations, also as timestamps");
    let (a, b) = (days(1970, 1, 1), days(2070, 1, 1));
    let step = ctx.pick(1, 1);
    ctx.par((b - a) as u64 / step, 64, |l, i| c08_day(ctx, l, a + (i * step) as i64, 2, true));
    let (lo, hi) = ctx.pick((-120i64, 400i64), (-4713, 12_000));
    ctx.bound(format!("first, last and leap days of every month of years {lo}..{hi} x all notations"));
    ctx.par((hi - lo) as u64, 4, |l, i| {
        let y = lo + i as i64;
        for m in 1..=12 {
            for d in [1, dim(y, m)] {
                let n = days(y, m, d);
                if date_ok(n) {
                    c08_day(ctx, l, n, 1, false);
                }
            }
        }
    });
    let mut bys = ys.clone();
    bys.push(i64::MIN); // year zero
    ctx.bound("month 0..14 and 99 x day 0..34 and 99 outside the calendar, and the year 0, in all notations of the boundary years");
    ctx.par(bys.len() as u64, 1, |l, i| {
        let y = bys[i as usize];
        for m in (0..=14).chain([99]) {
            for d in (0..=34).chain([99]) {
                let exists = y != i64::MIN && (1..=12).contains(&m) && d >= 1 && d <= dim(y, m);
                if exists && date_ok(days(y, m, d)) {
                    continue;
                }
                c08_bad(ctx, l, y, m, d);
            }
        }
    });
    // months by every spelling; a misspelt one is rejected
    ctx.seq(|l| {
        for m in 1..=12i64 {
            let mut names = vec![mon(m).to_string(), mon_full(m).to_string()];
            if m == 9 {
                names.push("Sept".into());
            }
            for nm in names {
                for s in [nm.clone(), nm.to_lowercase(), nm.to_uppercase()] {
                    for o in ALL {
                        let w = want_date(days(2001, m, 17));
                        for t in [format!("{s} 17 2001"), format!("17-{s}-2001"), format!("2001-{s}-17"), format!("{s}-17-2001")] {
                            l.st();
                            c08_date(ctx, l, *o, &t, &w);
                        }
                        for t in [format!("{s}x 17 2001"), format!("17-{s}x-2001"), format!("x{s} 17 2001")] {
                            l.st();
                            c08_date(ctx, l, *o, &t, &Out::Err);
                        }
                    }
                }
            }
        }
    });
    // a text without a date is neither a date nor a timestamp
    ctx.bound("a time of day, era, weekday, month, label or filler word alone is rejected");
    ctx.seq(|l| {
        let mut ts: Vec<String> = vec!["allballs".into(), "ALLBALLS".into(), "allballs bc".into()];
        for h in 0..=24i64 {
            for m in [0, 5, 59] {
                for f in ["", " AM", " pm", " BC", " ad"] {
                    ts.push(format!("{h:02}:{m:02}{f}"));
                    ts.push(format!("{h:02}:{m:02}:07{f}"));
                    ts.push(format!("{h:02}:{m:02}:07.25{f}"));
                    ts.push(format!("T{h:02}{m:02}07{f}"));
                    ts.push(format!("h{h:02}m{m:02}s07{f}"));
                }
            }
        }
        for w in ["bc", "ad", "am", "pm", "at", "on", "t", "y", "m", "d", "j", "doy", "dow", "jd", ""] {
            ts.push(w.to_string());
            ts.push(format!(" {w} "));
        }
        for w in WDAYS.iter().chain(&WDAYS_FULL).chain(&MONTHS).chain(&MONTHS_FULL) {
            ts.push(w.to_string());
            ts.push(format!("{w} 04:05:06"));
            ts.push(format!("{w} BC"));
        }
        for y in ["y1999", "y1999m1", "m1d8", "d8", "1999", "99", "8", "jan 1999 bc ad", "1999-01", "1999-Jan", "Jan-1999", "Jan 1999", "1999 Jan"] {
            ts.push(y.to_string());
        }
        for t in &ts {
            l.st();
            for o in ALL {
                c08_date(ctx, l, *o, t, &Out::Err);
                c08_ts(ctx, l, *o, t, &Out::Err);
            }
        }
    });
    // the date reader and the timestamp reader agree on every text
    crate::p_ref::dates(ctx);
    for t in ["1999-01-08", "January 8, 1999", "J2451187", "1999.008", "990108", "08-Jan-99", "January 8, 99 BC"] {
        ctx.sample(|| format!("{t:?} -> {:?}", ALL.iter().map(|o| date_parse(t, *o).show()).collect::<Vec<_>>()));
    }
}

// ------------------------------------------------------------------ C09

/// The instant of h:m:s.us with an optional meridian; None = must be rejected.
pub fn clock(h: i64, m: i64, s: i64, us: i64, mer: &str) -> Option<i64> {
    if !(0..=24).contains(&h) || !(0..=59).contains(&m) || !(0..=60).contains(&s) {
        return None;
    }
    let h = match mer.trim().to_ascii_lowercase().as_str() {
        "am" if h > 12 => return None,
        "pm" if h > 12 => return None,
        "am" => h % 12,
        "pm" => h % 12 + 12,
        _ => h,
    };
    let t = h * HOUR_US + m * MIN_US + s * US + us;
    if t > DAY_US {
        return None;
    }
    Some(t)
}

fn c09_text(ctx: &Ctx, l: &mut Loc, text: &str, want: Option<i64>, orders: &[DateOrder]) {
    l.st();
    let w = match want {
        Some(t) => Out::Ok(t),
        None => Out::Err,
    };
    for &o in orders {
        l.tr(1);
        ctx.check(l, &time_parse(text, -1, o), &w, || vec![st!["time.parse", text, -1, order_name(o)]]);
    }
    for (date, n) in [("2001-02-03", days(2001, 2, 3)), ("1969-12-31", days(1969, 12, 31))] {
        let w = match want {
            Some(t) => Out::Ok(n * DAY_US + t),
            None => Out::Err,
        };
        let s = format!("{date} {text}");
        l.tr(1);
        ctx.check(l, &ts_parse(&s, -1, DateOrder::YMD), &w, || vec![st!["ts.parse", s, -1, "YMD"]]);
    }
}

const MERS: [&str; 11] = ["", " AM", " PM", " am", " pm", "AM", "PM", "am", "pm", "  Am ", " pM"];

pub fn c09(ctx: &Ctx) {
    let ord = &ALL[..1];
    ctx.bound("h 0..26,99 x m 0..61,99 as h:m, hh:mm, hhmm with 11 meridian suffixes, alone (3 orders) and with 2 dates");
    let dims = [28, 63, 11];
    ctx.par(product(dims), 64, |l, i| {
        let [h, m, k] = digits(i, dims);
        let (h, m) = (if h == 27 { 99 } else { h as i64 }, if m == 62 { 99 } else { m as i64 });
        let w = clock(h, m, 0, 0, MERS[k]);
        for t in [format!("{h}:{m}"), format!("{h:02}:{m:02}"), format!("{h:02}{m:02}")] {
            c09_text(ctx, l, &format!("{t}{}", MERS[k]), w, ALL);
        }
    });
    ctx.bound("h 0..25 x m 0..60 x s 0..62,99 as h:m:s, hh:mm:ss, hhmmss, with meridians");
    let nk = ctx.pick(3u64, 5);
    let dims = [26, 61, 64, nk];
    ctx.par(product(dims), 256, |l, i| {
        let [h, m, s, k] = digits(i, dims);
        let (h, m, s) = (h as i64, m as i64, if s == 63 { 99 } else { s as i64 });
        let mer = MERS[k];
        let w = clock(h, m, s, 0, mer);
        for t in [format!("{h:02}:{m:02}:{s:02}"), format!("{h}:{m}:{s}"), format!("{h:02}{m:02}{s:02}")] {
            c09_text(ctx, l, &format!("{t}{mer}"), w, ord);
        }
    });
    // fractions: digit strings
    let deep = ctx.pick(4usize, 6);
    ctx.bound(format!("all fraction digit strings of up to {deep} digits, and 5..7 digits over a digit set, at 6 seconds"));
    let secs = [(0, 0, 0), (23, 59, 59), (11, 59, 59), (4, 5, 6), (12, 0, 0), (0, 59, 60)];
    let mut counts = 0u64;
    let mut starts = vec![];
    for k in 1..=deep {
        starts.push((counts, k));
        counts += 10u64.pow(k as u32);
    }
    ctx.par(counts, 512, |l, i| {
        let &(base, k) = starts.iter().rev().find(|(b, _)| *b <= i).unwrap();
        let f = format!("{:0w$}", i - base, w = k);
        let us = (i - base) as i64 * 10i64.pow(6 - k as u32);
        let some = if k > 3 { &secs[1..4] } else { &secs[..] };
        for &(h, m, s) in some {
            c09_text(ctx, l, &format!("{h:02}:{m:02}:{s:02}.{f}"), clock(h, m, s, us, ""), ord);
            c09_text(ctx, l, &format!("{h:02}{m:02}{s:02}.{f}"), clock(h, m, s, us, ""), ord);
        }
    });
    let ds: Vec<u64> = ctx.pick(vec![0, 4, 5, 9], vec![0, 1, 4, 5, 6, 9]);
    let nd = ds.len() as u64;
    ctx.par(nd.pow(7), 512, |l, i| {
        let mut f = String::new();
        let mut x = i;
        for _ in 0..7 {
            f.push((b'0' + ds[(x % nd) as usize] as u8) as char);
            x /= nd;
        }
        let v: i64 = f.parse().unwrap();
        if v % 10 == 5 {
            return; // a half of a microsecond: either neighbour is right
        }
        let us = (v + 5) / 10;
        for &(h, m, s) in &secs[..4] {
            for mer in ["", " PM"] {
                c09_text(ctx, l, &format!("{h:02}:{m:02}:{s:02}.{f}{mer}"), clock(h, m, s, us, mer), ord);
            }
        }
        c09_text(ctx, l, &format!("040506.{f}"), clock(4, 5, 6, us, ""), ord);
    });
    ctx.bound("h 0..26,99 x m 0..61,99 x s 0..62,99 (boundary values) with field labels in 6 layouts, after T or at, with meridians");
    let hh: Vec<i64> = (0..=26).chain([99]).collect();
    let mm: Vec<i64> = vec![0, 1, 9, 10, 30, 58, 59, 60, 61, 99];
    let ss: Vec<i64> = vec![0, 1, 6, 10, 59, 60, 61, 99];
    let dims = [hh.len() as u64, mm.len() as u64, ss.len() as u64, 3];
    ctx.par(product(dims), 16, |l, i| {
        let [h, m, s, k] = digits(i, dims);
        let (h, m, s, mer) = (hh[h], mm[m], ss[s], ["", " am", " PM"][k]);
        let w = clock(h, m, s, 0, mer);
        for t in [
            format!("h{h:02}m{m:02}s{s:02}"), format!("h{h} m{m} s{s}"), format!("h{h}mm{m}s{s}"), format!("H{h:02} M{m:02} S{s:02}"),
            format!("T{h:02}:{m:02}:{s:02}"), format!("t{h:02}{m:02}{s:02}"), format!("T {h:02}:{m:02}:{s:02}"), format!("at {h:02}:{m:02}:{s:02}"),
        ] {
            c09_text(ctx, l, &format!("{t}{mer}"), w, ALL);
        }
        let wf = clock(h, m, s, 250_000, mer);
        c09_text(ctx, l, &format!("h{h:02}m{m:02}s{s:02}.25{mer}"), wf, ALL);
        c09_text(ctx, l, &format!("T{h:02}{m:02}{s:02}.25{mer}"), wf, ALL);
        if s == 0 {
            c09_text(ctx, l, &format!("h{h:02}m{m:02}{mer}"), w, ALL);
            c09_text(ctx, l, &format!("t{h:02}{m:02}{mer}"), w, ALL);
            if m == 0 {
                c09_text(ctx, l, &format!("h{h}{mer}"), w, ALL);
            }
        }
    });
    ctx.bound("two fields with a fraction are minutes and seconds: m 0..61,99 x s 0..62,99 x 5 fractions");
    let dims = [63, 64, 5, 3];
    ctx.par(product(dims), 64, |l, i| {
        let [m, s, f, k] = digits(i, dims);
        let (m, s) = (if m == 62 { 99 } else { m as i64 }, if s == 63 { 99 } else { s as i64 });
        let (f, us) = [("0", 0), ("5", 500_000), ("000001", 1), ("999999", 999_999), ("12", 120_000)][f];
        let mer = ["", " AM", " pm"][k];
        c09_text(ctx, l, &format!("{m}:{s:02}.{f}{mer}"), clock(0, m, s, us, mer), ord);
    });
    ctx.bound("times later than 24:00:00 by fractions and carries, and other malformed times");
    ctx.seq(|l| {
        for (h, m, s, us) in [(23, 59, 60, 0), (23, 59, 60, 500_000), (24, 0, 0, 0), (24, 0, 0, 1), (24, 0, 60, 0), (24, 59, 0, 0), (12, 59, 60, 0), (11, 59, 60, 999_999), (0, 0, 60, 1)] {
            for mer in MERS {
                let f = frac_str(us);
                let w = clock(h, m, s, us, mer);
                c09_text(ctx, l, &format!("{h:02}:{m:02}:{s:02}{f}{mer}"), w, ALL);
                c09_text(ctx, l, &format!("{h:02}{m:02}{s:02}{f}{mer}"), w, ALL);
            }
        }
        for t in [
            "12:", ":30", "12:30:", "-1:00", "12:30:40:50", "1:2:3x", "12h30", "am", "pm", "25:00 am", "13:00 pm", "13:00 AM", "1e2:00",
            "4294967296:00", "2147483648:00", "99999999999:00", "00:4294967296", "00:00:4294967296", "00:00:99999999999", "12:30 am pm",
            "12:30 12:30", "noon", "12;30", "12:30:60.0000001x",
        ] {
            if t == "12:" || t == "12:30:" || t == "12h30" || t == ":30" || t == "12;30" {
                continue; // PostgreSQL reads an empty number as zero; not part of the property
            }
            if t == "am" || t == "pm" {
                for o in ALL {
                    l.tr(1);
                    ctx.check(l, &time_parse(t, -1, *o), &Out::Err, || vec![st!["time.parse", t, -1, order_name(*o)]]);
                }
                continue;
            }
            c09_text(ctx, l, t, None, ALL);
        }
    });
    for t in ["04:05", "040506.789", "12:00 AM", "23:59:60", "24:00:00", "24:00:01"] {
        ctx.sample(|| format!("{t:?} -> {:?}", time_parse(t, -1, YMD)));
    }
    crate::p_ref::times(ctx);
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    Us,
    Ms,
    Sec,
    Min,
    Hour,
    Day,
    Week,
    Mon,
    Year,
    Dec,
    Cent,
    Mil,
}
use U::*;

const SPELL: &[(U, &[&str])] = &[
    (Us, &["us", "usec", "usecs", "usecond", "useconds", "microsecond", "microseconds"]),
    (Ms, &["ms", "msec", "msecs", "msecond", "mseconds", "millisecond", "milliseconds"]),
    (Sec, &["s", "sec", "secs", "second", "seconds"]),
    (Min, &["m", "min", "mins", "minute", "minutes"]),
    (Hour, &["h", "hr", "hrs", "hour", "hours"]),
    (Day, &["d", "day", "days"]),
    (Week, &["w", "week", "weeks"]),
    (Mon, &["mon", "mons", "month", "months"]),
    (Year, &["y", "yr", "yrs", "year", "years"]),
    (Dec, &["dec", "decs", "decade", "decades"]),
    (Cent, &["c", "cent", "century", "centuries"]),
    (Mil, &["mil", "mils", "millennia", "millennium"]),
];
const UNITS_ALL: [U; 12] = [Us, Ms, Sec, Min, Hour, Day, Week, Mon, Year, Dec, Cent, Mil];

fn word(u: U) -> &'static str {
    SPELL.iter().find(|s| s.0 == u).unwrap().1.last().unwrap()
}

/// A signed decimal quantity: sign, digits, fraction digits.
#[derive(Clone, Debug)]
struct Q {
    sign: &'static str, // "", "+", "-"
    int: i64,
    frac: &'static str,
    u: U,
}

impl Q {
    fn text(&self, w: &str, sep: &str) -> String {
        if self.frac.is_empty() {
            format!("{}{}{sep}{w}", self.sign, self.int)
        } else {
            format!("{}{}.{}{sep}{w}", self.sign, self.int, self.frac)
        }
    }
}

#[derive(Default, Clone, Copy)]
struct Sum {
    year: i128,
    mon: i128,
    day: i128,
    hour: i128,
    min: i128,
    sec: i128,
    us: i128,
    /// a field sum that does not fit in 32 bits may be rejected although the total fits
    wide: bool,
    tie: bool,
}

impl Sum {
    fn frac_time(&mut self, num: i128, den: i128, us_per: i128) {
        // num/den units of us_per microseconds, rounded to nearest
        let x = num * us_per;
        if (2 * x) % den == 0 && x % den != 0 {
            self.tie = true;
        }
        self.us += (2 * x + if x < 0 { -den } else { den }) / (2 * den);
    }
    fn add(&mut self, q: &Q) {
        let sg: i128 = if q.sign == "-" { -1 } else { 1 };
        let v = sg * q.int as i128;
        if v > i32::MAX as i128 || v < i32::MIN as i128 {
            self.wide = true;
        }
        let den = 10i128.pow(q.frac.len() as u32);
        let num = sg * if q.frac.is_empty() { 0 } else { q.frac.parse::<i128>().unwrap() };
        let us = US as i128;
        match q.u {
            Us => {
                self.us += v;
                self.frac_time(num, den, 1);
            }
            Ms => {
                self.us += v * 1000;
                self.frac_time(num, den, 1000);
            }
            Sec => {
                self.sec += v;
                self.frac_time(num, den, us);
            }
            Min => {
                self.min += v;
                self.frac_time(num, den, 60 * us);
            }
            Hour => {
                self.hour += v;
                self.frac_time(num, den, 3600 * us);
            }
            Day => {
                self.day += v;
                self.frac_time(num, den, DAY_US as i128);
            }
            Week => {
                self.day += 7 * v + 7 * num / den;
                self.frac_time(7 * num % den, den, DAY_US as i128);
            }
            Mon => {
                self.mon += v;
                self.day += 30 * num / den;
                self.frac_time(30 * num % den, den, DAY_US as i128);
            }
            Year | Dec | Cent | Mil => {
                let k = match q.u {
                    Year => 1,
                    Dec => 10,
                    Cent => 100,
                    _ => 1000,
                };
                self.year += v * k;
                self.mon += num * 12 * k / den;
            }
        }
    }
    fn parts(&self) -> Option<Iv> {
        iv_mk(
            self.year * 12 + self.mon,
            self.day,
            self.us + (self.sec + 60 * self.min + 3600 * self.hour) * US as i128,
        )
    }
    fn neg(&mut self) {
        for f in [&mut self.year, &mut self.mon, &mut self.day, &mut self.hour, &mut self.min, &mut self.sec, &mut self.us] {
            *f = -*f;
        }
    }
    /// In SQL-standard reading a leading minus covers every part when there is no other sign.
    fn all_negative(&mut self) {
        for f in [&mut self.year, &mut self.mon, &mut self.day, &mut self.hour, &mut self.min, &mut self.sec, &mut self.us] {
            if *f > 0 {
                *f = -*f;
            }
        }
    }
    fn lenient(&self) -> bool {
        let lim = (1i128 << 31) - 1;
        self.wide
            || [self.year, self.mon, self.day, self.hour, self.min, self.sec + self.us / US as i128, self.sec]
                .iter()
                .any(|f| f.abs() > lim)
            || self.us.abs() > i64::MAX as i128 / 2
    }
}

fn c10_check(ctx: &Ctx, l: &mut Loc, text: &str, s: IntervalStyle, sum: &Sum) {
    l.tr(1);
    let got = iv_parse(text, -1, s);
    let want = match sum.parts() {
        Some(v) => Out::Ok(v),
        None => Out::Err,
    };
    l.compared += 1;
    if got == want || (got == Out::Err && sum.lenient()) {
        return;
    }
    if sum.tie {
        // a half microsecond may go either way
        if let (Out::Ok(g), Out::Ok(w)) = (&got, &want) {
            if g.0 == w.0 && g.1 == w.1 && g.2.abs_diff(w.2) <= 2 {
                return;
            }
        }
    }
    ctx.fail(vec![st!["iv.parse", text, -1, istyle_name(s)]], want.show(), got.show());
}

fn c10_bad(ctx: &Ctx, l: &mut Loc, text: &str) {
    l.st();
    for s in ISTYLES {
        l.tr(1);
        ctx.check(l, &iv_parse(text, -1, s), &Out::Err, || vec![st!["iv.parse", text, -1, istyle_name(s)]]);
    }
}

/// A list of quantities in each style, plain and with "ago".
fn c10_list(ctx: &Ctx, l: &mut Loc, qs: &[Q], words: &[&str], sep: &str, join: &str) {
    l.st();
    let text = qs.iter().zip(words).map(|(q, w)| q.text(w, sep)).collect::<Vec<_>>().join(join);
    let mut sum = Sum::default();
    for q in qs {
        sum.add(q);
    }
    let mut ago = sum;
    ago.neg();
    let dup = {
        // which unit classes each quantity occupies (fractional seconds occupy all sub-second ones)
        let mut seen = std::collections::HashSet::new();
        let mut dup = false;
        for q in qs {
            let cl: &[U] = if q.u == Sec && q.frac.bytes().any(|b| b != b'0') { &[Us, Ms, Sec] } else { std::slice::from_ref(&q.u) };
            for c in cl {
                if !seen.insert(*c as u8) {
                    dup = true;
                }
            }
        }
        dup
    };
    let agot = format!("{text} ago");
    if dup {
        c10_bad(ctx, l, &text);
        return;
    }
    for s in ISTYLES {
        let lead = s == IntervalStyle::SQLStandard && qs[0].sign == "-" && qs[1..].iter().all(|q| q.sign.is_empty());
        if lead && qs.len() > 1 {
            if qs.iter().any(|q| !q.frac.is_empty() || q.u == Ms || q.u == Us) {
                continue; // sign scope and carries mix: outside the property
            }
            let mut n = sum;
            n.all_negative();
            c10_check(ctx, l, &text, s, &n);
            n.neg();
            c10_check(ctx, l, &agot, s, &n);
        } else {
            c10_check(ctx, l, &text, s, &sum);
            c10_check(ctx, l, &agot, s, &ago);
        }
    }
}

pub fn c10(ctx: &Ctx) {
    // every spelling, every case, one quantity
    let ints: Vec<i64> = dedup(vec![
        0, 1, 2, 7, 9, 10, 11, 12, 13, 29, 30, 59, 60, 61, 99, 100, 999, 1000, 1001, 86_399, 86_400, 99_999, 178_956, 178_957, 214_748, 214_749,
        1_789_569, 1_789_570, 2_147_483, 2_147_484, 17_895_697, 17_895_698, 35_791_394, 35_791_395, 178_956_970, 178_956_971,
        306_783_378, 306_783_379, 999_999_999, 2_147_483_646, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 9_999_999_999,
        10_000_000_000, 99_999_999_999, 9_223_372_036_854_775_807,
    ]);
    let fracs: &[&str] = &["", "0", "1", "2", "25", "3", "5", "7", "9", "05", "125", "333", "999", "0001", "123456", "000001", "999999", "500000", "1234567", "0000001", "9999999"];
    ctx.bound(format!("every unit spelling x 3 cases x 3 signs x {} integers, and canonical units x {} fractions, with and without ago, 4 styles", ints.len(), fracs.len()));
    let forms: Vec<(U, String)> = SPELL
        .iter()
        .flat_map(|(u, ws)| ws.iter().map(move |w| (*u, w.to_string())))
        .flat_map(|(u, w)| vec![(u, w.clone()), (u, w.to_uppercase()), (u, w[..1].to_uppercase() + &w[1..])])
        .collect();
    let dims = [forms.len() as u64, ints.len() as u64, 3];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b, c] = digits(i, dims);
        let q = Q { sign: ["", "-", "+"][c], int: ints[b], frac: "", u: forms[a].0 };
        c10_list(ctx, l, &[q.clone()], &[&forms[a].1], " ", " ");
        c10_list(ctx, l, &[q], &[&forms[a].1], "", " ");
    });
    let dims = [12, ints.len() as u64, fracs.len() as u64, 3];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b, f, c] = digits(i, dims);
        let u = UNITS_ALL[a];
        if u as u8 >= Year as u8 && !matches!(fracs[f], "" | "0" | "5" | "25" | "500000") {
            return; // fractions of years fall to whole months only: outside the property
        }
        let q = Q { sign: ["", "-", "+"][c], int: ints[b], frac: fracs[f], u };
        c10_list(ctx, l, &[q], &[word(u)], " ", " ");
    });
    // pairs and triples
    let vals: Vec<(i64, &'static str)> = vec![(0, ""), (1, ""), (3, "5"), (59, ""), (100, "25"), (2_147_483_647, ""), (178_956_970, ""), (2, "999999")];
    let signs = ["", "-", "+"];
    ctx.bound("all ordered pairs of unit x 8 values x 3 signs (repeated units rejected), with and without ago, 4 styles");
    let dims = [12, 12, 8, 8, 9];
    ctx.par(product(dims), 128, |l, i| {
        let [a, b, x, y, s] = digits(i, dims);
        let (u, v) = (UNITS_ALL[a], UNITS_ALL[b]);
        let fy = |u: U, f: &'static str| if u as u8 >= Year as u8 && f == "999999" { "5" } else { f };
        let qs = [
            Q { sign: signs[s / 3], int: vals[x].0, frac: fy(u, vals[x].1), u },
            Q { sign: signs[s % 3], int: vals[y].0, frac: fy(v, vals[y].1), u: v },
        ];
        c10_list(ctx, l, &qs, &[word(u), word(v)], " ", " ");
    });
    let v3: Vec<(i64, &'static str)> = ctx.pick(vec![(0, ""), (1, ""), (40, "5")], vec![(0, ""), (1, ""), (7, "25"), (40, "5"), (2_147_483_647, "")]);
    let k = v3.len() as u64;
    ctx.bound(format!("all ordered triples of unit x {k} values x sign patterns"));
    let dims = [12, 12, 12, k, k, k, 8];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b, c, x, y, z, s] = digits(i, dims);
        let u = [UNITS_ALL[a], UNITS_ALL[b], UNITS_ALL[c]];
        let qs: Vec<Q> = [x, y, z]
            .iter()
            .zip(u)
            .enumerate()
            .map(|(j, (v, u))| Q { sign: if s >> j & 1 == 1 { "-" } else { "" }, int: v3[*v].0, frac: v3[*v].1, u })
            .collect();
        c10_list(ctx, l, &qs, &[word(u[0]), word(u[1]), word(u[2])], " ", if s == 3 { ", " } else { " " });
    });
    c10_mixed(ctx);
    c10_sql(ctx);
    c10_iso(ctx);
    ctx.bound("unknown and misspelt units, missing numbers, repeated units, stray words");
    ctx.seq(|l| {
        for w in [
            "foo", "dayz", "da", "monthly", "yea", "hou", "minut", "secon", "millis", "decad", "centur", "millen", "xx", "days2", "microsec", "microsecondsx1", "dayss",
            "monthss", "weekly", "hourss",
        ] {
            if w == "microsecondsx1" || w == "days2" {
                continue;
            }
            for n in ["1", "-1", "+2.5", "0"] {
                c10_bad(ctx, l, &format!("{n} {w}"));
                c10_bad(ctx, l, &format!("1 hour {n} {w}"));
                c10_bad(ctx, l, &format!("{n} {w} 1 hour"));
            }
        }
        for t in ["day", "ago", "1 day 2", "", " ", "one day", "1 day day 2", "1--2", "1-2-3", "1-12", "1-99", "P", "P1", "PT", "P1X", "PT1D", "PT1Y", "p1d", "P1S", "1 day 1:2:3:4", "infinity", "-", "+", "1 day -", "1..5 days", "1.5.5 days", "--1 day", "1-", "1e5 days"] {
            if matches!(t, "1 day 2" | "1 day day 2" | "P" | "PT" | "P1" | "1-" | "1--2" | "--1 day" | "1 day -" | "-" | "+" | "1e5 days" | "1-2-3") {
                continue;
            }
            c10_bad(ctx, l, t);
        }
        for n in ["2147483648", "-2147483649", "4294967296", "99999999999999999999", "18446744073709551616"] {
            for u in ["day", "month", "year", "week", "decade", "century", "millennium"] {
                c10_bad(ctx, l, &format!("{n} {u}"));
                c10_bad(ctx, l, &format!("1 second {n} {u}"));
            }
            c10_bad(ctx, l, &format!("P{n}D"));
            c10_bad(ctx, l, &format!("P{n}Y"));
            c10_bad(ctx, l, &format!("P{n}M"));
            c10_bad(ctx, l, &format!("P{n}W"));
        }
        for u in UNITS_ALL {
            let w = word(u);
            c10_bad(ctx, l, &format!("1 {w} 1 {w}"));
            c10_bad(ctx, l, &format!("1 {w} -1 {w}"));
            c10_bad(ctx, l, &format!("1 {w} 2 {w} ago"));
        }
    });
    for t in ["1.5 weeks", "1 year 2 mons -3 days 4:05:06.789", "-1-2 3 -4:05:06", "P1Y2M-3DT4H5M6.789S", "3 days ago"] {
        ctx.sample(|| format!("{t:?} -> {:?}", ISTYLES.map(|s| iv_parse(t, -1, s))));
    }
    crate::p_ref::intervals(ctx);
}

/// Quantities with units together with a clock time, and lists set off by punctuation.
fn c10_mixed(ctx: &Ctx) {
    let ns = [0i64, 1, 14, 400, 2_147_483_647];
    let hs = [0i64, 1, 23, 24, 100, 2_147_483_647];
    let ms = [(0i64, 0i64, ""), (5, 6, ""), (59, 59, "999999"), (0, 0, "000001"), (30, 0, "5")];
    let sg = ["", "-", "+"];
    ctx.bound("unit quantities (12 units, then pairs) with a clock time before or after, sign patterns, with and without ago, 4 styles; clock units with a clock time rejected");
    let run = |l: &mut Loc, qs: &[Q], s: usize, h: i64, (m, se, f): (i64, i64, &'static str), first: bool, short: bool| {
        l.st();
        let mut sum = Sum::default();
        for q in qs {
            sum.add(q);
        }
        let ng: i128 = if sg[s] == "-" { -1 } else { 1 };
        sum.hour += ng * h as i128;
        sum.min += ng * m as i128;
        sum.sec += ng * se as i128;
        if !f.is_empty() {
            sum.us += ng * f.parse::<i128>().unwrap() * 10i128.pow(6 - f.len() as u32);
        }
        let list = qs.iter().map(|q| q.text(word(q.u), " ")).collect::<Vec<_>>().join(" ");
        let clock = if short {
            format!("{}{h}:{m:02}", sg[s])
        } else if f.is_empty() {
            format!("{}{h:02}:{m:02}:{se:02}", sg[s])
        } else {
            format!("{}{h:02}:{m:02}:{se:02}.{f}", sg[s])
        };
        let t = if first { format!("{clock} {list}") } else { format!("{list} {clock}") };
        let dup = qs.iter().any(|q| matches!(q.u, Us | Ms | Sec | Min | Hour)) || qs.len() == 2 && qs[0].u == qs[1].u;
        if dup {
            c10_bad(ctx, l, &t);
            c10_bad(ctx, l, &format!("{t} ago"));
            return;
        }
        for st in ISTYLES {
            let signs: Vec<&str> = if first {
                std::iter::once(sg[s]).chain(qs.iter().map(|q| q.sign)).collect()
            } else {
                qs.iter().map(|q| q.sign).chain([sg[s]]).collect()
            };
            let mut x = sum;
            if st == IntervalStyle::SQLStandard && signs[0] == "-" && signs[1..].iter().all(|g| g.is_empty()) {
                if qs.iter().any(|q| !q.frac.is_empty()) {
                    continue; // sign scope and carries mix
                }
                x.all_negative();
            }
            c10_check(ctx, l, &t, st, &x);
            x.neg();
            c10_check(ctx, l, &format!("{t} ago"), st, &x);
        }
    };
    let dims = [12, 5, 3, 2, 3, 6, 5, 2];
    ctx.par(product(dims), 64, |l, i| {
        let [u, n, a, fr, b, h, m, first] = digits(i, dims);
        let u = UNITS_ALL[u];
        let q = Q { sign: sg[a], int: ns[n], frac: ["", "5"][fr], u };
        run(l, &[q.clone()], b, hs[h], ms[m], first == 1, false);
        if ms[m].1 == 0 && ms[m].2.is_empty() {
            run(l, &[q], b, hs[h], (ms[m].0, 0, ""), first == 1, true);
        }
    });
    let v = [0i64, 3, 100];
    let dims = [12, 12, 3, 3, 3, 3, 3, 2];
    ctx.par(product(dims), 64, |l, i| {
        let [u, w, n, k, a, b, c, first] = digits(i, dims);
        let qs = [Q { sign: sg[a], int: v[n], frac: "", u: UNITS_ALL[u] }, Q { sign: sg[b], int: v[k], frac: "", u: UNITS_ALL[w] }];
        run(l, &qs, c, 4, (5, 6, "789"), first == 1, false);
    });
    ctx.bound("lists set off by @ , ; and other punctuation read like lists set off by blanks: pairs of units x signs x 8 punctuations");
    let punct = ["@ ", "@", ",", ", ", " , ", ";", " @ ", "&"];
    let dims = [12, 12, 3, 3, 8, 2];
    ctx.par(product(dims), 64, |l, i| {
        let [u, w, a, b, p, lead] = digits(i, dims);
        if u == w {
            return;
        }
        let qs = [Q { sign: sg[a], int: 7, frac: "", u: UNITS_ALL[u] }, Q { sign: sg[b], int: 12, frac: "", u: UNITS_ALL[w] }];
        let plain = format!("{} {}", qs[0].text(word(qs[0].u), " "), qs[1].text(word(qs[1].u), " "));
        let dressed = if lead == 1 {
            format!("{}{plain}", punct[p])
        } else {
            format!("{}{}{}", qs[0].text(word(qs[0].u), " "), punct[p], qs[1].text(word(qs[1].u), " "))
        };
        l.st();
        for st in ISTYLES {
            for ago in ["", " ago"] {
                let (x, y) = (format!("{plain}{ago}"), format!("{dressed}{ago}"));
                l.tr(2);
                let want = iv_parse(&x, -1, st);
                ctx.check(l, &iv_parse(&y, -1, st), &want, || vec![st!["iv.parse", x, -1, istyle_name(st)], st!["iv.parse", y, -1, istyle_name(st)]]);
            }
        }
    });
}

/// SQL-standard literals: [sign]y-m, [sign]d [sign]h:m:s and their combination.
fn c10_sql(ctx: &Ctx) {
    let ys = [0i64, 1, 10, 178_956_970, 178_956_971];
    let ms = [0i64, 1, 7, 11, 12];
    let ds = [0i64, 1, 400, 2_147_483_647];
    let hs = [0i64, 1, 23, 24, 100, 2_147_483_647];
    let mins = [0i64, 5, 59, 60];
    let ss = [0i64, 6, 59, 61];
    let fr: [&str; 4] = ["", "5", "000001", "999999"];
    ctx.bound("SQL-standard year-month and day-time literals over boundary fields x sign patterns x 4 styles");
    let sg = ["", "-", "+"];
    // year-month alone and with day-time
    let dims = [3, 5, 5, 3, 5, 3, 7, 2, 2];
    ctx.par(product(dims), 256, |l, i| {
        let [s1, y, m, s2, d, s3, h, mi, se] = digits(i, dims);
        l.st();
        let mut sum = Sum::default();
        let mut text = vec![];
        let neg = |s: usize| if sg[s] == "-" { -1i128 } else { 1 };
        text.push(format!("{}{}-{}", sg[s1], ys[y], ms[m]));
        sum.year += neg(s1) * ys[y] as i128;
        sum.mon += neg(s1) * ms[m] as i128;
        let has_d = d < 4;
        let has_t = h < 6;
        if has_d != has_t {
            return; // a lone number after the years-months would be read as days or seconds by position
        }
        if has_d {
            text.push(format!("{}{}", sg[s2], ds[d]));
            sum.day += neg(s2) * ds[d] as i128;
            text.push(format!("{}{}:{:02}:{:02}", sg[s3], hs[h], mins[mi * 2], ss[se * 2]));
            sum.hour += neg(s3) * hs[h] as i128;
            sum.min += neg(s3) * mins[mi * 2] as i128;
            sum.sec += neg(s3) * ss[se * 2] as i128;
        } else if s2 + s3 + mi + se > 0 {
            return;
        }
        let bad = ms[m] > 11;
        let t = text.join(" ");
        if bad {
            c10_bad(ctx, l, &t);
            return;
        }
        for s in ISTYLES {
            let mut x = sum;
            if s == IntervalStyle::SQLStandard && sg[s1] == "-" && text[1..].iter().all(|p| !p.starts_with(['-', '+'])) {
                x.all_negative();
            }
            c10_check(ctx, l, &t, s, &x);
        }
    });
    // day-time
    let dims = [3, 5, 3, 6, 4, 4, 4];
    ctx.par(product(dims), 256, |l, i| {
        let [s1, d, s2, h, mi, se, f] = digits(i, dims);
        l.st();
        let neg = |s: usize| if sg[s] == "-" { -1i128 } else { 1 };
        let mut sum = Sum::default();
        let mut text = String::new();
        if d < 4 {
            text = format!("{}{} ", sg[s1], ds[d]);
            sum.day = neg(s1) * ds[d] as i128;
        } else if s1 > 0 {
            return;
        }
        let frac = if fr[f].is_empty() { String::new() } else { format!(".{}", fr[f]) };
        text += &format!("{}{}:{:02}:{:02}{frac}", sg[s2], hs[h], mins[mi], ss[se]);
        sum.hour = neg(s2) * hs[h] as i128;
        sum.min = neg(s2) * mins[mi] as i128;
        sum.sec = neg(s2) * ss[se] as i128;
        sum.us = neg(s2) * if fr[f].is_empty() { 0 } else { fr[f].parse::<i128>().unwrap() * 10i128.pow(6 - fr[f].len() as u32) };
        if mins[mi] > 59 || ss[se] > 60 {
            c10_bad(ctx, l, &text);
            return;
        }
        for s in ISTYLES {
            let mut x = sum;
            if s == IntervalStyle::SQLStandard && d < 4 && sg[s1] == "-" && sg[s2].is_empty() {
                x.all_negative();
            }
            c10_check(ctx, l, &text, s, &x);
        }
    });
}

/// ISO 8601 durations with designators, and the alternative formats.
fn c10_iso(ctx: &Ctx) {
    let v: [(&str, i64, &'static str); 7] = [("", 0, ""), ("", 1, ""), ("-", 2, ""), ("", 3, "5"), ("-", 40, "25"), ("", 2_147_483_647, ""), ("-", 0, "000001")];
    ctx.bound("ISO 8601 durations: every subset of Y M W D T H M S with 7 values per field (pairs), all subsets with 2 values, alternative formats");
    let order: [(U, &str, bool); 7] = [(Year, "Y", false), (Mon, "M", false), (Week, "W", false), (Day, "D", false), (Hour, "H", true), (Min, "M", true), (Sec, "S", true)];
    let run = |l: &mut Loc, qs: &[(usize, usize)]| {
        l.st();
        let mut text = String::from("P");
        let mut sum = Sum::default();
        let mut t = false;
        for &(f, k) in qs {
            let (u, c, time) = order[f];
            if u == Year && !v[k].2.is_empty() && v[k].2 != "5" && v[k].2 != "25" {
                return;
            }
            if time && !t {
                text.push('T');
                t = true;
            }
            text += v[k].0;
            text += &v[k].1.to_string();
            if !v[k].2.is_empty() {
                text.push('.');
                text += v[k].2;
            }
            text += c;
            let q = Q { sign: v[k].0, int: v[k].1, frac: v[k].2, u };
            sum.add(&q);
        }
        for s in ISTYLES {
            c10_check(ctx, l, &text, s, &sum);
        }
    };
    ctx.par(128, 1, |l, m| {
        let fs: Vec<usize> = (0..7).filter(|f| m >> f & 1 == 1).collect();
        if fs.is_empty() {
            return;
        }
        // all value combinations up to two fields, otherwise {1, -2} per field plus one odd value
        let n = fs.len();
        if n <= 3 {
            let total = 7u64.pow(n as u32);
            for i in 0..total {
                let mut x = i;
                let q: Vec<(usize, usize)> = fs
                    .iter()
                    .map(|f| {
                        let k = (x % 7) as usize;
                        x /= 7;
                        (*f, k)
                    })
                    .collect();
                run(l, &q);
            }
        } else {
            for i in 0..(1u32 << n) {
                for odd in 0..n {
                    for ok in [3usize, 4, 5, 6] {
                        let q: Vec<(usize, usize)> =
                            fs.iter().enumerate().map(|(j, f)| (*f, if j == odd { ok } else if i >> j & 1 == 1 { 2 } else { 1 })).collect();
                        run(l, &q);
                    }
                }
            }
        }
    });
    // alternative formats
    ctx.seq(|l| {
        for y in [0i64, 1, 1999, 9999] {
            for m in [0i64, 1, 11, 12] {
                for d in [0i64, 1, 31, 99] {
                    for (h, mi, s) in [(0i64, 0i64, 0i64), (4, 5, 6), (23, 59, 59), (99, 0, 1)] {
                        l.st();
                        let sum = Sum { year: y as i128, mon: m as i128, day: d as i128, hour: h as i128, min: mi as i128, sec: s as i128, ..Default::default() };
                        for st in ISTYLES {
                            c10_check(ctx, l, &format!("P{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}"), st, &sum);
                            c10_check(ctx, l, &format!("P{y:04}{m:02}{d:02}T{h:02}{mi:02}{s:02}"), st, &sum);
                            let half = Sum { us: 500_000, ..sum };
                            c10_check(ctx, l, &format!("P{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}.5"), st, &half);
                            c10_check(ctx, l, &format!("P{y:04}{m:02}{d:02}T{h:02}{mi:02}{s:02}.5"), st, &half);
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C24

const B_MON: i32 = 1 << 1;
const B_YEAR: i32 = 1 << 2;
const B_DAY: i32 = 1 << 3;
const B_HOUR: i32 = 1 << 10;
const B_MIN: i32 = 1 << 11;
const B_SEC: i32 = 1 << 12;

pub fn iv_typmod(range: i32, prec: i32) -> i32 {
    ((range & 0x7FFF) << 16) | (prec & 0xFFFF)
}

/// The standard restrictions: (mask, what is kept).
pub const RANGES: [(i32, &str); 14] = [
    (0x7FFF, "full"),
    (B_YEAR, "year"),
    (B_MON, "month"),
    (B_YEAR | B_MON, "month"),
    (B_DAY, "day"),
    (B_HOUR, "hour"),
    (B_MIN, "minute"),
    (B_SEC, "full"),
    (B_DAY | B_HOUR, "hour"),
    (B_DAY | B_HOUR | B_MIN, "minute"),
    (B_DAY | B_HOUR | B_MIN | B_SEC, "full"),
    (B_HOUR | B_MIN, "minute"),
    (B_HOUR | B_MIN | B_SEC, "full"),
    (B_MIN | B_SEC, "full"),
];

pub fn restrict(v: Iv, keep: &str) -> Iv {
    match keep {
        "full" => v,
        k => r_iv_trunc(k, v),
    }
}

pub fn c24(ctx: &Ctx) {
    // every fraction of a second around ties, at boundary instants, each precision
    let mut fr: Vec<i64> = vec![0, 1, 999_999];
    for p in 0..6u32 {
        let u = 10i64.pow(6 - p);
        for k in 0..(US / u).min(20) {
            for e in [-1, 0, 1] {
                fr.push(k * u + u / 2 + e);
            }
        }
        for e in [-1, 0, 1] {
            fr.push(US - u / 2 + e);
            fr.push(US - u + e);
        }
    }
    fr.retain(|f| (0..US).contains(f));
    let fr = dedup(fr);
    let all = ctx.pick(7u64, 1);
    ctx.bound(format!("{} fractions around every rounding half x all precisions x 24 days x 6 seconds (timestamps), all 16 times (times); every fraction (step {all}) at 3 instants", fr.len()));
    let fd = few_days(true);
    let secs = [0i64, 59, 43_199, 86_340, 86_398, 86_399];
    let ts_one = |l: &mut Loc, t: i64| {
        l.st();
        let mut s = String::new();
        crate::p_cal::ts_text(&mut s, DateStyle::ISO, YMD, t);
        for p in 0..=6usize {
            let r = round_prec(t, p);
            let w = want_ts(r);
            l.tr(1);
            ctx.check(l, &ts_parse(&s, p as i32, YMD), &w, || vec![st!["ts.parse", s, p, "YMD"]]);
        }
        l.tr(1);
        ctx.check(l, &ts_parse(&s, -1, YMD), &Out::Ok(t), || vec![st!["ts.parse", s, -1, "YMD"]]);
    };
    let dims = [fd.len() as u64, secs.len() as u64, fr.len() as u64];
    ctx.par(product(dims), 128, |l, i| {
        let [a, b, c] = digits(i, dims);
        ts_one(l, fd[a] * DAY_US + secs[b] * US + fr[c]);
    });
    let time_one = |l: &mut Loc, t: i64| {
        l.st();
        let s = tod_str(t);
        for p in 0..=6usize {
            let r = round_prec(t, p) as i64;
            l.tr(1);
            ctx.check(l, &time_parse(&s, p as i32, YMD), &Out::Ok(r), || vec![st!["time.parse", s, p, "YMD"]]);
        }
    };
    let tsec: Vec<i64> = (0..86_400).step_by(ctx.pick(601, 61)).chain([86_399, 43_199, 59, 3599]).collect();
    let dims = [tsec.len() as u64, fr.len() as u64];
    ctx.par(product(dims), 128, |l, i| {
        let [a, b] = digits(i, dims);
        time_one(l, tsec[a] * US + fr[b]);
    });
    ctx.seq(|l| time_one(l, DAY_US));
    ctx.par(1_000_000 / all, 1024, |l, i| {
        let f = (i * all) as i64;
        time_one(l, 86_399 * US + f);
        ts_one(l, -US + f);
        ts_one(l, days(-44, 3, 15) * DAY_US + f);
        iv_prec(ctx, l, (0, 0, f));
        iv_prec(ctx, l, (0, 0, -f));
    });
    // precisions that do not exist
    ctx.bound("precisions -2..-20, 7..20 and i32 extremes are rejected for timestamps; precision 7..65534 for intervals");
    ctx.seq(|l| {
        for p in (7..=20).chain([100, 65_535, 65_536, i32::MAX]).chain(-20..=-2).chain([i32::MIN]) {
            l.st();
            for s in ["2000-01-01 00:00:00.5", "1999-12-31 23:59:59.999999", "0044-03-15 12:00:00 BC"] {
                l.tr(1);
                ctx.check(l, &ts_parse(s, p, YMD), &Out::Err, || vec![st!["ts.parse", s, p, "YMD"]]);
            }
        }
    });
    ctx.bound("the same precisions have no effect on 12 times");
    ctx.seq(|l| {
        let times: [i64; 12] = [
            0,
            1,
            499_999,
            500_000,
            999_999,
            59_999_999,
            3_599_999_999,
            47_096_789_012,
            43_200 * US - 1,
            86_399 * US + 123_456,
            DAY_US - 1,
            DAY_US,
        ];
        for p in (7..=20).chain([100, 65_535, 65_536, i32::MAX]).chain(-20..=-1).chain([i32::MIN]) {
            l.st();
            for t in times {
                l.tr(1);
                let s = tod_str(t);
                ctx.check(l, &time_parse(&s, p, YMD), &Out::Ok(t), || vec![st!["time.parse", s, p, "YMD"]]);
            }
        }
    });
    ctx.par(65_535 - 7, 64, |l, i| {
        let p = 7 + i as i32;
        l.st();
        l.tr(1);
        let tm = iv_typmod(0x7FFF, p);
        ctx.check(l, &iv_parse("1.5 seconds", tm, IntervalStyle::Postgres), &Out::Err, || vec![st!["iv.parse", "1.5 seconds", tm, "Postgres"]]);
    });
    // every field mask: the standard ones restrict, all others are rejected
    ctx.bound("all 32768 field masks x 3 intervals; the 14 standard masks x precisions x boundary intervals");
    ctx.par(0x8000, 64, |l, i| {
        let mask = i as i32;
        let known = RANGES.iter().find(|r| r.0 == mask);
        l.st();
        for v in [(14, 3, 14_706_789_012i64), (-14, -3, -14_706_789_012), (0, 0, 0)] {
            let text = match iv_format(v, IntervalStyle::Postgres) {
                Out::Ok(t) => t,
                g => {
                    ctx.fail(vec![st!["iv.format", v.0, v.1, v.2, "Postgres"]], "a text", g.show());
                    continue;
                }
            };
            let tm = iv_typmod(mask, 0xFFFF);
            let w = match known {
                Some(k) => Out::Ok(restrict(v, k.1)),
                None => Out::Err,
            };
            l.tr(1);
            ctx.check(l, &iv_parse(&text, tm, IntervalStyle::Postgres), &w, || vec![st!["iv.parse", text, tm, "Postgres"]]);
        }
    });
    let ms = [0, 1, -1, 11, 12, -12, 13, -25, 1200, i32::MAX, i32::MIN];
    let ds = [0, 1, -1, 30, i32::MAX, i32::MIN];
    let mut tv: Vec<i64> = i64s();
    for f in &fr {
        for b in [0, 59 * US, 3599 * US, 100 * HOUR_US] {
            tv.push(b + f);
            tv.push(-b - f);
        }
    }
    tv.retain(|t| hours_fit((0, 0, *t)));
    let tv = dedup(tv);
    let dims = [ms.len() as u64, ds.len() as u64, tv.len() as u64];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b, c] = digits(i, dims);
        iv_prec(ctx, l, (ms[a], ds[b], tv[c]));
    });
    crate::p_ref::ranges(ctx);
    for (s, p) in [("12:34:56.7891235", 3), ("23:59:59.9999999", 0), ("23:59:59.5", 0)] {
        ctx.sample(|| format!("time {s} precision {p} -> {:?}", time_parse(s, p, YMD)));
    }
}

fn iv_prec(ctx: &Ctx, l: &mut Loc, v: Iv) {
    l.st();
    // Postgres style carries every sign explicitly, so restrictions never change how it is read
    let text = match iv_format(v, IntervalStyle::Postgres) {
        Out::Ok(t) => t,
        g => {
            ctx.fail(vec![st!["iv.format", v.0, v.1, v.2, "Postgres"]], "a text", g.show());
            return;
        }
    };
    for (mask, keep) in RANGES {
        for p in [0xFFFF, 0, 1, 2, 3, 4, 5, 6] {
            let r = restrict(v, keep);
            let w = if p == 0xFFFF {
                Out::Ok(r)
            } else {
                match i64::try_from(round_prec(r.2, p as usize)) {
                    Ok(t) => Out::Ok((r.0, r.1, t)),
                    Err(_) => Out::Err,
                }
            };
            let tm = iv_typmod(mask, p);
            l.tr(1);
            ctx.check(l, &iv_parse(&text, tm, IntervalStyle::Postgres), &w, || vec![st!["iv.parse", text, tm, "Postgres"]]);
        }
    }
}
