//! C22 (serialisation), C25 (operation sequences), C27 (printed form of intervals).
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;
use crate::tokser::{self, Layout};
use std::collections::HashSet;
use std::sync::Mutex;

// ------------------------------------------------------------------ C27

/// The printed form of an interval, per style (PostgreSQL's documented output rules).
pub fn iv_text(v: Iv, st: IntervalStyle) -> String {
    let f: [i128; 7] = {
        let t = v.2 as i128;
        let h = HOUR_US as i128;
        let m = MIN_US as i128;
        let u = US as i128;
        [(v.0 / 12) as i128, (v.0 % 12) as i128, v.1 as i128, t / h, t % h / m, t % m / u, t % u]
    };
    let [y, mo, d, h, mi, s, us] = f;
    let neg = f.iter().any(|x| *x < 0);
    let pos = f.iter().any(|x| *x > 0);
    // |seconds| with the fraction, minimum width w
    let sec = |w: usize| -> String {
        let fr = if us == 0 { String::new() } else { format!(".{:06}", us.abs()).trim_end_matches('0').to_string() };
        format!("{:0w$}{fr}", s.abs(), w = w)
    };
    match st {
        IntervalStyle::Postgres => {
            let mut out: Vec<String> = vec![];
            let mut before = false;
            for (n, w) in [(y, "year"), (mo, "mon"), (d, "day")] {
                if n != 0 {
                    out.push(format!("{}{n} {w}{}", if before && n > 0 { "+" } else { "" }, if n == 1 { "" } else { "s" }));
                    before = n < 0;
                }
            }
            if out.is_empty() || v.2 != 0 {
                let sg = if v.2 < 0 {
                    "-"
                } else if before {
                    "+"
                } else {
                    ""
                };
                out.push(format!("{sg}{:02}:{:02}:{}", h.abs(), mi.abs(), sec(2)));
            }
            out.join(" ")
        }
        IntervalStyle::PostgresVerbose => {
            let lead_neg = f.iter().find(|x| **x != 0).map_or(false, |x| *x < 0);
            // the least i32 has no absolute value there: those intervals keep their signs
            let lead_neg = lead_neg && d != i32::MIN as i128 && h != i32::MIN as i128;
            let k = if lead_neg { -1 } else { 1 };
            let mut out = vec!["@".to_string()];
            for (n, w) in [(y, "year"), (mo, "mon"), (d, "day"), (h, "hour"), (mi, "min")] {
                if n != 0 {
                    out.push(format!("{} {w}{}", n * k, if n * k == 1 { "" } else { "s" }));
                }
            }
            if s != 0 || us != 0 {
                let sg = if (s < 0 || us < 0) != lead_neg { "-" } else { "" };
                out.push(format!("{sg}{} sec{}", sec(1), if s.abs() == 1 && us == 0 { "" } else { "s" }));
            }
            if out.len() == 1 {
                out.push("0".into());
            }
            if lead_neg {
                out.push("ago".into());
            }
            out.join(" ")
        }
        IntervalStyle::SQLStandard => {
            let ym = y != 0 || mo != 0;
            let dt = d != 0 || v.2 != 0;
            if !ym && !dt {
                return "0".into();
            }
            let least = d == i32::MIN as i128 || h == i32::MIN as i128;
            if (neg && pos) || (ym && dt) || least {
                let g = |n: bool| if n { '-' } else { '+' };
                return format!("{}{}-{} {}{} {}{}:{:02}:{}", g(v.0 < 0), y.abs(), mo.abs(), g(d < 0), d.abs(), g(v.2 < 0), h.abs(), mi.abs(), sec(2));
            }
            let sg = if neg { "-" } else { "" };
            if ym {
                format!("{sg}{}-{}", y.abs(), mo.abs())
            } else if d != 0 {
                format!("{sg}{} {}:{:02}:{}", d.abs(), h.abs(), mi.abs(), sec(2))
            } else {
                format!("{sg}{}:{:02}:{}", h.abs(), mi.abs(), sec(2))
            }
        }
        IntervalStyle::ISO8601 => {
            if !neg && !pos {
                return "PT0S".into();
            }
            let mut out = "P".to_string();
            for (n, c) in [(y, 'Y'), (mo, 'M'), (d, 'D')] {
                if n != 0 {
                    out += &format!("{n}{c}");
                }
            }
            if v.2 != 0 {
                out.push('T');
                for (n, c) in [(h, 'H'), (mi, 'M')] {
                    if n != 0 {
                        out += &format!("{n}{c}");
                    }
                }
                if s != 0 || us != 0 {
                    out += &format!("{}{}S", if s < 0 || us < 0 { "-" } else { "" }, sec(1));
                }
            }
            out
        }
    }
}

fn hours_fit(v: Iv) -> bool {
    i32::try_from(v.2 / HOUR_US).is_ok()
}

/// ... and read back (the reader takes hours up to 2^31 - 1 in size)
fn hours_read(v: Iv) -> bool {
    (v.2 / HOUR_US).abs() < (1 << 31)
}

fn c27_one(ctx: &Ctx, l: &mut Loc, v: Iv) {
    l.st();
    for s in ISTYLES {
        l.tr(1);
        let w = if hours_fit(v) { Out::Ok(iv_text(v, s)) } else { Out::Err };
        let g = iv_format(v, s);
        // beyond 31 bits of hours there is no documented form: an error or any text
        if !hours_fit(v) && !g.is_panic() {
            l.cmp();
            continue;
        }
        ctx.check(l, &g, &w, || vec![st!["iv.format", v.0, v.1, v.2, istyle_name(s)]]);
    }
}

pub fn c27(ctx: &Ctx) {
    let (m, t) = (i32s(), i64s());
    let d = if ctx.quick() { few_i32s() } else { i32s() };
    ctx.bound(format!("{} months x {} days x {} times x 4 styles, extremes included", m.len(), d.len(), t.len()));
    let dims = [m.len() as u64, d.len() as u64, t.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b, c] = digits(i, dims);
        c27_one(ctx, l, (m[a], d[b], t[c]));
    });
    ctx.bound("all signs and sizes: 10 hours x 6 minutes x 6 seconds x 12 fractions x 2 signs x 7 month parts x 5 day parts");
    let h = [0i64, 1, 2, 9, 10, 23, 24, 100, 2_147_483_646, 2_147_483_647];
    let ms = [0i64, 1, 2, 9, 10, 59];
    let fr = [0i64, 1, 10, 100, 120_000, 123_456, 500_000, 900_000, 999_999, 9, 90, 99_999];
    let mo = [0, 1, -1, 12, -12, 14, -14];
    let dd = [0, 1, -1, 30, -30];
    let dims = [10, 6, 6, 12, 2, 35];
    ctx.par(product(dims), 256, |l, i| {
        let [a, b, c, e, g, k] = digits(i, dims);
        let t = h[a] * HOUR_US + ms[b] * MIN_US + ms[c] * US + fr[e];
        c27_one(ctx, l, (mo[k % 7], dd[k / 7], if g == 0 { t } else { -t }));
    });
    if !ctx.quick() {
        let (r, rd) = ctx.pick3((0i64, 0i64), (200, 45), (2000, 200));
        ctx.bound(format!("all months -{r}..{r} x days -{rd}..{rd} x 9 times"));
        let ts = [0, 1, -1, 500_000, -US, MIN_US, -HOUR_US - 1, 25 * HOUR_US + 61 * US + 120, -DAY_US];
        let dims = [2 * r as u64 + 1, 2 * rd as u64 + 1, 9];
        ctx.par(product(dims), 512, |l, i| {
            let [a, b, c] = digits(i, dims);
            c27_one(ctx, l, ((a as i64 - r) as i32, (b as i64 - rd) as i32, ts[c]));
        });
    }
    ctx.bound("every fraction of a second of both signs, every second of two days of both signs, months -3000..3000");
    ctx.par(2_000_000, 2048, |l, i| {
        let f = i as i64 - 1_000_000;
        c27_one(ctx, l, (0, 0, f));
        if !ctx.quick() {
            c27_one(ctx, l, (-1, 1, f));
            c27_one(ctx, l, (1, 0, f - 61 * US));
        }
    });
    ctx.par(4 * 86_400, 2048, |l, i| c27_one(ctx, l, (0, 0, (i as i64 - 2 * 86_400) * US)));
    ctx.par(6001, 64, |l, i| {
        for (d, t) in [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (2, -US), (-2, US)] {
            c27_one(ctx, l, (i as i32 - 3000, d, t));
        }
    });
    ctx.bound("every month count -130000..130000 x 2 contexts, every day and hour count -20000..20000 x 2 contexts");
    ctx.par(260_001, 512, |l, i| {
        c27_one(ctx, l, (i as i32 - 130_000, 0, 0));
        c27_one(ctx, l, (i as i32 - 130_000, -1, US));
    });
    ctx.par(40_001, 512, |l, i| {
        let x = i as i32 - 20_000;
        for v in [(0, x, 0), (-13, x, 61 * US), (0, 0, x as i64 * HOUR_US), (0, 1, x as i64 * HOUR_US - 1)] {
            c27_one(ctx, l, v);
        }
    });
    for v in [(0, 0, 0), (14, -3, 14_706_789_000), (-1, 0, -1), (i32::MIN, i32::MIN, 1)] {
        ctx.sample(|| format!("{v:?} -> {:?}", ISTYLES.map(|s| iv_format(v, s))));
    }
}

// ------------------------------------------------------------------ C22

const LAYOUTS: [Layout; 3] = [Layout::Seq, Layout::Map, Layout::MapReversed];

/// JSON text of a value; binary bytes; self-describing tokens; and back.
macro_rules! serde_roundtrip {
    ($ctx:expr, $l:expr, $ty:ty, $val:expr, $name:expr, $raw:expr, $text:expr, $bytes:expr, $eq:expr) => {{
        let (ctx, l): (&Ctx, &mut Loc) = ($ctx, $l);
        let val: $ty = $val;
        let step = || vec![st!["serde", $name, $raw]];
        l.st();
        // human readable
        l.tr(3);
        let want = format!("\"{}\"", $text);
        let g = call(|| serde_json::to_string(&val));
        if ctx.check(l, &g, &Out::Ok(want.clone()), step) {
            let back = call(|| serde_json::from_str::<$ty>(&want));
            ctx.ensure(l, matches!(&back, Out::Ok(b) if $eq(b, &val)), step, || "the same value".into(), || format!("JSON {want} reads as {back:?}"));
            let back = call(|| serde_json::from_value::<$ty>(serde_json::Value::String($text.clone())));
            ctx.ensure(l, matches!(&back, Out::Ok(b) if $eq(b, &val)), step, || "the same value".into(), || format!("JSON value {want} reads as {back:?}"));
        }
        // binary
        l.tr(2);
        let wb: &[u8] = &$bytes;
        let g = call(|| bincode::serialize(&val));
        if ctx.check(l, &g, &Out::Ok(wb.to_vec()), step) {
            let back = call(|| bincode::deserialize::<$ty>(wb));
            ctx.ensure(l, matches!(&back, Out::Ok(b) if $eq(b, &val)), step, || "the same value".into(), || format!("bytes {wb:?} read as {back:?}"));
        }
        // self-describing binary
        for lay in LAYOUTS {
            for unsigned in [false, true] {
                l.tr(2);
                let back = call(|| tokser::to_tok(&val, lay, unsigned).and_then(tokser::from_tok::<$ty>));
                ctx.ensure(l, matches!(&back, Out::Ok(b) if $eq(b, &val)), step, || "the same value".into(), || format!("self-describing binary form ({lay:?}, unsigned {unsigned}) reads as {back:?}"));
            }
        }
    }};
}

fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn serde_date(ctx: &Ctx, l: &mut Loc, n: i32) {
    let text = if n == i32::MAX {
        "infinity".to_string()
    } else if n == i32::MIN {
        "-infinity".to_string()
    } else {
        let (y, m, d) = civil(n as i64);
        let mut s = String::new();
        crate::p_cal::date_text(&mut s, DateStyle::ISO, DateOrder::YMD, y, m, d);
        s
    };
    serde_roundtrip!(ctx, l, Date, mkd(n), "date", n, text, n.to_le_bytes(), same);
}
fn serde_ts(ctx: &Ctx, l: &mut Loc, n: i64) {
    let text = if n == i64::MAX {
        "infinity".to_string()
    } else if n == i64::MIN {
        "-infinity".to_string()
    } else {
        let mut s = String::new();
        crate::p_cal::ts_text(&mut s, DateStyle::ISO, DateOrder::YMD, n);
        s
    };
    serde_roundtrip!(ctx, l, Timestamp, mkts(n), "ts", n, text, n.to_le_bytes(), same);
}
fn serde_time(ctx: &Ctx, l: &mut Loc, n: i64) {
    let text = tod_str(n);
    serde_roundtrip!(ctx, l, Time, mkt(n), "time", n, text, n.to_le_bytes(), same);
}
fn serde_iv(ctx: &Ctx, l: &mut Loc, v: Iv) {
    let text = iv_text(v, IntervalStyle::SQLStandard);
    let mut b = vec![];
    b.extend(v.2.to_le_bytes());
    b.extend(v.1.to_le_bytes());
    b.extend(v.0.to_le_bytes());
    serde_roundtrip!(ctx, l, Interval, mkiv(v), "iv", format!("{v:?}"), text, b, |a: &Interval, b: &Interval| parts(*a) == parts(*b));
}

const IVTEXTS: [&str; 24] = [
    "1-2", "-1-2", "1-2 3 4:05:06", "-1-2 3 4:05:06", "-1-2 -3 -4:05:06", "+1-2 -3 +4:05:06", "-3 4:05:06", "3 -4:05:06", "-3 days 4:05:06", "-1 day 2 hours",
    "-1 year 2 mons 3 days", "P1Y2M3DT4H5M6.7S", "P-1Y2M", "P0001-02-03T04:05:06", "1 day ago", "@ 1 day 2 hours ago", "1.5 months", "-1.5 months 3 days", "4", "-4",
    "4:05", "-4:05:06.789012", "1 week -2", "0.0000005 seconds",
];

pub fn c22(ctx: &Ctx) {
    let mut dd: Vec<i64> = key_days(ctx, false);
    dd.extend([i32::MIN as i64, i32::MAX as i64]);
    let dd = dedup(dd);
    ctx.bound(format!("{} boundary dates with both infinities, and every date of {}", dd.len(), ctx.pick3("years -4713..4000", "years -4713..40000", "years -4713..294276")));
    ctx.par(dd.len() as u64, 64, |l, i| serde_date(ctx, l, dd[i as usize] as i32));
    let last = days(ctx.pick3(4001, 40_001, 294_277), 1, 1);
    ctx.par((last - DATE_MIN) as u64, 1024, |l, i| serde_date(ctx, l, (DATE_MIN + i as i64) as i32));
    let td = tods(ctx);
    ctx.bound(format!("{} times, every second of the day, 24:00:00, every {}th microsecond of a second", td.len(), ctx.pick(7, 1)));
    ctx.par(td.len() as u64, 64, |l, i| serde_time(ctx, l, td[i as usize]));
    ctx.par(86_401, 256, |l, i| serde_time(ctx, l, i as i64 * US));
    let fs = ctx.pick(7u64, 1);
    ctx.par(US as u64 / fs, 1024, |l, i| serde_time(ctx, l, DAY_US - US + (i * fs) as i64));
    let kd = few_days(true);
    ctx.bound(format!("timestamps: {} days x {} times of day, both infinities and both ends", kd.len(), td.len()));
    let dims = [kd.len() as u64, td.len() as u64];
    ctx.par(product(dims), 64, |l, i| {
        let [a, b] = digits(i, dims);
        serde_ts(ctx, l, kd[a] * DAY_US + td[b]);
    });
    ctx.seq(|l| {
        for t in [i64::MIN, i64::MAX, TS_MIN, TS_END - 1, -1, 0, 1] {
            serde_ts(ctx, l, t);
        }
    });
    let kd = key_days(ctx, true);
    ctx.par(kd.len() as u64, 64, |l, i| serde_ts(ctx, l, kd[i as usize] * DAY_US + i as i64 * 12_345_678 % DAY_US));
    let (m, d, t) = (few_i32s(), few_i32s(), i64s());
    ctx.bound(format!("intervals: {} months x {} days x {} times", m.len(), d.len(), t.len()));
    let dims = [m.len() as u64, d.len() as u64, t.len() as u64];
    ctx.par(product(dims), 128, |l, i| {
        let [a, b, c] = digits(i, dims);
        if hours_read((0, 0, t[c])) {
            serde_iv(ctx, l, (m[a], d[b], t[c]));
        }
    });
    ctx.par(61 * 61 * 27, 64, |l, i| {
        let [a, b, c] = digits(i, [61, 61, 27]);
        let t = [0i64, 1, 500_000, US, 61 * US, HOUR_US, 25 * HOUR_US + 1, DAY_US, 400 * HOUR_US][c / 3];
        serde_iv(ctx, l, (a as i32 - 30, b as i32 - 30, t * [0, 1, -1][c % 3]));
    });
    // the order and style the text is read under
    let mut texts: Vec<String> = vec![];
    for (y, m, d) in [(1999, 1, 8), (2001, 2, 3), (1, 2, 3), (12, 11, 10), (2020, 2, 29), (31, 12, 11), (2020, 12, 31), (99, 5, 6), (2000, 13, 1), (70, 1, 2)] {
        let n = ["January", "May", "Dec"][d as usize % 3];
        for (a, b, c) in [(y, m, d), (y, d, m), (d, m, y), (m, d, y), (d, y, m), (m, y, d), (y % 100, m, d), (d, m, y % 100), (m, d, y % 100)] {
            for sep in ["-", "/", ".", " "] {
                texts.push(format!("{a:02}{sep}{b:02}{sep}{c:02}"));
                texts.push(format!("{a:02}{sep}{n}{sep}{c:02}"));
                texts.push(format!("{n}{sep}{b:02}{sep}{c:02}"));
            }
            texts.push(format!("{a:02}{b:02}{c:02}"));
            texts.push(format!("{n} {b}, {c} BC"));
        }
        texts.push(format!("{y:04}.{d:03}"));
        texts.push(format!("{y:04}{m:02}{d:02}T010203"));
    }
    texts.sort();
    texts.dedup();
    ctx.bound(format!("{} notations of dates alone and with a time, {} of intervals: the text means what it means to the parser under year-month-day order and the SQL-standard style, at full precision", texts.len(), IVTEXTS.len()));
    ctx.par(texts.len() as u64, 16, |l, i| {
        for tail in ["", " 04:05:06.789012", " 4:05 pm", "T23:59:59.9999996"] {
            let s = format!("{}{tail}", texts[i as usize]);
            l.st();
            l.tr(6);
            let v = || serde_json::Value::String(s.clone());
            ctx.check(l, &call(|| serde_json::from_value::<Date>(v())).map(rd), &date_parse(&s, DateOrder::YMD), || vec![st!["date.parse", s, "YMD"]]);
            ctx.check(l, &call(|| serde_json::from_value::<Timestamp>(v())).map(rts), &ts_parse(&s, -1, DateOrder::YMD), || vec![st!["ts.parse", s, -1, "YMD"]]);
            ctx.check(l, &call(|| serde_json::from_value::<Time>(v())).map(rt), &time_parse(&s, -1, DateOrder::YMD), || vec![st!["time.parse", s, -1, "YMD"]]);
        }
    });
    ctx.seq(|l| {
        for s in IVTEXTS {
            l.st();
            l.tr(2);
            let g = call(|| serde_json::from_value::<Interval>(serde_json::Value::String(s.to_string()))).map(parts);
            ctx.check(l, &g, &iv_parse(s, -1, IntervalStyle::SQLStandard), || vec![st!["iv.parse", s, -1, "SQLStandard"]]);
        }
    });
    // malformed input
    ctx.bound("malformed input: wrong JSON types, every short garbage text, truncated bytes, missing, repeated, unknown and mistyped fields");
    ctx.seq(|l| {
        let jsons = [
            "null", "true", "1", "-1", "1.5", "[]", "[1,2,3]", "{}", "{\"time\":1,\"day\":2,\"month\":3}", "\"\"", "\"x\"", "\"5874898-01-01\"", "\"2001-02-30\"", "\"25:00:00\"",
            "\"1999-01-08", "\"294277-01-01 00:00:00\"", "\"1 year 1 year\"", "\"P\"", "\"-\"", "\"24:00:00.000001\"", "\"\\u0000\"", "\"4714-01-01 BC\"",
        ];
        for j in jsons {
            l.st();
            l.tr(4);
            let date_ok = j == "\"1999-01-08\"";
            let g = [
                ("date", call(|| serde_json::from_str::<Date>(j)).map(|_| ())),
                ("time", call(|| serde_json::from_str::<Time>(j)).map(|_| ())),
                ("ts", call(|| serde_json::from_str::<Timestamp>(j)).map(|_| ())),
                ("iv", call(|| serde_json::from_str::<Interval>(j)).map(|_| ())),
            ];
            for (n, r) in g {
                let valid = date_ok
                    || n == "iv" && (j == "\"25:00:00\"" || j == "\"24:00:00.000001\"" || j == "\"2001-02-30\"")
                    || (n == "date" || n == "time") && j == "\"294277-01-01 00:00:00\"";
                if valid {
                    continue;
                }
                ctx.check(l, &r, &Out::Err, || vec![st!["serde.json", n, j]]);
            }
        }
        for n in 0..16usize {
            let b = vec![1u8; n];
            l.st();
            l.tr(4);
            let g = [
                ("date", 4, call(|| bincode::deserialize::<Date>(&b)).map(|_| ())),
                ("time", 8, call(|| bincode::deserialize::<Time>(&b)).map(|_| ())),
                ("ts", 8, call(|| bincode::deserialize::<Timestamp>(&b)).map(|_| ())),
                ("iv", 16, call(|| bincode::deserialize::<Interval>(&b)).map(|_| ())),
            ];
            for (t, need, r) in g {
                if n < need {
                    ctx.check(l, &r, &Out::Err, || vec![st!["serde.bytes", t, n]]);
                } else {
                    ctx.ensure(l, !r.is_panic(), || vec![st!["serde.bytes", t, n]], || "no panic".into(), || r.show());
                }
            }
        }
        // interval fields: every sequence of up to 4 entries over the three names and a wrong one
        let names = ["time", "day", "month", "year"];
        for k in 0..=4u32 {
            for i in 0..4usize.pow(k) {
                let mut x = i;
                let keys: Vec<usize> = (0..k)
                    .map(|_| {
                        let j = x % 4;
                        x /= 4;
                        j
                    })
                    .collect();
                for bad in 0..=keys.len() {
                    l.st();
                    l.tr(1);
                    let vals: Vec<i64> = (0..keys.len()).map(|j| 100 + j as i64).collect();
                    let g = call(|| tokser::from_map::<Interval>(&keys.iter().map(|j| names[*j]).collect::<Vec<_>>(), &vals, if bad < keys.len() { Some(bad) } else { None })).map(parts);
                    let mut s = keys.clone();
                    s.sort();
                    let want = if s == [0, 1, 2] && bad == keys.len() {
                        let at = |n: usize| vals[keys.iter().position(|j| *j == n).unwrap()];
                        Out::Ok((at(2) as i32, at(1) as i32, at(0)))
                    } else {
                        Out::Err
                    };
                    ctx.check(l, &g, &want, || vec![st!["serde.fields", format!("{keys:?}"), format!("wrong type at {bad}")]]);
                }
                for n in 0..6usize {
                    l.tr(1);
                    let g = call(|| tokser::from_seq::<Interval>(&[7, 8, 9, 10, 11][..n.min(5)])).map(parts);
                    let want_err = n < 3;
                    ctx.ensure(l, if want_err { g == Out::Err } else { !g.is_panic() }, || vec![st!["serde.seq", n]], || "an error".into(), || g.show());
                }
            }
        }
        // integers that do not fit
        for v in [i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN] {
            l.st();
            l.tr(2);
            let g = call(|| tokser::from_tok::<Date>(tokser::Tok::I(v))).map(rd);
            ctx.check(l, &g, &Out::Err, || vec![st!["serde.int", "date", v]]);
            let g = call(|| tokser::from_map::<Interval>(&["time", "day", "month"], &[0, v, 0], None)).map(parts);
            ctx.check(l, &g, &Out::Err, || vec![st!["serde.int", "iv.day", v]]);
            let g = call(|| tokser::from_map::<Interval>(&["time", "day", "month"], &[0, 0, v], None)).map(parts);
            ctx.check(l, &g, &Out::Err, || vec![st!["serde.int", "iv.month", v]]);
        }
        for v in [1u64 << 63, u64::MAX] {
            l.st();
            let g = call(|| tokser::from_tok::<Timestamp>(tokser::Tok::U(v))).map(rts);
            ctx.check(l, &g, &Out::Err, || vec![st!["serde.int", "ts", v]]);
            let g = call(|| tokser::from_tok::<Time>(tokser::Tok::U(v))).map(rt);
            ctx.check(l, &g, &Out::Err, || vec![st!["serde.int", "time", v]]);
        }
        for t in [tokser::Tok::Bool(true), tokser::Tok::F(1.0), tokser::Tok::Str("x"), tokser::Tok::Seq(vec![]), tokser::Tok::Unit] {
            l.st();
            l.tr(4);
            let g = [
                call(|| tokser::from_tok::<Date>(t.clone())).map(|_| ()),
                call(|| tokser::from_tok::<Time>(t.clone())).map(|_| ()),
                call(|| tokser::from_tok::<Timestamp>(t.clone())).map(|_| ()),
                call(|| tokser::from_tok::<Interval>(t.clone())).map(|_| ()),
            ];
            for r in g {
                ctx.check(l, &r, &Out::Err, || vec![st!["serde.token", format!("{t:?}")]]);
            }
        }
    });
    ctx.assume("binary input holding a raw number outside a type's range is taken as it is, like the public From conversions; it is not malformed");
    for n in [0, i32::MAX, -2_451_545] {
        ctx.sample(|| format!("date {n} -> {:?}", call(|| serde_json::to_string(&mkd(n)))));
    }
    ctx.sample(|| format!("iv (14,-3,1us) -> {:?}", call(|| serde_json::to_string(&mkiv((14, -3, 1))))));
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum V {
    D(i32),
    T(i64),
    S(i64),
    I(Iv),
    /// a plain number (the difference of two dates): terminal
    N(i64),
}

fn valid(v: V) -> bool {
    match v {
        V::D(n) => n == i32::MIN || n == i32::MAX || date_ok(n as i64),
        V::T(t) => (0..=DAY_US).contains(&t),
        V::S(t) => t == i64::MIN || t == i64::MAX || ts_ok(t as i128),
        V::I(_) | V::N(_) => true,
    }
}

/// What the reference says: a value, an error, or (where the property leaves it open) either this
/// value or an error.
#[derive(PartialEq, Debug)]
enum W {
    Val(V),
    Err,
    Opt(V),
    /// any valid value with this property of the result
    ValidOrErr,
}

fn w(v: Option<V>) -> W {
    match v {
        Some(v) => W::Val(v),
        None => W::Err,
    }
}

fn dts(d: i32) -> Option<i64> {
    match d {
        i32::MAX => Some(i64::MAX),
        i32::MIN => Some(i64::MIN),
        d => {
            let t = d as i128 * DAY_US as i128;
            if ts_ok(t) {
                Some(t as i64)
            } else {
                None
            }
        }
    }
}
fn ts_inf(t: i64) -> bool {
    t == i64::MIN || t == i64::MAX
}
fn ts_add_ref(t: i64, v: Iv) -> Option<i64> {
    if ts_inf(t) {
        Some(t)
    } else {
        r_ts_add(t, v)
    }
}
fn ts_sub_ref(t: i64, v: Iv) -> Option<i64> {
    let n = r_iv_neg(v)?;
    ts_add_ref(t, n)
}

type Edge = (Step, Out<V>, W);

struct Ops {
    ivs: Vec<Iv>,
    days: Vec<i32>,
    times: Vec<i64>,
    tss: Vec<i64>,
    units: Vec<&'static str>,
    facts: Vec<i32>,
    styles: Vec<(DateStyle, DateOrder)>,
}

/// Every operation that applies to a value, with operands from the sets, executed on the real code
/// next to what the reference predicts.
fn edges(v: V, p: &Ops, out: &mut Vec<Edge>) {
    out.clear();
    match v {
        V::D(d) => {
            let inf = d == i32::MIN || d == i32::MAX;
            for &n in &p.days {
                let r = |x: i64| if inf { W::Val(V::D(d)) } else { w(Some(x).filter(|x| date_ok(*x)).map(|x| V::D(x as i32))) };
                out.push((st!["date.add_days", d, n], date_add_days(d, n).map(V::D), r(d as i64 + n as i64)));
                out.push((st!["date.sub_days", d, n], date_sub_days(d, n).map(V::D), r(d as i64 - n as i64)));
            }
            let dt = dts(d);
            for &i in &p.ivs {
                out.push((st!["date.add_iv", d, i.0, i.1, i.2], date_add_iv(d, i).map(V::S), w(dt.and_then(|t| ts_add_ref(t, i)).map(V::S))));
                out.push((st!["date.sub_iv", d, i.0, i.1, i.2], date_sub_iv(d, i).map(V::S), w(dt.and_then(|t| ts_sub_ref(t, i)).map(V::S))));
            }
            for &t in &p.times {
                let r = if inf { dt } else { dt.map(|x| x as i128 + t as i128).filter(|x| ts_ok(*x)).map(|x| x as i64) };
                out.push((st!["date.add_time", d, t], date_add_time(d, t).map(V::S), w(r.map(V::S))));
            }
            out.push((st!["date.to_ts", d], date_to_ts(d).map(V::S), w(dt.map(V::S))));
            for &b in &p.days {
                if !date_ok(b as i64) {
                    continue;
                }
                let r = if inf { W::Err } else { w(Some(V::N(d as i64 - b as i64))) };
                out.push((st!["date.sub_date", d, b], date_sub_date(d, b).map(|x| V::N(x as i64)), r));
            }
            for &u in &p.units {
                let r = match dt {
                    None => W::ValidOrErr, // beyond the timestamp range
                    Some(_) if inf => W::Val(V::D(d)),
                    Some(t) => w(r_ts_trunc(u, t).map(|x| V::D(x.div_euclid(DAY_US) as i32))),
                };
                out.push((st!["date.trunc", d, false, u], date_trunc(d, false, unit(u)).map(V::D), r));
            }
            for &(s, o) in &p.styles {
                let g = match date_format(d, s, o) {
                    Out::Ok(t) => date_parse(&t, o),
                    Out::Err => Out::Err,
                    Out::Panic(p) => Out::Panic(p),
                };
                out.push((st!["date.format", d, style_name(s), order_name(o)], g.map(V::D), W::Val(v)));
            }
        }
        V::T(t) => {
            for &i in &p.ivs {
                out.push((st!["time.add", t, i.0, i.1, i.2], time_add(t, i).map(V::T), W::Val(V::T(time_mod(t as i128 + i.2 as i128)))));
                out.push((st!["time.sub", t, i.0, i.1, i.2], time_sub(t, i).map(V::T), W::Val(V::T(time_mod(t as i128 - i.2 as i128)))));
            }
            for &b in &p.times {
                out.push((st!["time.sub_time", t, b], time_sub_time(t, b).map(V::I), W::Val(V::I((0, 0, t - b)))));
            }
            out.push((st!["time.to_iv", t], time_to_iv(t).map(V::I), W::Val(V::I((0, 0, t)))));
            for &u in &p.units {
                let r = if u == "week" { W::Err } else { W::Val(V::T(time_mod(r_iv_trunc(u, (0, 0, t)).2 as i128))) };
                out.push((st!["time.trunc", t, false, u], time_trunc(t, false, unit(u)).map(V::T), r));
            }
            for k in 0..=6usize {
                let g = match time_format(t, DateStyle::ISO) {
                    Out::Ok(s) => time_parse(&s, k as i32, DateOrder::YMD),
                    Out::Err => Out::Err,
                    Out::Panic(p) => Out::Panic(p),
                };
                out.push((st!["time.format", t, "ISO"], g.map(V::T), W::Val(V::T(round_prec(t, k) as i64))));
            }
        }
        V::S(t) => {
            let inf = ts_inf(t);
            for &i in &p.ivs {
                out.push((st!["ts.add", t, i.0, i.1, i.2], ts_add(t, i).map(V::S), w(ts_add_ref(t, i).map(V::S))));
                out.push((st!["ts.sub", t, i.0, i.1, i.2], ts_sub(t, i).map(V::S), w(ts_sub_ref(t, i).map(V::S))));
            }
            for &x in &p.times {
                out.push((st!["ts.add_time", t, x], ts_add_time(t, x).map(V::S), w(ts_add_ref(t, (0, 0, x)).map(V::S))));
                out.push((st!["ts.sub_time", t, x], ts_sub_time(t, x).map(V::S), w(ts_add_ref(t, (0, 0, -x)).map(V::S))));
            }
            for &x in &p.tss {
                let e = inf || ts_inf(x);
                out.push((st!["ts.diff", t, x], ts_diff(t, x).map(V::I), if e { W::Err } else { w(r_ts_diff(t, x).map(V::I)) }));
                out.push((st!["ts.age", t, x], ts_age(t, x).map(V::I), if e { W::Err } else { w(Some(V::I(r_ts_age(t, x)))) }));
            }
            for &u in &p.units {
                out.push((st!["ts.trunc", t, false, u], ts_trunc(t, false, unit(u)).map(V::S), if inf { W::Val(v) } else { w(r_ts_trunc(u, t).map(V::S)) }));
            }
            let d = match t {
                i64::MAX => i32::MAX,
                i64::MIN => i32::MIN,
                t => t.div_euclid(DAY_US) as i32,
            };
            out.push((st!["ts.to_date", t], ts_to_date(t).map(V::D), W::Val(V::D(d))));
            if !inf {
                let g = match ts_to_time(t) {
                    Out::Ok(Some(x)) => Out::Ok(V::T(x)),
                    Out::Ok(None) | Out::Err => Out::Err,
                    Out::Panic(p) => Out::Panic(p),
                };
                out.push((st!["ts.to_time", t], g, W::Val(V::T(t.rem_euclid(DAY_US)))));
            }
            for (k, &(s, o)) in p.styles.iter().enumerate() {
                let g = match ts_format(t, s, o) {
                    Out::Ok(x) => ts_parse(&x, k as i32 % 8 - 1, o),
                    Out::Err => Out::Err,
                    Out::Panic(p) => Out::Panic(p),
                };
                let r = if inf || k % 8 == 0 {
                    W::Val(v)
                } else {
                    w(Some(round_prec(t, k % 8 - 1)).filter(|x| ts_ok(*x)).map(|x| V::S(x as i64)))
                };
                out.push((st!["ts.format", t, style_name(s), order_name(o)], g.map(V::S), r));
            }
        }
        V::I(a) => {
            for &b in &p.ivs {
                out.push((st!["iv.add", a.0, a.1, a.2, b.0, b.1, b.2], iv_add(a, b).map(V::I), w(r_iv_add(a, b).map(V::I))));
                out.push((st!["iv.sub", a.0, a.1, a.2, b.0, b.1, b.2], iv_sub(a, b).map(V::I), w(r_iv_sub(a, b).map(V::I))));
                out.push((st!["iv.sub", b.0, b.1, b.2, a.0, a.1, a.2], iv_sub(b, a).map(V::I), w(r_iv_sub(b, a).map(V::I))));
            }
            out.push((st!["iv.neg", a.0, a.1, a.2], iv_neg(a).map(V::I), w(r_iv_neg(a).map(V::I))));
            for &k in &p.facts {
                let r = iv_mk(a.0 as i128 * k as i128, a.1 as i128 * k as i128, a.2 as i128 * k as i128);
                // whole factors are exact while the microseconds are exact in binary64
                let exact = a.2.unsigned_abs() < 1 << 53 && (a.2 as i128 * k as i128).unsigned_abs() < 1 << 53;
                let r = match r {
                    _ if !exact => W::ValidOrErr,
                    Some(x) if x.0 == i32::MIN || x.1 == i32::MIN => W::Opt(V::I(x)),
                    x => w(x.map(V::I)),
                };
                out.push((st!["iv.mul", a.0, a.1, a.2, k], iv_mul(a, k as f64).map(V::I), r));
            }
            let x = if a.1 as i128 * 0 == 0 { r_justify_hours(a) } else { None };
            out.push((st!["iv.justify_hours", a.0, a.1, a.2], iv_jh(a).map(V::I), x.map_or(W::ValidOrErr, |x| W::Val(V::I(x)))));
            out.push((st!["iv.justify_days", a.0, a.1, a.2], iv_jd(a).map(V::I), r_justify_days(a).map_or(W::ValidOrErr, |x| W::Val(V::I(x)))));
            let tot = iv_total(a);
            let day = DAY_US as i128;
            let ji = iv_mk(tot / (30 * day), tot % (30 * day) / day, tot % day);
            out.push((st!["iv.justify_interval", a.0, a.1, a.2], iv_ji(a).map(V::I), ji.map_or(W::ValidOrErr, |x| W::Val(V::I(x)))));
            for &u in &p.units {
                let r = if u == "week" || !hours_fit(a) { W::Err } else { W::Val(V::I(r_iv_trunc(u, a))) };
                out.push((st!["iv.trunc", a.0, a.1, a.2, false, u], iv_trunc(a, false, unit(u)).map(V::I), r));
            }
            for s in ISTYLES {
                let g = match iv_format(a, s) {
                    Out::Ok(x) => iv_parse(&x, -1, s),
                    Out::Err => Out::Err,
                    Out::Panic(p) => Out::Panic(p),
                };
                out.push((st!["iv.format", a.0, a.1, a.2, istyle_name(s)], g.map(V::I), if hours_read(a) { W::Val(v) } else { W::ValidOrErr }));
            }
            out.push((st!["iv.to_time", a.0, a.1, a.2], iv_to_time(a).map(V::T), W::Val(V::T(time_mod(a.2 as i128)))));
            for &t in &p.times {
                out.push((st!["time.add", t, a.0, a.1, a.2], time_add(t, a).map(V::T), W::Val(V::T(time_mod(t as i128 + a.2 as i128)))));
            }
            for &t in &p.tss {
                out.push((st!["ts.add", t, a.0, a.1, a.2], ts_add(t, a).map(V::S), w(ts_add_ref(t, a).map(V::S))));
                out.push((st!["ts.sub", t, a.0, a.1, a.2], ts_sub(t, a).map(V::S), w(ts_sub_ref(t, a).map(V::S))));
            }
        }
        V::N(_) => {}
    }
}

pub fn c25(ctx: &Ctx) {
    let ops = Ops {
        ivs: vec![
            (0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (13, -2, 3 * HOUR_US), (-1200, 40, -25 * HOUR_US), (0, 0, DAY_US), (i32::MAX, 0, 0), (0, i32::MIN, 0),
            (0, 0, i64::MIN), (3_000_000, 0, 0),
        ],
        days: vec![0, 1, -1, 29, -365, 146_097, 2_451_545, i32::MAX, i32::MIN],
        times: vec![0, 1, 43_200_000_000, DAY_US - 1, DAY_US],
        tss: vec![TS_MIN, TS_END - 1, -1, 0, days(2000, 2, 29) * DAY_US + 12 * HOUR_US, i64::MAX],
        units: TRUNC_UNITS.to_vec(),
        facts: vec![-1, 0, 2, 1000],
        styles: {
            let mut v = vec![];
            for o in ORDERS {
                for s in STYLES {
                    // SQL and XSD text of dates depend on the order only as far as C02 checks it
                    if s == DateStyle::ISO || s == DateStyle::SQL || s == DateStyle::Postgres || s == DateStyle::German {
                        if o == DateOrder::YMD && s != DateStyle::ISO || s == DateStyle::German && o != DateOrder::DMY {
                            continue;
                        }
                        v.push((s, o));
                    }
                }
            }
            v
        },
    };
    let mut start: Vec<V> = vec![];
    for n in [DATE_MIN, DATE_MIN + 1, days(0, 2, 29), days(1, 1, 1), -1, 0, days(2000, 1, 31), days(1999, 12, 31), TS_DAY_END - 1, TS_DAY_END, DATE_END - 1, i32::MAX as i64, i32::MIN as i64] {
        start.push(V::D(n as i32));
    }
    for t in [0, 1, 43_199_999_999, DAY_US - 1, DAY_US] {
        start.push(V::T(t));
    }
    for t in [TS_MIN, TS_MIN + 1, -1, 0, days(2000, 2, 29) * DAY_US + 86_399_999_999, days(-4, 1, 31) * DAY_US + 1, days(1970, 1, 1) * DAY_US, TS_END - 1, i64::MAX, i64::MIN] {
        start.push(V::S(t));
    }
    for i in [(0, 0, 0), (1, -1, 1), (-14, 33, -90_061_000_001), (i32::MAX, i32::MAX, i64::MAX), (i32::MIN, i32::MIN, i64::MIN), (0, 0, HOUR_US * 2_147_483_647)] {
        start.push(V::I(i));
    }
    let depth = ctx.pick3(3, 4, 5);
    let cap = 60_000_000usize;
    ctx.bound(format!(
        "breadth first from {} start values, {} intervals, {} day counts, {} times, {} timestamps, 13 units, 4 factors, {} notations as operands: every operation sequence of length {depth} (states deduplicated; the last level is executed, its states are not expanded)",
        start.len(), ops.ivs.len(), ops.days.len(), ops.times.len(), ops.tss.len(), ops.styles.len()
    ));
    let mut seen: HashSet<V> = start.iter().copied().collect();
    let mut frontier = start;
    for level in 0..depth {
        let found: Vec<Mutex<HashSet<V>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let last = level + 1 == depth;
        {
            let (seen, frontier, found, ops) = (&seen, &frontier, &found, &ops);
            ctx.par_chunks(frontier.len() as u64, 64, |l, a, b| {
                let mut es = vec![];
                let mut fresh: HashSet<V> = HashSet::new();
                for i in a..b {
                    let v = frontier[i as usize];
                    l.st();
                    edges(v, ops, &mut es);
                    l.tr(es.len() as u64);
                    for (step, got, want) in es.drain(..) {
                        l.cmp();
                        let ok = match (&got, &want) {
                            (Out::Ok(g), W::Val(x)) => g == x,
                            (Out::Ok(g), W::Opt(x)) => g == x,
                            (Out::Ok(g), W::ValidOrErr) => valid(*g),
                            (Out::Err, W::Err) | (Out::Err, W::Opt(_)) | (Out::Err, W::ValidOrErr) => true,
                            _ => false,
                        };
                        if !ok {
                            ctx.fail(vec![step], format!("{want:?}"), got.show());
                        } else if let Out::Ok(g) = got {
                            if !last && !matches!(g, V::N(_)) && !seen.contains(&g) {
                                fresh.insert(g);
                            }
                        }
                    }
                }
                for v in fresh {
                    use std::hash::{BuildHasher, Hash, Hasher};
                    let mut h = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().build_hasher();
                    v.hash(&mut h);
                    found[(h.finish() % 64) as usize].lock().unwrap().insert(v);
                }
            });
        }
        let mut next: Vec<V> = found.into_iter().flat_map(|m| m.into_inner().unwrap()).collect();
        next.sort();
        ctx.sample(|| format!("level {level}: {} states expanded, {} new", frontier.len(), next.len()));
        if seen.len() + next.len() > cap {
            panic!("state space larger than planned");
        }
        seen.extend(next.iter().copied());
        frontier = next;
    }
    ctx.assume("justifying and scaling by whole factors are compared exactly where the result is representable; scaling by fractions is C16's subject");
}
