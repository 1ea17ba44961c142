//! C06 (any text ends in a value in range or an error) and C07 (results do not depend on earlier
//! calls, other threads or leftover memory).
use crate::api::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;
use std::sync::mpsc;

// ------------------------------------------------------------------ C06

fn date_in_range(r: i32) -> bool {
    r == i32::MIN || r == i32::MAX || date_ok(r as i64)
}
fn ts_in_range(r: i64) -> bool {
    r == i64::MIN || r == i64::MAX || ts_ok(r as i128)
}

/// How much of the reader configurations to run.
#[derive(Clone, Copy, PartialEq)]
enum Width {
    /// every reader once per configuration that changes the parse
    Base,
    /// also precisions and field restrictions
    Wide,
}

const TMODS: [i32; 2] = [0, 6];

/// Reads one text with every reader.
fn read_all(ctx: &Ctx, l: &mut Loc, text: &str, w: Width) {
    l.st();
    for o in ORDERS {
        l.tr(3);
        l.compared += 3;
        match date_parse(text, o) {
            Out::Err => {}
            Out::Ok(r) if date_in_range(r) => {
                l.class("date accepted");
                l.tr(1);
                let f = date_format(r, DateStyle::ISO, o);
                if !matches!(f, Out::Ok(_)) {
                    ctx.fail(vec![st!["date.parse", text, order_name(o)], st!["date.format", r, "ISO", order_name(o)]], "a text", f.show());
                }
            }
            g => ctx.fail(vec![st!["date.parse", text, order_name(o)]], "a date in range or an error", g.show()),
        }
        match ts_parse(text, -1, o) {
            Out::Err => {}
            Out::Ok(r) if ts_in_range(r) => {
                l.class("timestamp accepted");
                l.tr(1);
                let f = ts_format(r, DateStyle::ISO, o);
                if !matches!(f, Out::Ok(_)) {
                    ctx.fail(vec![st!["ts.parse", text, -1, order_name(o)], st!["ts.format", r, "ISO", order_name(o)]], "a text", f.show());
                }
            }
            g => ctx.fail(vec![st!["ts.parse", text, -1, order_name(o)]], "a timestamp in range or an error", g.show()),
        }
        match time_parse(text, -1, o) {
            Out::Err => {}
            Out::Ok(r) if (0..=DAY_US).contains(&r) => {
                l.class("time accepted");
                l.tr(1);
                let f = time_format(r, DateStyle::ISO);
                if !matches!(f, Out::Ok(_)) {
                    ctx.fail(vec![st!["time.parse", text, -1, order_name(o)], st!["time.format", r, "ISO"]], "a text", f.show());
                }
            }
            g => ctx.fail(vec![st!["time.parse", text, -1, order_name(o)]], "a time between 00:00:00 and 24:00:00 or an error", g.show()),
        }
        if w == Width::Wide {
            for p in TMODS {
                l.tr(2);
                l.compared += 2;
                match ts_parse(text, p, o) {
                    Out::Err => {}
                    Out::Ok(r) if ts_in_range(r) => {}
                    g => ctx.fail(vec![st!["ts.parse", text, p, order_name(o)]], "a timestamp in range or an error", g.show()),
                }
                match time_parse(text, p, o) {
                    Out::Err => {}
                    Out::Ok(r) if (0..=DAY_US).contains(&r) => {}
                    g => ctx.fail(vec![st!["time.parse", text, p, order_name(o)]], "a time in range or an error", g.show()),
                }
            }
        }
    }
    for s in ISTYLES {
        l.tr(1);
        l.compared += 1;
        match iv_parse(text, -1, s) {
            Out::Err => {}
            Out::Ok(v) => {
                l.class("interval accepted");
                l.tr(1);
                let f = iv_format(v, s);
                // hours beyond 31 bits have no text form
                let wide = (v.2 / HOUR_US).abs() >= 1 << 31;
                if !(matches!(f, Out::Ok(_)) || wide && f == Out::Err) {
                    ctx.fail(vec![st!["iv.parse", text, -1, istyle_name(s)], st!["iv.format", v.0, v.1, v.2, istyle_name(s)]], "a text", f.show());
                }
            }
            g => ctx.fail(vec![st!["iv.parse", text, -1, istyle_name(s)]], "an interval or an error", g.show()),
        }
        if w == Width::Wide {
            for (mask, p) in [(0x7FFF, 0), (0x7FFF, 6), (1 << 2, 0xFFFF), (1 << 12 | 1 << 11, 3), (1 << 3 | 1 << 10, 0xFFFF)] {
                let tm = crate::p_text::iv_typmod(mask, p);
                l.tr(1);
                l.compared += 1;
                let g = iv_parse(text, tm, s);
                if g.is_panic() {
                    ctx.fail(vec![st!["iv.parse", text, tm, istyle_name(s)]], "an interval or an error", g.show());
                }
            }
        }
    }
}

/// Every string over `alpha` of exactly `len` characters.
fn all_strings(ctx: &Ctx, alpha: &[&str], len: u32) {
    let k = alpha.len() as u64;
    ctx.par(k.pow(len), 512, |l, i| {
        let mut s = String::with_capacity(16);
        let mut x = i;
        for _ in 0..len {
            s.push_str(alpha[(x % k) as usize]);
            x /= k;
        }
        read_all(ctx, l, &s, Width::Base);
    });
}

pub const ALPHA: [&str; 26] = [
    "0", "1", "2", "9", " ", "-", "+", ":", ".", "/", ",", "T", "P", "d", "h", "m", "s", "y", "j", "a", "b", "e", "w", "@", "\u{e9}", "\n",
];

pub const TOKENS: [&str; 124] = [
    "0", "1", "2", "7", "9", "10", "12", "13", "24", "25", "31", "32", "59", "60", "61", "99", "100", "366", "367", "999", "1999", "2000",
    "2451187", "9999", "99999", "010203", "19990108", "999999", "2147483647", "2147483648", "4294967296", "9223372036854775807",
    "99999999999999999999", "0.5", ".5", "1.", "12.5", "99.999999", "1999.008", "1e5", "1e-5", "1e400", "-1", "+1", "-0", "-2147483648",
    "-9223372036854775808", "1999-01-08", "1/8/1999", "8.1.1999", "1999-Jan-08", "08-Jan-99", "1-2", "-1-2", "99999-1", "294276-12-31",
    "5874897-12-31", "4714-11-24", "0000-01-01", "04:05", "04:05:06", "04:05:06.789", "24:00:00", "23:59:60", "25:00", "4:5:6:7", "-04:05",
    "+04:05", "2147483647:59:59.999999", "99999999999:00", "040506", "040506.789", "J2451187", "J0", "J9999999", "J-1", "jan", "january",
    "feb", "dec", "mon", "sunday", "bc", "ad", "am", "pm", "T", "t1", "T040506", "z", "utc", "at", "on", "ago", "now", "epoch", "infinity",
    "-infinity", "+infinity", "today", "allballs", "invalid", "dow", "dst", "y", "m", "d", "h", "s", "w", "us", "ms", "year", "month", "day",
    "hour", "min", "sec", "decade", "century", "mil", "P", "P1Y", "@",
];

const JOIN: [&str; 2] = [" ", ""];

pub const CORPUS: [&str; 60] = [
    "1999-01-08", "January 8, 1999", "1/8/1999", "1999-Jan-08", "08-Jan-1999", "19990108", "990108", "1999.008", "J2451187",
    "January 8, 99 BC", "2001-02-16 20:38:40", "2001-02-16 20:38:40.123456", "2001-02-16T20:38:40", "20010216T203840", "Fri Feb 16 20:38:40 2001",
    "Fri 16 Feb 20:38:40 2001", "16.02.2001 20:38:40.12", "02/16/2001 08:38:40 PM", "2001-02-16 20:38:40 BC", "y2001m02d16 04:05:06",
    "294276-12-31 23:59:59.999999", "5874897-12-31", "4714-11-24 BC", "infinity", "-infinity", "epoch", "J2451187 04:05:06",
    "04:05:06.789", "04:05:06", "04:05", "040506", "04:05 AM", "04:05 PM", "T04:05:06", "040506.789", "24:00:00", "23:59:60", "allballs",
    "1 year 2 mons -3 days 04:05:06.789", "@ 1 year 2 mons 3 days 4 hours 5 mins 6.78 secs ago", "+1-2 -3 +4:05:06", "-1-2 3 4:05:06",
    "P1Y2M3DT4H5M6.789S", "P-1Y-2M3DT-4H-5M-6.5S", "P0001-02-03T04:05:06", "P00010203T040506", "1.5 weeks", "1.5 months", "0.1 years",
    "1 day -00:00:01", "12 centuries", "3 decades", "2 millennia", "1h2m3s", "1 2:03:04", "-2147483648 days", "178956970 years",
    "2147483647:59:59.999999", "9223372036854775807 us", "P1W",
];

pub fn chars_of(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

/// One edit of a text: delete, double or swap a character, or put one of `alpha` over or before it.
pub fn edits(t: &[String], alpha: &[&str], mut f: impl FnMut(Vec<String>)) {
    for i in 0..=t.len() {
        for a in alpha {
            let mut x = t.to_vec();
            x.insert(i, a.to_string());
            f(x);
        }
        if i == t.len() {
            break;
        }
        let mut x = t.to_vec();
        x.remove(i);
        f(x);
        for a in alpha {
            let mut x = t.to_vec();
            x[i] = a.to_string();
            f(x);
        }
        if i + 1 < t.len() {
            let mut x = t.to_vec();
            x.swap(i, i + 1);
            f(x);
        }
        let mut x = t.to_vec();
        x.truncate(i);
        f(x);
    }
}

pub fn c06(ctx: &Ctx) {
    let short = ctx.pick(5, 6);
    ctx.bound(format!("every string of up to {short} characters over an alphabet of {} x all readers", ALPHA.len()));
    ctx.seq(|l| read_all(ctx, l, "", Width::Wide));
    for k in 1..=short {
        all_strings(ctx, &ALPHA, k);
    }
    for (alpha, len) in [
        (&["1", "9", "-", ":", ".", " ", "a"][..], ctx.pick(8, 9)),
        (&["0", "2", "P", "T", "Y", "M", "-", "."][..], ctx.pick(7, 9)),
        (&["1", "+", "-", "/", " ", "d"][..], ctx.pick(8, 10)),
        (&["1", "6", "0"][..], ctx.pick(13, 15)),
    ] {
        ctx.bound(format!("every string of up to {len} characters over {alpha:?}"));
        for k in short..=len {
            all_strings(ctx, alpha, k);
        }
    }
    // sequences of tokens
    let n = TOKENS.len() as u64;
    ctx.bound(format!("every sequence of up to 3 of {n} tokens with every joiner pattern from {JOIN:?}; up to {} of a 24-token subset", ctx.pick(4, 5)));
    ctx.par(n * n, 4, |l, i| {
        let (a, b) = (TOKENS[(i / n) as usize], TOKENS[(i % n) as usize]);
        read_all(ctx, l, a, Width::Wide);
        for j in JOIN {
            let ab = format!("{a}{j}{b}");
            read_all(ctx, l, &ab, Width::Wide);
            for c in TOKENS {
                for k in JOIN {
                    read_all(ctx, l, &format!("{ab}{k}{c}"), Width::Base);
                }
            }
        }
    });
    let small = [
        "1", "12", "99", "1999", "999999", "2147483648", "0.5", "-1", "1999-01-08", "1-2", "04:05:06", "-04:05", "J2451187", "jan", "bc", "pm", "T", "ago",
        "y", "m", "d", "h", "ms", "P1Y",
    ];
    let deep = ctx.pick(4u32, 5);
    let k = small.len() as u64;
    ctx.par(k.pow(deep), 64, |l, i| {
        let mut x = i;
        let mut t = vec![];
        for _ in 0..deep {
            t.push(small[(x % k) as usize]);
            x /= k;
        }
        for j in [" ", "", "-"] {
            read_all(ctx, l, &t.join(j), Width::Base);
        }
    });
    // fields counted over the limit, long fields and long texts
    ctx.bound("every token and character repeated 1..40, 120..135, 255..257, 1000, 100000 times with 4 joiners; padded texts of every length up to 300");
    let reps: Vec<usize> = (1..=40).chain(120..=135).chain([255, 256, 257, 1000, 100_000]).collect();
    let units: Vec<&str> = TOKENS.iter().chain(ALPHA.iter()).copied().collect();
    let dims = [units.len() as u64, reps.len() as u64, 4];
    ctx.par(product(dims), 4, |l, i| {
        let [u, r, j] = digits(i, dims);
        let t = vec![units[u]; reps[r]].join([" ", "", "-", ":"][j]);
        ctx.now(|| format!("{:?} x {}", units[u], reps[r]));
        read_all(ctx, l, &t, Width::Base);
        if reps[r] < 300 {
            for (p, s) in [("1999-01-08 ", ""), ("", " 04:05:06"), ("P", "Y"), ("1.", " days"), ("04:05:06.", ""), ("J", ""), ("-", " ago")] {
                read_all(ctx, l, &format!("{p}{t}{s}"), Width::Base);
            }
        }
    });
    let dims = [CORPUS.len() as u64, 300];
    ctx.par(product(dims), 16, |l, i| {
        let [c, r] = digits(i, dims);
        for p in [" ", "0", "\t\n", ",", "x"] {
            read_all(ctx, l, &format!("{}{}", p.repeat(r), CORPUS[c]), Width::Base);
            read_all(ctx, l, &format!("{}{}", CORPUS[c], p.repeat(r)), Width::Base);
            read_all(ctx, l, &CORPUS[c].replacen(' ', &p.repeat(r), 1), Width::Base);
        }
    });
    // all characters
    ctx.bound("every Unicode character alone and before, inside and after valid texts");
    ctx.par(0x11_0000, 512, |l, i| {
        if let Some(c) = char::from_u32(i as u32) {
            for t in [format!("{c}"), format!("1999-01-08{c}"), format!("1 day{c}"), format!("04:{c}05"), format!("{c}P1Y"), format!("Ja{c}n 8 1999"), format!("1{c}2{c}3")] {
                read_all(ctx, l, &t, Width::Base);
            }
        }
    });
    // edits of valid texts
    let ascii: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).chain(["\u{e9}".into(), "\u{1f600}".into(), "\u{0}".into()]).collect();
    let ascii: Vec<&str> = ascii.iter().map(|s| s.as_str()).collect();
    let few = ["0", "1", "9", "-", "+", ":", ".", "/", " ", "P", "T", "y", "s", "\u{e9}"];
    ctx.bound(format!("every single edit with all ASCII characters of {} texts, every double edit with {} characters of {} texts", CORPUS.len(), few.len(), ctx.pick(20, CORPUS.len())));
    ctx.par(CORPUS.len() as u64, 1, |l, i| {
        edits(&chars_of(CORPUS[i as usize]), &ascii, |x| read_all(ctx, l, &x.concat(), Width::Wide));
    });
    let picked: Vec<&str> = CORPUS.iter().copied().filter(|t| !ctx.quick() || t.len() <= 10).take(ctx.pick(20, 60)).collect();
    let mut firsts: Vec<Vec<String>> = vec![];
    for t in &picked {
        edits(&chars_of(t), &few, |x| firsts.push(x));
    }
    ctx.par(firsts.len() as u64, 4, |l, i| {
        edits(&firsts[i as usize], &few, |x| read_all(ctx, l, &x.concat(), Width::Base));
    });
    // numeric extremes with every unit and label
    let mags: Vec<String> = {
        let mut v = vec![];
        for b in [7u32, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 65, 127, 128] {
            if b < 127 {
                for e in [-1i128, 0, 1] {
                    v.push(((1i128 << b) + e).to_string());
                }
            }
        }
        for k in [0usize, 1, 5, 6, 7, 9, 10, 11, 12, 18, 19, 20, 21, 38, 39, 60, 100, 127, 128, 308, 309] {
            v.push(format!("1{}", "0".repeat(k)));
            v.push("9".repeat(k + 1));
        }
        v
    };
    let words: Vec<&str> = vec![
        "us", "ms", "s", "sec", "min", "m", "h", "hour", "d", "day", "w", "week", "mon", "y", "year", "dec", "c", "cent", "mil", "ago", "J", "j", "bc", "am", "pm",
        "Y", "M", "D", "H", "S", "W", "e5", "e", ":00", ":00:00", "-1", "-01-01", "/1/1", ".5", ".999999", "",
    ];
    ctx.bound(format!("{} numbers from 0 to beyond 128 bits x {} units and labels before and after x signs x fractions x contexts", mags.len(), words.len()));
    let dims = [mags.len() as u64, words.len() as u64];
    ctx.par(product(dims), 8, |l, i| {
        let [a, b] = digits(i, dims);
        for sg in ["", "-", "+"] {
            for fr in ["", ".5", ".999999", ".0000001", ".99999999999999999999", ".9999995"] {
                let n = format!("{sg}{}{fr}", mags[a]);
                let w = words[b];
                for t in [
                    format!("{n}{w}"), format!("{n} {w}"), format!("{w}{n}"), format!("{w} {n}"), format!("P{n}{w}"), format!("PT{n}{w}"), format!("1999-01-08 {n}{w}"),
                    format!("1999-01-08 {w}{n}"), format!("1 {n}{w}"), format!("1:{n}{w}"), format!("1:1:{n} {w}"), format!("1-{n} {w}"), format!("jan {n} {w}"),
                    format!("{n} {w} {n} {w} ago"), format!("1 year {n} {w}"), format!("{n} days {n}{w}"),
                ] {
                    read_all(ctx, l, &t, Width::Wide);
                }
            }
        }
    });
    ctx.assume("safe Rust cannot read or write outside its buffers; a wrong index shows as a panic or as a death of the checking process");
    for t in ["", "1999-01-08T", "99999999999999999999 days", "P-", "\u{e9}"] {
        ctx.sample(|| format!("{t:?} -> date {:?}, interval {:?}", date_parse(t, DateOrder::YMD), iv_parse(t, -1, IntervalStyle::Postgres)));
    }
}

// ------------------------------------------------------------------ C07

/// One call of the code under test: reading or printing.
fn ops_text() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let dates = [
        "1999-01-08", "January 8, 1999", "8 Feb 1999", "1999-Mar-08", "08-Apr-99", "19990108", "1999.008", "J2451187", "May 8, 99 BC", "sun jun 8 1999", "epoch",
        "infinity", "-infinity", "+infinity", "jul 8 ad 1999", "august 8 1999", "sept 8 1999", "8 oct 1999", "nov-8-1999", "dec 8 1999", "d8m1y1999", "y1999 m1 d8", "julian 2451187", "1999 doy 8",
        "on jan 8 1999", "1999-01-08-", "garbage", "jan", "8", "1/8/1999 bc", "12/10", "-", "@ 8 jan 1999", "mon 8 jan 1999", "m1 d8 y1999", "bc 8 jan 1999", "t8 jan 1999",
    ];
    for t in dates {
        v.push(st!["date.parse", t, "MDY"]);
    }
    for (t, o) in [("01-02-03", "YMD"), ("01-02-03", "DMY"), ("01-02-03", "MDY"), ("3 jan 1999", "YMD"), ("j2451187", "DMY")] {
        v.push(st!["date.parse", t, o]);
    }
    for t in [
        "1999-01-08 04:05:06", "1999-01-08 04:05:06 pm", "1999-01-08T040506", "jan 8 04:05:06 1999", "04:05 am 8 jan 1999 bc", "J2451187 04:05", "y1999m01d08 h04 mm05 s06",
        "1999-01-08 allballs", "1999-01-08 at 04:05:06", "on 1999-01-08 t 04:05", "1999-01-08 24:00", "1999-01-08 040506.5", "1999-01-08 04:05:06 bc", "1999-01-08 noon",
    ] {
        v.push(st!["ts.parse", t, -1, "MDY"]);
    }
    v.push(st!["ts.parse", "1999-01-08 04:05:06.789", 0, "YMD"]);
    for t in ["04:05:06.789", "040506", "04:05 pm", "am 04:05", "t04:05", "T 04:05:06", "allballs", "h04 m05 s06", "24:00:00", "25:00", "t", "04:05:06 bc", "mm5", "04:05 ad"] {
        v.push(st!["time.parse", t, -1, "YMD"]);
    }
    v.push(st!["time.parse", "04:05:06.789", 1, "YMD"]);
    for t in [
        "1 year 2 mons -3 days 04:05:06.789", "1 m", "1 mon", "1 min", "1 d", "1 dec", "1 s", "1 h", "1 us", "1 ms", "1 w", "1 c", "1 mil", "1 y", "1 day ago", "1-2", "-1-2 3 -4:05:06",
        "P1Y2M3DT4H5M6S", "p1y", "P1W", "ago", "1", "1.5 months", "@ 1 hour 2 mins", "1 2:03:04", "-1 day", "day", "+1 year -1 month", "1 qtr", "infinity", "1 jan", "1 us 2 ms 3 s 4 m 5 h",
        "2 d 1 y", "- 1 day", "1 year 1 year", "1 mons 2 decs", "1 microseconds", "1 microsecon", "1 millennium",
    ] {
        v.push(st!["iv.parse", t, -1, "Postgres"]);
    }
    for (t, p, s) in [
        ("-1-2 3 -4:05:06", -1, "SQLStandard"), ("-1 year 2 mons", -1, "SQLStandard"), ("1 day 04:05:06.789", crate::p_text::iv_typmod(0x7FFF, 0), "Postgres"),
        ("1 day 04:05", crate::p_text::iv_typmod(1 << 3 | 1 << 10, 0xFFFF), "ISO8601"), ("1", crate::p_text::iv_typmod(1 << 2, 0xFFFF), "Verbose"),
    ] {
        v.push(st!["iv.parse", t, p, s]);
    }
    // one text under every order, precision, style and restriction
    for o in ["YMD", "DMY", "MDY"] {
        for p in [-1, 0, 3] {
            v.push(st!["ts.parse", "01-02-03 04:05:06.7896", p, o]);
        }
    }
    for p in [0, 3, 6] {
        v.push(st!["time.parse", "04:05:06.7896", p, "YMD"]);
    }
    for s in ISTYLES {
        for p in [-1, crate::p_text::iv_typmod(0x7FFF, 2), crate::p_text::iv_typmod(1 << 2, 0xFFFF)] {
            v.push(st!["iv.parse", "-1 1 04:05:06.7896", p, istyle_name(s)]);
        }
    }
    let d0 = days(-43, 3, 15);
    let d1 = days(1999, 1, 8);
    for s in STYLES {
        for o in [DateOrder::YMD, DateOrder::DMY] {
            v.push(st!["date.format", d0, style_name(s), order_name(o)]);
            v.push(st!["ts.format", d1 * DAY_US + 14_706_789_012, style_name(s), order_name(o)]);
        }
        v.push(st!["time.format", 14_706_789_012i64, style_name(s)]);
    }
    v.push(st!["ts.format", i64::MAX, "ISO", "YMD"]);
    v.push(st!["date.format", i32::MIN, "ISO", "YMD"]);
    v.push(st!["date.format", days(5_874_897, 12, 31), "Postgres", "MDY"]);
    for s in ISTYLES {
        for x in [(14, -3, 14_706_789_012i64), (0, 0, 0), (-14, -3, -14_706_789_012), (i32::MIN, i32::MIN, i64::MIN), (0, 0, -1)] {
            v.push(st!["iv.format", x.0, x.1, x.2, istyle_name(s)]);
        }
    }
    // calls on values, in pairs and more that differ in one argument only
    let (t0, t1) = (-1_234_567_890_123i64, 800_000_000_000_001i64);
    for (a, b) in [(t0, t1), (t1, t0), (t0, 0), (0, t0)] {
        v.push(st!["ts.age", a, b]);
        v.push(st!["ts.diff", a, b]);
    }
    for t in [t0, t1] {
        for u in ["week", "month", "century", "hour"] {
            v.push(st!["ts.trunc", t, "false", u]);
        }
        for u in ["isoyear", "doy", "second", "quarter"] {
            v.push(st!["ts.part", t, "false", u]);
        }
        for x in [(1, 1, 1), (-1, 1, 1), (1, -31, 1), (1, 1, -86_400_000_000i64)] {
            v.push(st!["ts.add", t, x.0, x.1, x.2]);
        }
        v.push(st!["ts.sub", t, 1, 1, 1]);
        v.push(st!["ts.to_date", t]);
        v.push(st!["ts.to_time", t]);
    }
    v.push(st!["ts.add", i64::MAX, 1, 1, 1]);
    for d in [d0, d1] {
        for u in ["week", "decade"] {
            v.push(st!["date.trunc", d, "false", u]);
            v.push(st!["date.part", d, "false", u]);
        }
        v.push(st!["date.add_days", d, 1]);
        v.push(st!["date.sub_days", d, 1]);
        v.push(st!["date.add_iv", d, 1, 0, 0]);
        v.push(st!["date.add_time", d, 5]);
        v.push(st!["date.to_ts", d]);
    }
    v.push(st!["date.to_ts", i32::MAX]);
    for (y, m, d) in [(2000, 2, 30), (2000, 2, 29), (1900, 2, 29), (-2000, 2, 29), (2000, 3, 29)] {
        v.push(st!["date.ymd", y, m, d]);
    }
    v.push(st!["time.hms", 24, 0, 0.0]);
    v.push(st!["time.hms", 23, 59, 60.0]);
    v.push(st!["ts.hms", 2000, 2, 29, 24, 0, 0.0]);
    v.push(st!["ts.hms", 2001, 2, 29, 24, 0, 0.0]);
    v.push(st!["iv.new", 1, 2, 3, 4, 5, 6, 7.5]);
    v.push(st!["iv.new", 1, 2, 3, 4, 5, 6, -7.5]);
    for t in [5i64, 86_400_000_000] {
        for x in [(1, 1, 1i64), (0, 0, -7), (0, 0, i64::MAX)] {
            v.push(st!["time.add", t, x.0, x.1, x.2]);
        }
        v.push(st!["time.trunc", t, "false", "hour"]);
        v.push(st!["time.part", t, "false", "micro"]);
    }
    for x in [(14, -33, 14_706_789_012i64), (-14, 33, 100_000_000_000), (i32::MAX, i32::MAX, i64::MAX)] {
        for f in [1.5, -2.0, 0.0, f64::NAN] {
            v.push(st!["iv.mul", x.0, x.1, x.2, f]);
            v.push(st!["iv.div", x.0, x.1, x.2, f]);
        }
        for f in ["iv.neg", "iv.justify_hours", "iv.justify_days", "iv.justify_interval", "iv.to_time"] {
            v.push(st![f, x.0, x.1, x.2]);
        }
        v.push(st!["iv.add", x.0, x.1, x.2, 1, 2, 3]);
        v.push(st!["iv.sub", x.0, x.1, x.2, 1, 2, 3]);
        v.push(st!["iv.cmp", x.0, x.1, x.2, 1, 2, 3]);
        for u in ["year", "hour"] {
            v.push(st!["iv.trunc", x.0, x.1, x.2, "false", u]);
            v.push(st!["iv.part", x.0, x.1, x.2, "false", u]);
        }
    }
    v
}

/// Calls with, for each, the calls that differ from it in a way a lossy key of a memory of earlier
/// results would not see: one argument moved by a power of two, a calendar or a clock period, or one
/// character of a text replaced, removed, doubled, exchanged or in the other case.
fn related(ctx: &Ctx) -> Vec<(Vec<String>, Vec<Vec<String>>)> {
    let mut r = vec![];
    let mut texts = |op: Vec<String>| {
        let t: Vec<char> = op[1].chars().collect();
        let mut vs: Vec<String> = vec![];
        for i in 0..t.len() {
            let mut put = |f: &dyn Fn(&mut Vec<char>)| {
                let mut u = t.clone();
                f(&mut u);
                vs.push(u.into_iter().collect());
            };
            let c = t[i];
            put(&|u| u[i] = if c.is_ascii_digit() { (((c as u8 - b'0' + 1) % 10) + b'0') as char } else { (c as u8 ^ 1) as char });
            put(&|u| u[i] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() });
            put(&|u| {
                u.remove(i);
            });
            put(&|u| u.insert(i, c));
            put(&|u| u.truncate(i));
            if i > 0 {
                put(&|u| u.swap(i - 1, i));
            }
        }
        for tail in [" ", " bc", " am", "0", "x", " 1", "                                    "] {
            vs.push(format!("{}{tail}", op[1]));
            vs.push(format!("{tail}{}", op[1]));
        }
        vs.sort();
        vs.dedup();
        vs.retain(|v| *v != op[1] && !v.is_empty());
        r.push((op.clone(), vs.into_iter().map(|v| [&op[..1], &[v], &op[2..]].concat()).collect()));
    };
    for t in ["1999-01-08", "January 8, 1999", "8-feb-1999 bc", "19990108", "1999.008", "J2451187", "-infinity"] {
        texts(st!["date.parse", t, "MDY"]);
    }
    for t in ["1999-01-08 04:05:06.789", "Friday January 8 04:05:06 PM 1999 AD", "J2451187 040506", "y1999m01d08 h04 mm05 s06"] {
        texts(st!["ts.parse", t, -1, "DMY"]);
    }
    for t in ["04:05:06.789", "040506", "04:05 pm", "allballs", "h04 m05 s06"] {
        texts(st!["time.parse", t, -1, "YMD"]);
    }
    for t in ["1 year 2 mons -3 days 04:05:06.789", "P1Y2M3DT4H5M6S", "-1-2 3 -4:05:06", "1.5 months", "@ 1 hour 2 mins ago", "1 microsecond"] {
        texts(st!["iv.parse", t, -1, "Postgres"]);
    }
    let mut p32: Vec<i64> = (0..31).map(|k| 1i64 << k).collect();
    p32.extend([5, 7, 10, 12, 28, 29, 30, 31, 60, 99, 100, 255, 365, 366, 1000, 1460, 1461, 10_000, 36_524, 36_525, 65_535, 146_096, 146_097, 584_388, 1_461_000]);
    let mut p64: Vec<i64> = (0..63).map(|k| 1i64 << k).collect();
    for u in [10i64, 1000, 1_000_000, 60_000_000, 3_600_000_000, DAY_US] {
        p64.extend([1, 2, 7, 30, 31, 60, 100, 365, 366, 1000, 1461, 36_524, 146_097].iter().map(|k| u * k));
    }
    // the arguments of a call which are moved: their positions and sizes (32 or 64 bits)
    let mut moved = |op: Vec<String>, at: &[(usize, u32)]| {
        let mut vs: Vec<Vec<String>> = vec![];
        for &(i, w) in at {
            let x: i128 = op[i].parse().unwrap();
            let ds = if w == 32 { &p32 } else { &p64 };
            for d in ds {
                for y in [x + *d as i128, x - *d as i128] {
                    let fits = if w == 32 { i32::try_from(y).is_ok() } else { i64::try_from(y).is_ok() };
                    if fits {
                        let mut o = op.clone();
                        o[i] = y.to_string();
                        vs.push(o);
                    }
                }
            }
            let mut o = op.clone();
            o[i] = (-x).to_string();
            vs.push(o);
            for &(j, _) in at {
                if j < i && [i, j].iter().all(|k| op[*k].parse::<i32>().is_ok()) {
                    let mut o = op.clone();
                    o.swap(i, j);
                    vs.push(o);
                }
            }
        }
        vs.sort();
        vs.dedup();
        vs.retain(|v| *v != op);
        r.push((op, vs));
    };
    for d in [days(1999, 1, 8), days(-43, 2, 29), days(200_000, 12, 31)] {
        moved(st!["date.format", d, "ISO", "YMD"], &[(1, 32)]);
        if d < days(294_276, 12, 31) {
            moved(st!["date.to_ts", d], &[(1, 32)]);
            moved(st!["date.trunc", d, "false", "week"], &[(1, 32)]);
            moved(st!["date.part", d, "false", "isoyear"], &[(1, 32)]);
            moved(st!["date.add_iv", d, 1, 2, 3], &[(1, 32), (2, 32), (3, 32), (4, 64)]);
            moved(st!["date.add_time", d, 14_706_789_012i64], &[(1, 32)]);
        }
        moved(st!["date.add_days", d, 40], &[(1, 32), (2, 32)]);
    }
    for t in [days(1999, 1, 8) * DAY_US + 14_706_789_012, days(-43, 2, 29) * DAY_US + 1, days(200_000, 12, 31) * DAY_US + DAY_US - 1] {
        for s in ["ISO", "Postgres"] {
            moved(st!["ts.format", t, s, "YMD"], &[(1, 64)]);
        }
        for u in ["century", "quarter", "hour"] {
            moved(st!["ts.trunc", t, "false", u], &[(1, 64)]);
        }
        for u in ["week", "doy", "second", "julian"] {
            moved(st!["ts.part", t, "false", u], &[(1, 64)]);
        }
        moved(st!["ts.to_date", t], &[(1, 64)]);
        moved(st!["ts.to_time", t], &[(1, 64)]);
        moved(st!["ts.add", t, 14, -3, 14_706_789_012i64], &[(1, 64), (2, 32), (3, 32), (4, 64)]);
        moved(st!["ts.sub", t, 14, -3, 14_706_789_012i64], &[(1, 64), (2, 32), (3, 32), (4, 64)]);
        moved(st!["ts.age", t, 1_234_567_890_123i64], &[(1, 64), (2, 64)]);
        moved(st!["ts.diff", t, 1_234_567_890_123i64], &[(1, 64), (2, 64)]);
    }
    for (y, m, d) in [(1999, 1, 8), (-43, 2, 29), (2000, 2, 29)] {
        moved(st!["date.ymd", y, m, d], &[(1, 32), (2, 32), (3, 32)]);
        moved(st!["ts.hms", y, m, d, 4, 5, 6.5], &[(1, 32), (2, 32), (3, 32), (4, 32), (5, 32)]);
    }
    moved(st!["time.format", 14_706_789_012i64, "ISO"], &[(1, 64)]);
    moved(st!["time.trunc", 14_706_789_012i64, "false", "minute"], &[(1, 64)]);
    moved(st!["time.part", 14_706_789_012i64, "false", "second"], &[(1, 64)]);
    moved(st!["time.add", 14_706_789_012i64, 1, 2, 14_706_789_012i64], &[(1, 64), (2, 32), (3, 32), (4, 64)]);
    moved(st!["time.hms", 4, 5, 6.5], &[(1, 32), (2, 32)]);
    let three = [(1usize, 32u32), (2, 32), (3, 64)];
    for (m, d, t) in [(14, -3, 14_706_789_012i64), (0, 1, -1)] {
        for s in ISTYLES {
            moved(st!["iv.format", m, d, t, istyle_name(s)], &three);
        }
        for f in ["iv.neg", "iv.justify_hours", "iv.justify_days", "iv.justify_interval", "iv.to_time"] {
            moved(st![f, m, d, t], &three);
        }
        moved(st!["iv.mul", m, d, t, 1.5], &three);
        moved(st!["iv.div", m, d, t, 1.5], &three);
        moved(st!["iv.cmp", m, d, t, 14, -3, 14_706_789_012i64], &three);
        moved(st!["iv.add", m, d, t, 14, -3, 14_706_789_012i64], &three);
        moved(st!["iv.trunc", m, d, t, "false", "month"], &three);
        moved(st!["iv.part", m, d, t, "false", "epoch"], &three);
    }
    moved(st!["iv.new", 1, 2, 3, 4, 5, 6, 7.5], &[(1, 32), (2, 32), (3, 32), (4, 32), (5, 32), (6, 32)]);
    if ctx.quick() {
        for (_, v) in r.iter_mut() {
            // every second one of the longest lists
            if v.len() > 150 {
                let mut k = 0;
                v.retain(|_| {
                    k += 1;
                    k % 2 == 0
                });
            }
        }
    }
    r
}

fn on_fresh_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

thread_local! {
    static ARGS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Runs a call with its arguments in the same memory as those of the thread's earlier calls, whose
/// leftovers follow a shorter text.
fn run(s: &[String]) -> String {
    ARGS.with(|b| {
        let mut b = b.borrow_mut();
        while b.len() < s.len() {
            b.push(String::with_capacity(160));
        }
        for (x, y) in b.iter_mut().zip(s) {
            x.clear();
            x.push_str(y);
        }
        crate::interp::run(&b[..s.len()])
    })
}

/// The outcome of a call that is the only one of its process.
fn on_fresh_process(s: &[String]) -> String {
    let o = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("one")
        .args(s)
        .stderr(std::process::Stdio::null())
        .output()
        .expect("process");
    if o.status.success() {
        String::from_utf8_lossy(&o.stdout).into_owned()
    } else {
        format!("Panic (the process ended with {})", o.status)
    }
}

/// Fills the unused stack below the caller with a byte.
#[inline(never)]
fn dirty_stack(b: u8) -> u8 {
    let mut a = [0u8; 96 * 1024];
    for x in a.iter_mut() {
        *x = b;
    }
    std::hint::black_box(&mut a);
    a[b as usize]
}

/// Fills freed heap blocks of the usual small sizes with a byte.
fn dirty_heap(b: u8) {
    let v: Vec<Vec<u8>> = [16usize, 24, 32, 40, 48, 64, 80, 96, 128, 160, 256].iter().flat_map(|n| (0..8).map(move |_| vec![b; *n])).collect();
    std::hint::black_box(&v);
}

/// A thread that executes one step at a time on request.
struct Puppet<'a> {
    tx: mpsc::SyncSender<&'a [String]>,
    rx: mpsc::Receiver<String>,
}

/// Interleavings inside calls: executed by il (see ../il), which is compiled with scheduling points.
fn interleave(ctx: &Ctx, ops: &[Vec<String>], base: &[String]) {
    use serde_json::{json, Value};
    let Some(il) = std::env::var_os("MC_IL") else {
        eprintln!("ERROR: MC_IL is not set; run the check with check.sh");
        std::process::exit(3);
    };
    let pick: Vec<usize> = (0..ops.len()).filter(|i| !base[*i].starts_with("Panic")).collect();
    // all pairs of some calls, and all pairs of calls of the same function
    let some = ctx.pick(3, 1);
    let pairs: Vec<[usize; 2]> = (0..pick.len() * pick.len())
        .map(|i| [i / pick.len(), i % pick.len()])
        .filter(|[a, b]| (a % some == 0 && b % some == 0) || ops[pick[*a]][0] == ops[pick[*b]][0])
        .collect();
    let two = ctx.pick(1000u64, 6000);
    let v = json!({"ops": pick.iter().map(|i| &ops[*i]).collect::<Vec<_>>(), "base": pick.iter().map(|i| &base[*i]).collect::<Vec<_>>(), "pairs": pairs, "two": two, "seconds": ctx.pick(240, 480)});
    let file = std::env::temp_dir().join(format!("il-{}.json", std::process::id()));
    std::fs::write(&file, v.to_string()).unwrap_or_else(|e| {
        eprintln!("ERROR: {e}");
        std::process::exit(3)
    });
    let outs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8)
            .map(|k| {
                let (il, file) = (&il, &file);
                sc.spawn(move || std::process::Command::new(il).arg(file).arg(k.to_string()).arg("8").output().expect("il"))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("il")).collect()
    });
    std::fs::remove_file(&file).ok();
    let mut sum = std::collections::BTreeMap::<&str, u64>::new();
    ctx.seq(|l| {
        for o in &outs {
            let r: Value = match serde_json::from_slice(&o.stdout) {
                Ok(v) if o.status.success() => v,
                _ => {
                    ctx.fail(vec![st!["interleaved calls"]], "every call returns", format!("the process running the calls ended with {}", o.status));
                    continue;
                }
            };
            for k in ["pairs", "left_out", "schedules", "two", "blocked", "accesses", "static_loads", "static_stores", "heap"] {
                *sum.entry(k).or_insert(0) += r[k].as_u64().unwrap_or(0);
            }
            let m = sum.entry("max_points").or_insert(0);
            *m = (*m).max(r["max_points"].as_u64().unwrap_or(0));
            for f in r["fails"].as_array().unwrap() {
                let steps = f["steps"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()).collect();
                ctx.fail(steps, f["expected"].as_str().unwrap(), f["got"].as_str().unwrap());
            }
        }
        let n = sum.get("schedules").copied().unwrap_or(0);
        l.states += n;
        l.calls += 2 * n;
        l.compared += 2 * n;
    });
    ctx.bound(format!(
        "interleavings inside calls: {} pairs of {} calls on two threads (all pairs of {} of them, all pairs of calls of one function), after another call; every schedule with one switch away from the first call at any of its points (every basic block, and every load and store outside the thread's stack), and for pairs of at most {two} combinations every schedule with a switch away from each; observed: {}",
        pairs.len(),
        pick.len(),
        pick.len().div_ceil(some),
        sum.iter().map(|(k, v)| format!("{k} {v}")).collect::<Vec<_>>().join(", ")
    ));
}

pub fn c07(ctx: &Ctx) {
    let ops = ops_text();
    let n = ops.len() as u64;
    // every operation alone in a process of its own
    let base: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8usize)
            .map(|k| {
                let ops = &ops;
                sc.spawn(move || ops.iter().skip(k).step_by(8).map(|o| on_fresh_process(o)).collect::<Vec<_>>())
            })
            .collect();
        let parts: Vec<Vec<String>> = hs.into_iter().map(|h| h.join().expect("base")).collect();
        (0..ops.len()).map(|i| parts[i % 8][i / 8].clone()).collect()
    });
    ctx.seq(|l| {
        l.states += n;
        l.calls += n;
        for (o, b) in ops.iter().zip(&base) {
            l.cmp();
            if b.starts_with("Panic") {
                ctx.fail(vec![o.clone()], "a value or an error", b.clone());
            }
        }
    });
    // histories: every pair and triple (each history starts in a fresh thread)
    ctx.bound(format!("{n} calls, each compared with its outcome as the only call of a process; every history of 2 calls, each from a fresh thread; every history of two readers and a third call, two readers per fresh thread"));
    let check = |l: &mut Loc, h: &[usize]| {
        l.st();
        let mut got = String::new();
        for &i in h {
            got = run(&ops[i]);
            l.calls += 1;
        }
        let last = *h.last().unwrap();
        l.cmp();
        if got != base[last] {
            ctx.fail(h.iter().map(|i| ops[*i].clone()).collect(), base[last].clone(), got);
        }
    };
    // a history is the path from a fresh thread: [first] then every [second] would need a fresh
    // thread per pair; pairs get one each
    ctx.par(n * n, 64, |l, i| {
        let h = [(i / n) as usize, (i % n) as usize];
        let mut m = Loc::default();
        let r = on_fresh_thread(|| {
            check(&mut m, &h);
            m
        });
        l.states += r.states;
        l.calls += r.calls;
        l.compared += r.compared;
    });
    // triples: only calls that touch the per-thread state can matter as predecessors, which are the
    // readers; a fresh thread per (first, second) pair and then every third call, re-establishing
    // the pair before each
    let readers: Vec<usize> = (0..ops.len()).filter(|i| ops[*i][0].ends_with(".parse")).collect();
    let r = readers.len() as u64;
    ctx.par(r * r, 16, |l, i| {
        let (a, b) = (readers[(i / r) as usize], readers[(i % r) as usize]);
        let mut m = Loc::default();
        let res = on_fresh_thread(|| {
            for c in 0..ops.len() {
                check(&mut m, &[a, b, c]);
            }
            m
        });
        l.states += res.states;
        l.calls += res.calls;
        l.compared += res.compared;
    });
    // longer histories over calls that occupy every keyword slot differently
    let slots: Vec<usize> = {
        let want = ctx.pick(14usize, 22);
        let step = readers.len() / want;
        readers.iter().copied().step_by(step.max(1)).take(want).collect()
    };
    let depth = ctx.pick(5u32, 5);
    let k = slots.len() as u64;
    ctx.bound(format!("every history of {depth} calls over {k} readers, continued in one thread per chunk"));
    ctx.par_chunks(k.pow(depth), 4096, |l, a, b| {
        for i in a..b {
            let mut x = i;
            let h: Vec<usize> = (0..depth)
                .map(|_| {
                    let j = slots[(x % k) as usize];
                    x /= k;
                    j
                })
                .collect();
            check(l, &h);
        }
    });
    // calls that differ a little
    let rel = related(ctx);
    let total: usize = rel.iter().map(|x| x.1.len()).sum();
    ctx.bound(format!("{} calls, each before and after each of {total} calls that differ from it in one argument (moved by a power of two, a calendar or clock period, its sign) or in one character, and those after one another; all compared with their outcome as the only call of a process", rel.len()));
    ctx.par(rel.len() as u64, 1, |l, i| {
        let (a, vs) = &rel[i as usize];
        let fa = on_fresh_process(a);
        let fv: Vec<String> = vs.iter().map(|v| on_fresh_process(v)).collect();
        let mut got: Vec<(Vec<Step>, String, String)> = vec![];
        on_fresh_thread(|| {
            for (v, f) in vs.iter().zip(&fv) {
                for (x, w, h) in [(a, &fa, vec![v.clone(), a.clone()]), (v, f, vec![a.clone(), v.clone()])] {
                    let g = run(x);
                    if g != *w {
                        got.push((h, w.clone(), g));
                    }
                }
            }
            for (k, (v, f)) in vs.iter().zip(&fv).enumerate() {
                let g = run(v);
                if g != *f {
                    got.push((vs[..=k].to_vec(), f.clone(), g));
                }
            }
        });
        l.states += 3 * vs.len() as u64;
        l.calls += 3 * vs.len() as u64;
        l.compared += 3 * vs.len() as u64;
        for (h, w, g) in got {
            ctx.fail(h, w, g);
        }
    });
    // the same text at every keyword position
    ctx.bound("every keyword at every field position 0..9 after every other keyword at that position");
    let words = [
        "jan", "feb", "mar", "may", "monday", "mon", "tue", "sun", "ad", "bc", "am", "pm", "at", "on", "y", "m", "d", "h", "s", "t", "j", "doy", "epoch", "infinity", "ago", "year", "min", "ms", "us",
        "dec", "c", "w", "mil", "qtr", "xyz", "januaryxyz", "microsecon",
    ];
    let dims = [words.len() as u64, words.len() as u64, 10];
    ctx.par(product(dims), 8, |l, i| {
        let [a, b, p] = digits(i, dims);
        let pre = "1 ".repeat(p);
        let t1 = format!("{pre}{}", words[a]);
        let t2 = format!("{pre}{}", words[b]);
        let mk = |t: &str| [st!["date.parse", t, "MDY"], st!["ts.parse", t, -1, "MDY"], st!["time.parse", t, -1, "MDY"], st!["iv.parse", t, -1, "Postgres"]];
        let fresh: Vec<String> = on_fresh_thread(|| mk(&t2).iter().map(|s| run(s)).collect());
        let after: Vec<String> = on_fresh_thread(|| {
            mk(&t1).iter().for_each(|s| {
                run(s);
            });
            mk(&t2).iter().map(|s| run(s)).collect()
        });
        l.st();
        l.tr(12);
        for ((s, f), g) in mk(&t2).iter().zip(&fresh).zip(&after) {
            l.cmp();
            if f != g {
                let mut steps: Vec<Step> = mk(&t1).to_vec();
                steps.push(s.clone());
                ctx.fail(steps, f.clone(), g.clone());
            }
        }
    });
    // leftover memory
    let pats: Vec<u8> = ctx.pick(vec![0x00, 0x01, 0x20, 0x31, 0x41, 0x7f, 0xaa, 0xff], (0..=255).collect());
    ctx.bound(format!("every call after the stack and the freed heap were filled with each of {} bytes, and after every other call with its own leftovers", pats.len()));
    let dims = [n, pats.len() as u64];
    ctx.par(product(dims), 16, |l, i| {
        let [o, p] = digits(i, dims);
        l.st();
        l.tr(1);
        let g = on_fresh_thread(|| {
            dirty_heap(pats[p]);
            std::hint::black_box(dirty_stack(pats[p]));
            run(&ops[o])
        });
        l.cmp();
        if g != base[o] {
            ctx.fail(vec![st!["memory", pats[p]], ops[o].clone()], base[o].clone(), g);
        }
    });
    // schedules: two threads with two calls each and three threads with one or two, every
    // interleaving of the calls, calls executed one at a time by a controller
    let few: Vec<usize> = {
        let want = ctx.pick(24usize, 48);
        let step = (ops.len() / want).max(1);
        (0..ops.len()).step_by(step).take(want).collect()
    };
    let f = few.len() as u64;
    ctx.bound(format!("every call-level interleaving of 2 threads x 2 calls over {f} calls (6 schedules per program), and of 3 threads x 1-2 calls over 8 calls (90 schedules)"));
    let two: Vec<Vec<usize>> = vec![vec![0, 0, 1, 1], vec![0, 1, 0, 1], vec![0, 1, 1, 0], vec![1, 0, 0, 1], vec![1, 0, 1, 0], vec![1, 1, 0, 0]];
    let mut three: Vec<Vec<usize>> = vec![];
    fn gen(cur: &mut Vec<usize>, left: &mut [usize; 3], out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..3 {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                gen(cur, left, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    gen(&mut vec![], &mut [2, 2, 2], &mut three);
    let run_schedule = |l: &mut Loc, progs: &[Vec<usize>], sched: &[usize]| {
        l.st();
        std::thread::scope(|s| {
            let pups: Vec<Puppet> = progs
                .iter()
                .map(|_| {
                    let (tx, trx) = mpsc::sync_channel::<&[String]>(1);
                    let (ttx, rx) = mpsc::sync_channel::<String>(1);
                    std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn_scoped(s, move || {
                            while let Ok(step) = trx.recv() {
                                if ttx.send(run(step)).is_err() {
                                    break;
                                }
                            }
                        })
                        .unwrap();
                    Puppet { tx, rx }
                })
                .collect();
            let mut pc = vec![0usize; progs.len()];
            for (k, &t) in sched.iter().enumerate() {
                let o = progs[t][pc[t]];
                pc[t] += 1;
                pups[t].tx.send(&ops[o]).unwrap();
                let g = pups[t].rx.recv().unwrap();
                l.tr(1);
                l.cmp();
                if g != base[o] {
                    let mut q = vec![0usize; progs.len()];
                    let steps = sched[..=k]
                        .iter()
                        .map(|&u| {
                            let mut x = st![format!("thread{u}")];
                            x.extend(ops[progs[u][q[u]]].clone());
                            q[u] += 1;
                            x
                        })
                        .collect();
                    ctx.fail(steps, base[o].clone(), g);
                }
            }
            drop(pups);
        });
    };
    let dims = [f, f, f];
    ctx.par(product(dims), 8, |l, i| {
        let [a, b, c] = digits(i, dims);
        // thread 0 runs a then b, thread 1 runs c then a
        for sch in &two {
            run_schedule(l, &[vec![few[a], few[b]], vec![few[c], few[a]]], sch);
        }
    });
    let eight: Vec<usize> = few.iter().copied().step_by((few.len() / 8).max(1)).take(ctx.pick(4, 8)).collect();
    let e = eight.len() as u64;
    let dims = [e, e, e];
    ctx.par(product(dims), 1, |l, i| {
        let [a, b, c] = digits(i, dims);
        for sch in &three {
            run_schedule(l, &[vec![eight[a], eight[b]], vec![eight[b], eight[c]], vec![eight[c], eight[a]]], sch);
        }
    });
    interleave(ctx, &ops, &base);
    // truly parallel calls: all workers run all calls at once from different offsets
    ctx.bound("all calls executed by 8 threads at the same time, each thread starting at a different call");
    ctx.par(8 * 8, 1, |l, w| {
        for i in 0..ops.len() {
            let o = (i + (w as usize) * 17) % ops.len();
            l.tr(1);
            l.cmp();
            let g = run(&ops[o]);
            if g != base[o] {
                ctx.fail(vec![st!["parallel"], ops[o].clone()], base[o].clone(), g);
            }
        }
    });
    ctx.assume("switches inside calls are explored between two threads and under sequential consistency");
    for (o, b) in ops.iter().zip(&base).step_by(17) {
        ctx.sample(|| format!("{} -> {b}", o.join(" ")));
    }
}
