//! C08, C09 and C10 on arbitrary texts: the crate's readers next to the reference readers.
use crate::api::*;
use crate::fw::*;
use crate::p_robust::{chars_of, edits, ALPHA, CORPUS, TOKENS};
use crate::p_text::{iv_typmod, notations_of, restrict, RANGES};
use crate::refm::*;
use crate::refread as rr;
use crate::st;

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Dates,
    Times,
    Intervals,
}
use Which::*;

pub fn compare(ctx: &Ctx, l: &mut Loc, w: Which, text: &str) {
    l.st();
    let toks = rr::split(text);
    match w {
        Dates => {
            for o in ORDERS {
                let want = match &toks {
                    Some(t) => rr::date_time(t, o),
                    None => Some((Out::Err, Out::Err)),
                };
                let Some((d, t)) = want else { continue };
                l.tr(2);
                if d.show() != "Err" {
                    l.class("accepted");
                }
                ctx.check(l, &date_parse(text, o), &d, || vec![st!["date.parse", text, order_name(o)]]);
                ctx.check(l, &ts_parse(text, -1, o), &t, || vec![st!["ts.parse", text, -1, order_name(o)]]);
            }
        }
        Times => {
            for o in ORDERS {
                let want = match &toks {
                    Some(t) => rr::time(t, o),
                    None => Out::Err,
                };
                l.tr(1);
                if want != Out::Err {
                    l.class("accepted");
                }
                ctx.check(l, &time_parse(text, -1, o), &want, || vec![st!["time.parse", text, -1, order_name(o)]]);
            }
        }
        Intervals => {
            for s in ISTYLES {
                let got = iv_parse(text, -1, s);
                l.tr(1);
                let mut want = rr::interval(text, toks.as_deref(), s, true, 0x7FFF);
                if want != got && text.contains('.') {
                    let b = rr::interval(text, toks.as_deref(), s, false, 0x7FFF);
                    if b == got {
                        want = b;
                        l.class("binary fraction");
                    }
                }
                if want != Out::Err {
                    l.class("accepted");
                }
                ctx.check(l, &got, &want, || vec![st!["iv.parse", text, -1, istyle_name(s)]]);
            }
        }
    }
}

/// Every string of up to `max` pieces of an alphabet.
fn strings(ctx: &Ctx, w: Which, alpha: &[&str], max: u32) {
    ctx.bound(format!("reference reader: every text of up to {max} pieces over {}: {}", alpha.len(), alpha.join("|").replace('\n', "\\n")));
    let a = alpha.len() as u64;
    for len in 1..=max {
        ctx.par(a.pow(len), 512, |l, i| {
            let mut s = String::with_capacity(16);
            let mut x = i;
            for _ in 0..len {
                s.push_str(alpha[(x % a) as usize]);
                x /= a;
            }
            compare(ctx, l, w, &s);
        });
    }
}

/// Every sequence of `n` fields of a set, with each of the joiners throughout.
fn fields(ctx: &Ctx, w: Which, set: &[&str], n: u32, join: &[&str]) {
    ctx.bound(format!("reference reader: every sequence of {n} of {} fields joined by {join:?}{}", set.len(), if n <= 2 { ", and in upper case, and with other white space" } else { "" }));
    let a = set.len() as u64;
    ctx.par(a.pow(n), 128, |l, i| {
        let mut x = i;
        let mut t = Vec::with_capacity(n as usize);
        for _ in 0..n {
            t.push(set[(x % a) as usize]);
            x /= a;
        }
        for j in join {
            compare(ctx, l, w, &t.join(j));
        }
        if n <= 2 {
            // letters in upper case, and other white space
            let s = t.join(" ");
            let up = s.to_ascii_uppercase();
            if up != s {
                compare(ctx, l, w, &up);
            }
            compare(ctx, l, w, &format!("\t{}\x0b\x0c", t.join("\r\n")));
        }
    });
}

/// Every text one edit away from a valid text, with every character; two edits with a few characters.
fn edited(ctx: &Ctx, w: Which) {
    let extra = [
        "1999 Jan-08", "Jan-08 1999", "08-Jan_1999", "mon, 8.1.1999", "1999-060", "99-Jan-08", "12:30pm", "4 am", "12:34.5", "h04m05s06.7", "T23", "1999-01-08 h04m05", "J2451187.5",
        "jan 8 04:05:06 1999", "+3 days -04:05", "1-2 ago", "@ 5 us", "2 c 3 mil", "P1.5Y", "P1Y-2M", "PT1H.5S", "P1-2", "-1 2", "5.5", "1y 2mon 3w",
    ];
    let all: Vec<&str> = CORPUS.iter().copied().chain(extra).collect();
    let chars: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).chain(["\u{e9}".into()]).collect();
    let chars: Vec<&str> = chars.iter().map(|s| s.as_str()).collect();
    let few = ["0", "1", "9", "-", "+", ":", ".", "/", "_", ",", "~", " ", "P", "T", "d", "m", "s"];
    let short = ctx.pick(9usize, 14);
    let picked: Vec<&str> = all.iter().copied().filter(|t| t.len() <= short).collect();
    ctx.bound(format!(
        "reference reader: every single edit (insert, replace, delete, swap, cut) with each of {} characters of {} texts, every double edit with {} characters of {} texts",
        chars.len(), all.len(), few.len(), picked.len()
    ));
    ctx.par(all.len() as u64, 1, |l, i| edits(&chars_of(all[i as usize]), &chars, |x| compare(ctx, l, w, &x.concat())));
    let mut firsts: Vec<Vec<String>> = vec![];
    for t in &picked {
        edits(&chars_of(t), &few, |x| firsts.push(x));
    }
    firsts.sort();
    firsts.dedup();
    ctx.par(firsts.len() as u64, 4, |l, i| edits(&firsts[i as usize], &few, |x| compare(ctx, l, w, &x.concat())));
}

/// Texts with one hole, filled with every number in every width and with every short fraction.
fn holes(ctx: &Ctx, w: Which, templates: &[&str]) {
    let mut v: Vec<String> = vec![];
    for x in 0..ctx.pick(3000u32, 20_000) {
        v.push(x.to_string());
        for width in 2..=6usize {
            if x < 10u32.pow((width - 1) as u32) && x < 1000 {
                v.push(format!("{x:0width$}"));
            }
        }
    }
    for x in (3000..=10_000u32).step_by(50).chain((10_000..300_000).step_by(1001)).chain([9999, 10_001, 99_999, 100_000, 294_275, 294_276, 294_277, 5_874_897, 5_874_898, 19_990_108, 20_000_229]) {
        v.push(x.to_string());
    }
    ctx.bound(format!("reference reader: {} texts with a hole, filled with each of {} digit strings: {}", templates.len(), v.len(), templates.join(" | ")));
    let n = templates.len() as u64;
    ctx.par(v.len() as u64 * n, 128, |l, i| compare(ctx, l, w, &templates[(i % n) as usize].replace('#', &v[(i / n) as usize])));
}

const DATE_HOLES: [&str; 37] = [
    "y 1999 m 1 d 8 h 4 m #", "1999-01-08 h 4 m #", "1999-01-08 h4 m# s6",
    "#", "# bc", "#-01-08", "1999-#-08", "1999-02-#", "#/2/3", "1/#/3", "1/2/#", "1.#.99", "1999-#", "1999.#", "1999 # bc", "1999 Jan #", "Jan # 1999", "Jan 8 #", "# Feb 2000", "8-Jan-#", "Feb-#-2000", "y # m 1 d 8",
    "y1999 m# d8", "y 1999 m 2 d #", "y 1999 m 1 d 8 h #", "y1999 m1 d8 h4 mm#", "1999-01-08 h 4 mm 5 s #", "1999-01-08 #:05", "1999-01-08 04:#", "1999-01-08 04:05:#", "1999-01-08 04:05:06.#",
    "1999-01-08 #", "1999-01-08T#", "J#", "J 2451187.#", "# 04:05 mon jan 1999", "1999-01-08 04:#:06 pm",
];

pub fn dates(ctx: &Ctx) {
    edited(ctx, Dates);
    holes(ctx, Dates, &DATE_HOLES);
    strings(ctx, Dates, &ALPHA, ctx.pick(4, 5));
    strings(ctx, Dates, &["1", "2", "0", "9", "-", "/", ".", " ", "jan", "bc", "J", "T", ":", "3"], ctx.pick(5, 6));
    strings(ctx, Dates, &["1", "2", "0", "3", "6"], ctx.pick(8, 9));
    strings(ctx, Dates, &["1", "70", "30", "-", " ", "Feb"], ctx.pick(7, 8));
    fields(ctx, Dates, &TOKENS, 1, &[""]);
    fields(ctx, Dates, &TOKENS, 2, &[" ", "", ", ", "-", "/"]);
    fields(ctx, Dates, &TOKENS, 3, &[" ", ""]);
    let set = [
        "1", "29", "31", "70", "99", "060", "366", "1900", "2000", "010203", "19990108", "0405", "040506", "8.5", "040506.789", "99.1", "1999-02-28", "2/29/00", "08-Jan-99",
        "1999.060", "04:05:06.7", "24:00", "j", "2451187", "J2451187", "feb", "december", "mon", "bc", "ad", "am", "pm", "T", "at", "y", "m", "d", "h", "mm", "s", "infinity",
    ];
    fields(ctx, Dates, &set, ctx.pick(4, 4), if ctx.quick() { &[" "] } else { &[" ", "", "-", "."] });
    let set = ["1", "31", "69", "2000", "060", "feb", "jan", "bc", "04:05", "0405", "12", "pm", "y", "m", "d", "h", "s"];
    fields(ctx, Dates, &set, ctx.pick(5, 6), &[" "]);
}

pub fn times(ctx: &Ctx) {
    edited(ctx, Times);
    holes(
        ctx,
        Times,
        &[
            "#", "T#", "#:05", "04:#", "04:05:#", "04:05:06.#", "#:59:59 pm", "12:#am", "04:05.#", "# am", "12# pm", "#.5", "h #", "h# mm5 s6", "h 4 mm #", "h4 mm5 s#", "4 mm #", "1999-01-08 #", "1999-#-08 04:05",
            "Jan # 1999 04:05:06", "y # m 1 d 8 h 4", "d # h 4", "mm #", "s #", "h 4 m #", "h4 m# s6", "h # m 5", "#:#", "04:05 J#", "0405#", "235959.#",
        ],
    );
    ctx.bound("reference reader: a time before or after every day 1..31 of every month of 5 years, in all notations of dates");
    let years = ["1999", "2000", "0004", "99", "12345"];
    ctx.par(5 * 12 * 31, 1, |l, i| {
        let (y, m, d) = (years[(i % 5) as usize], (i / 5 % 12) as i64 + 1, (i / 60) as i64 + 1);
        for t in notations_of(y, m, d) {
            for x in [format!("{t} 04:05:06.7"), format!("12:30 pm {t}"), format!("{t} 040506"), format!("{t} bc 23:59:60"), format!("{t}T04"), format!("23:59 Mon {t}")] {
                compare(ctx, l, Times, &x);
            }
        }
    });
    strings(ctx, Times, &ALPHA, ctx.pick(4, 5));
    strings(ctx, Times, &["1", "2", "0", "5", "6", ":", ".", " "], ctx.pick(7, 8));
    strings(ctx, Times, &["12", "0", "59", "60", ":", ".", " ", "am", "pm", "T"], ctx.pick(6, 7));
    strings(ctx, Times, &["0", "1", "2", "5", "9"], ctx.pick(8, 9));
    fields(ctx, Times, &TOKENS, 1, &[""]);
    fields(ctx, Times, &TOKENS, 2, &[" ", "", ", ", "-", ":"]);
    fields(ctx, Times, &TOKENS, 3, &[" ", ""]);
    let set = [
        "0", "5", "12", "13", "59", "60", "5.25", ".5", "59.9999995", "0405", "1230", "040506", "235960", "040506.789", "235959.9999996", "04:05", "12:30", "23:59:60", "24:00:00",
        "24:00:00.000001", "04:05.6", "59:59.9999999", "1999-01-08", "8.1.1999", "jan", "mon", "bc", "am", "pm", "T", "at", "y", "m", "d", "h", "mm", "s", "J", "2451187.5",
    ];
    fields(ctx, Times, &set, 4, if ctx.quick() { &[" "] } else { &[" ", "", "-", "."] });
    let set = ["0", "5", "12", "24", "60", "5.5", "0405", "12:30", "am", "pm", "T", "y", "m", "h", "mm", "s"];
    fields(ctx, Times, &set, ctx.pick(5, 6), &[" "]);
}

pub fn intervals(ctx: &Ctx) {
    edited(ctx, Intervals);
    strings(ctx, Intervals, &ALPHA, ctx.pick(4, 5));
    strings(ctx, Intervals, &["1", "0", "5", "-", "+", ":", ".", " ", "d", "h", "m"], ctx.pick(6, 7));
    strings(ctx, Intervals, &["P", "T", "1", "2", "0", "-", ".", ":", "Y", "M", "D", "H", "S", "W"], ctx.pick(5, 6));
    // ISO durations by their pieces
    let p = ["-", ".5", "1", "10", "06", "0123", "19990203", "040506", "T", "Y", "M", "W", "D", "H", "S", ":"];
    ctx.bound("reference reader: P and every sequence of up to 5 (6) of 16 pieces of an ISO duration");
    let a = p.len() as u64;
    for len in 1..=ctx.pick(5u32, 6) {
        ctx.par(a.pow(len), 512, |l, i| {
            let mut s = String::from("P");
            let mut x = i;
            for _ in 0..len {
                s.push_str(p[(x % a) as usize]);
                x /= a;
            }
            compare(ctx, l, Intervals, &s);
        });
    }
    limits(ctx);
    let mut t: Vec<String> = "# | -# | 0.# | #.5 | 1-# | #-1 | #-11 | -#-5 | #:05 | 04:# | 04:05:# | 04:05:06.# | -04:#:06 | 1 #:2 | 1-2 3 #:05:06 | # 04:05 | # ago | 1 day -0.# | P#Y | P-1.#M | PT#H | PT4H#M5S | PT5.#S | P1-#-3 | P1-2-#T4:5:6 | P#-2-3T04:05:06 | P1-2-3T#:05:06 | P1-2-3T04:#:06 | P1-2-3T04:05:# | P#W | P0.#D | P1Y#M3D"
        .split(" | ")
        .map(String::from)
        .collect();
    for u in ["us", "ms", "s", "mins", "hour", "d", "weeks", "mon", "y", "dec", "c", "mil"] {
        t.extend([format!("# {u}"), format!("-0.# {u}"), format!("1.# {u} ago"), format!("1 y #{u} 04:05")]);
    }
    holes(ctx, Intervals, &t.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    fields(ctx, Intervals, &TOKENS, 1, &[""]);
    fields(ctx, Intervals, &TOKENS, 2, &[" ", "", ", ", "-", ":"]);
    fields(ctx, Intervals, &TOKENS, 3, &[" ", ""]);
    let set = [
        "1", "-2", "+3", "0", "0.5", "-1.25", ".1", "2.0000005", "1-2", "-1-2", "+0-11", "04:05", "-04:05:06.7", "+0:0:1", "12:34.5", "100000", "us", "ms", "sec", "min", "hours", "d",
        "weeks", "mon", "yrs", "decade", "c", "mil", "ago", "@", "quarter",
    ];
    fields(ctx, Intervals, &set, 4, if ctx.quick() { &[" "] } else { &[" ", ""] });
    let set = ["1", "-2", "0.7", "1-2", "-04:05", "1:02:03.4", "ms", "s", "m", "h", "d", "w", "mon", "y", "ago"];
    fields(ctx, Intervals, &set, ctx.pick(5, 6), &[" "]);
}

/// Two quantities whose sum lands around the limits of the parts.
fn limits(ctx: &Ctx) {
    // unit, its ISO letter (after T for clock units), and how many of it fill 31 bits of its part
    let units: [(&str, &str, i64); 13] = [
        ("years", "Y", 12), ("mons", "M", 1), ("decades", "", 120), ("centuries", "", 1200), ("mils", "", 12_000), ("weeks", "W", 7), ("days", "D", 1),
        ("hours", "TH", 1), ("mins", "TM", 1), ("secs", "TS", 1), ("ms", "", 1), ("us", "", 1), ("y", "", 10),
    ];
    let mut q: Vec<(usize, i64)> = vec![];
    for (k, u) in units.iter().enumerate() {
        let mut v = vec![0, 1, 4, 7, 8, 9, 11, 12];
        for e in -2..=2 {
            v.push((1i64 << 31) / u.2 + e);
            v.push((1i64 << 31) + e);
        }
        if k == 10 || k == 11 {
            let u = [1000, 1][k - 10];
            v.extend([i64::MAX / u, i64::MAX / u - 1, 9_223_372_036_854_775 / u, 1_495_000_000_000_000_000 / u]);
        }
        for x in dedup(v) {
            q.push((k, x));
            if x != 0 {
                q.push((k, -x));
            }
        }
    }
    ctx.bound(format!("reference reader: every pair of {} quantities around the limits of the parts, in words (also with ago), as SQL literals and as ISO durations", q.len()));
    let n = q.len() as u64;
    ctx.par(n * n, 128, |l, i| {
        let ((a, x), (b, y)) = (q[(i / n) as usize], q[(i % n) as usize]);
        let t = format!("{x} {} {y} {}", units[a].0, units[b].0);
        compare(ctx, l, Intervals, &t);
        compare(ctx, l, Intervals, &format!("{t} ago"));
        let (ia, ib) = (units[a].1, units[b].1);
        if !ia.is_empty() && !ib.is_empty() && a <= b {
            let p = match (ia.strip_prefix('T'), ib.strip_prefix('T')) {
                (Some(c), Some(d)) => format!("PT{x}{c}{y}{d}"),
                (None, Some(d)) => format!("P{x}{ia}T{y}{d}"),
                _ => format!("P{x}{ia}{y}{ib}"),
            };
            compare(ctx, l, Intervals, &p);
        }
        if a == 0 && b == 1 && y >= 0 {
            compare(ctx, l, Intervals, &format!("{x}-{y}"));
            compare(ctx, l, Intervals, &format!("P{x}-{y}-0T0:0:0"));
        }
        if a == 6 && b == 7 {
            for m in ["0", "59"] {
                compare(ctx, l, Intervals, &format!("{x} {y}:{m}"));
                compare(ctx, l, Intervals, &format!("{x} {y}:{m}:59.999999"));
                compare(ctx, l, Intervals, &format!("P0-0-{x}T{y}:{m}:00"));
            }
        }
    });
}

/// C24: any text under every field restriction and precision.
pub fn ranges(ctx: &Ctx) {
    let one = |l: &mut Loc, text: &str, masks: &[i32], precs: &[i32]| {
        l.st();
        let toks = rr::split(text);
        for s in ISTYLES {
            for &m in masks {
                let known = RANGES.iter().find(|r| r.0 == m);
                let read = |exact| rr::interval(text, toks.as_deref(), s, exact, m);
                let (e, mut b) = (read(true), None);
                for &p in precs {
                    let want = |r: &Out<Iv>| match (r, known) {
                        (Out::Ok(v), Some(k)) => {
                            let r = restrict(*v, k.1);
                            if p == 0xFFFF {
                                Out::Ok(r)
                            } else if !(0..=6).contains(&p) {
                                Out::Err
                            } else {
                                match i64::try_from(round_prec(r.2, p as usize)) {
                                    Ok(t) => Out::Ok((r.0, r.1, t)),
                                    Err(_) => Out::Err,
                                }
                            }
                        }
                        _ => Out::Err,
                    };
                    let tm = iv_typmod(m, p);
                    let got = iv_parse(text, tm, s);
                    l.tr(1);
                    let mut w = want(&e);
                    if w != got && text.contains('.') {
                        let w2 = want(b.get_or_insert_with(|| read(false)));
                        if w2 == got {
                            w = w2;
                            l.class("binary fraction");
                        }
                    }
                    if w != Out::Err {
                        l.class("accepted");
                    }
                    ctx.check(l, &got, &w, || vec![st!["iv.parse", text, tm, istyle_name(s)]]);
                }
            }
        }
    };
    let masks: Vec<i32> = RANGES.iter().map(|r| r.0).collect();
    let set = [
        "1", "-2", "+13", "0", "0.5", "-1.25", "2.0000005", "1.4999995", "1-2", "-1-2", "04:05", "-12:34", "04:05:06.7", "70:01", "12:34.5", "61", "99999", "ms", "s", "m", "h", "d", "w",
        "mon", "y", "c", "ago", "@", "p1", "t",
    ];
    for n in 1..=ctx.pick(3u32, 4) {
        ctx.bound(format!("reference reader: every sequence of {n} of {} fields x 14 restrictions x 4 styles x 4 precisions", set.len()));
        let a = set.len() as u64;
        ctx.par(a.pow(n), 64, |l, i| {
            let mut x = i;
            let mut t = Vec::new();
            for _ in 0..n {
                t.push(set[(x % a) as usize]);
                x /= a;
            }
            one(l, &t.join(" "), &masks, &[0xFFFF, 0, 3, 6]);
        });
    }
    let p = ["1", "-2", "0.5", "-", ":", "T", "Y", "M", "D", "H", "S", "W"];
    ctx.bound("reference reader: P and every sequence of up to 4 (5) of 12 pieces of an ISO duration x 14 restrictions x 4 styles");
    let a = p.len() as u64;
    for len in 1..=ctx.pick(4u32, 5) {
        ctx.par(a.pow(len), 256, |l, i| {
            let mut s = String::from("P");
            let mut x = i;
            for _ in 0..len {
                s.push_str(p[(x % a) as usize]);
                x /= a;
            }
            one(l, &s, &masks, &[0xFFFF, 0]);
        });
    }
    ctx.bound("reference reader: every clock time 0:0..99:99 of two and of three parts, every number 0..5000, every year-month 0-0..99-13, x 14 restrictions x 4 styles");
    ctx.par(10_000, 16, |l, i| {
        let (a, b) = (i / 100, i % 100);
        one(l, &format!("{a}:{b:02}"), &masks, &[0xFFFF]);
        one(l, &format!("-1 {a:02}:{b}:{:02}.5", (a + b) % 60), &masks, &[0xFFFF, 0]);
        one(l, &format!("1 {a:02}:{b:02}"), &masks, &[0xFFFF]);
        if b < 14 {
            one(l, &format!("-{a}-{b}"), &masks, &[0xFFFF]);
            one(l, &format!("{a}-{b} {b}"), &masks, &[0xFFFF]);
        }
        if i < 5000 {
            one(l, &format!("{i}"), &masks, &[0xFFFF]);
            one(l, &format!("-{a}.{b:02}"), &masks, &[0xFFFF, 0, 1]);
            one(l, &format!("1 2 {i}"), &masks, &[0xFFFF]);
        }
    });
    // a number and a clock time under every mask
    ctx.bound("reference reader: 8 texts x every one of the 32768 masks x precisions none, 0, 2, 7");
    ctx.par(0x8000, 64, |l, i| {
        for t in ["5", "-1.75", "1-2", "12:34", "1 2:03", "1 day 1", "P1Y2M3DT4H5M6.789S", "P1Y-2M-3DT-4H-5M-6.789S"] {
            one(l, t, &[i as i32], &[0xFFFF, 0, 2, 7]);
        }
    });
}
