//! C28: values made from raw numbers.
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;

fn raw_i32(ctx: &Ctx) -> Vec<i32> {
    let mut v = vec![];
    for c in [i32::MIN as i64, i32::MAX as i64, DATE_MIN, DATE_END, TS_END / DAY_US, 0, i32::MIN as i64 / 2, -(1 << 24), -10_000_000] {
        v.extend((c - 3..=c + 3).filter(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64).map(|x| x as i32));
    }
    for k in 0..31 {
        v.extend([1 << k, -(1 << k), (1 << k) - 1]);
    }
    for k in 1..ctx.pick(60i64, 1000) {
        v.extend([(DATE_MIN - k * k * 1_000_003 % 2_145_000_000) as i32, (DATE_END - 1 + (k * 60_001) % (i32::MAX as i64 - DATE_END + 1)) as i32]);
    }
    v.sort();
    v.dedup();
    v
}

fn raw_i64(ctx: &Ctx) -> Vec<i64> {
    let mut v = vec![];
    for k in 1..ctx.pick(60, 600i64) {
        v.extend([TS_MIN - k * k % 977 * 9_000_000_000_000_001, TS_END + k * k % 971 * 600_000_001]);
        v.extend([-(k * k * 25_000_000_000_000), k * k * 25_000_000_000_000 - 1]);
    }
    for c in [i64::MIN, i64::MAX, TS_MIN, TS_END, 0, DAY_US, -DAY_US, (1i64 << 31) * HOUR_US, -(1i64 << 31) * HOUR_US, i64::MIN / 2, (i32::MAX as i64) * US, (i32::MIN as i64) * US] {
        for d in [-HOUR_US, -US, -2, -1, 0, 1, 2, US, HOUR_US] {
            if let Some(x) = c.checked_add(d) {
                v.push(x);
            }
        }
    }
    for k in 0..63 {
        v.extend([1i64 << k, -(1i64 << k), (1i64 << k) - 1]);
    }
    v.sort();
    v.dedup();
    v
}

fn date_ok(d: i32) -> bool {
    d == i32::MIN || d == i32::MAX || (d as i64) >= DATE_MIN && (d as i64) < DATE_END
}
fn ts_ok(t: i64) -> bool {
    t == i64::MIN || t == i64::MAX || (TS_MIN..TS_END).contains(&t)
}

pub fn c28(ctx: &Ctx) {
    let (ds, ts) = (raw_i32(ctx), raw_i64(ctx));
    let ivs = few_ivs();
    ctx.bound(format!("{} raw dates, {} raw times and timestamps, in and out of range, x every operation; {} intervals, all pairs", ds.len(), ts.len(), ivs.len()));
    // no operation panics; a date or timestamp that comes out is in range, infinite or what went in
    macro_rules! total {
        ($l:expr, $g:expr, $step:expr) => {{
            $l.tr(1);
            let g = $g;
            ctx.ensure($l, !g.is_panic(), || vec![$step], || "a value or an error".into(), || g.show());
        }};
    }
    macro_rules! ranged {
        ($l:expr, $ok:expr, $g:expr, $step:expr) => {{
            $l.tr(1);
            let g = $g;
            let good = match &g {
                Out::Ok(v) => $ok(*v),
                Out::Err => true,
                _ => false,
            };
            ctx.ensure($l, good, || vec![$step], || "a value in range or an error".into(), || g.show());
        }};
    }
    let parts = |l: &mut Loc, f: &dyn Fn(bool, DateUnit) -> Out<f64>, step: &dyn Fn(bool, &str) -> Vec<String>| {
        for (n, u) in UNITS {
            for ep in [false, true] {
                l.tr(1);
                let g = f(ep, u);
                ctx.ensure(l, !g.is_panic(), || vec![step(ep, n)], || "a number or an error".into(), || g.show());
            }
        }
    };
    ctx.par(ds.len() as u64, 1, |l, i| {
        let d = ds[i as usize];
        l.st();
        let ok = date_ok(d);
        for s in STYLES {
            for o in ORDERS {
                l.tr(1);
                let g = date_format(d, s, o);
                ctx.ensure(l, matches!(g, Out::Ok(_)) == ok && !g.is_panic(), || vec![st!["date.format", d, style_name(s), order_name(o)]], || if ok { "a text" } else { "an error" }.into(), || g.show());
            }
        }
        parts(l, &|ep, u| date_part(d, ep, u), &|ep, n| st!["date.part", d, ep, n]);
        for (n, u) in UNITS {
            for ep in [false, true] {
                ranged!(l, date_ok, date_trunc(d, ep, u), st!["date.trunc", d, ep, n]);
            }
        }
        ranged!(l, |t| ts_ok(t) && ok, date_to_ts(d), st!["date.to_ts", d]);
        l.tr(1);
        let g = call(|| serde_json::to_string(&mkd(d)));
        ctx.ensure(l, matches!(g, Out::Ok(_)) == ok && !g.is_panic(), || vec![st!["serde", "date", d]], || if ok { "a text" } else { "an error" }.into(), || g.show());
        for &e in &ds {
            l.st();
            if d != i32::MIN && d != i32::MAX {
                let x = d as i64 + e as i64;
                l.tr(2);
                let w = |x: i64| if (DATE_MIN..DATE_END).contains(&x) { Out::Ok(x as i32) } else { Out::Err };
                ctx.check(l, &date_add_days(d, e), &w(x), || vec![st!["date.add_days", d, e]]);
                ctx.check(l, &date_sub_days(d, e), &w(d as i64 - e as i64), || vec![st!["date.sub_days", d, e]]);
                if e != i32::MIN && e != i32::MAX {
                    l.tr(1);
                    let w = i32::try_from(d as i64 - e as i64).map_or(Out::Err, Out::Ok);
                    ctx.check(l, &date_sub_date(d, e), &w, || vec![st!["date.sub_date", d, e]]);
                }
            } else {
                total!(l, date_add_days(d, e), st!["date.add_days", d, e]);
                total!(l, date_sub_days(d, e), st!["date.sub_days", d, e]);
            }
        }
        for &t in &ts {
            l.st();
            ranged!(l, ts_ok, date_add_time(d, t), st!["date.add_time", d, t]);
            total!(l, ts_sub_date(t, d), st!["ts.sub_date", t, d]);
        }
        for &v in &ivs {
            l.st();
            ranged!(l, ts_ok, date_add_iv(d, v), st!["date.add_iv", d, v.0, v.1, v.2]);
            ranged!(l, ts_ok, date_sub_iv(d, v), st!["date.sub_iv", d, v.0, v.1, v.2]);
        }
    });
    ctx.par(ts.len() as u64, 1, |l, i| {
        let t = ts[i as usize];
        l.st();
        for s in STYLES {
            for o in ORDERS {
                total!(l, ts_format(t, s, o), st!["ts.format", t, style_name(s), order_name(o)]);
            }
            total!(l, time_format(t, s), st!["time.format", t, style_name(s)]);
        }
        parts(l, &|ep, u| ts_part(t, ep, u), &|ep, n| st!["ts.part", t, ep, n]);
        parts(l, &|ep, u| time_part(t, ep, u), &|ep, n| st!["time.part", t, ep, n]);
        for (n, u) in UNITS {
            for ep in [false, true] {
                ranged!(l, |x| ts_ok(x) || !ts_ok(t), ts_trunc(t, ep, u), st!["ts.trunc", t, ep, n]);
                total!(l, time_trunc(t, ep, u), st!["time.trunc", t, ep, n]);
            }
        }
        total!(l, call(|| serde_json::to_string(&mkts(t))), st!["serde", "ts", t]);
        total!(l, call(|| serde_json::to_string(&mkt(t))), st!["serde", "time", t]);
        ranged!(l, date_ok, ts_to_date(t), st!["ts.to_date", t]);
        total!(l, ts_to_time(t), st!["ts.to_time", t]);
        total!(l, time_to_iv(t), st!["time.to_iv", t]);
        for &u in &ts {
            l.st();
            total!(l, ts_diff(t, u), st!["ts.diff", t, u]);
            total!(l, ts_age(t, u), st!["ts.age", t, u]);
            total!(l, time_sub_time(t, u), st!["time.sub_time", t, u]);
            ranged!(l, ts_ok, ts_add_time(t, u), st!["ts.add_time", t, u]);
            ranged!(l, ts_ok, ts_sub_time(t, u), st!["ts.sub_time", t, u]);
        }
        for &v in &ivs {
            l.st();
            ranged!(l, ts_ok, ts_add(t, v), st!["ts.add", t, v.0, v.1, v.2]);
            ranged!(l, ts_ok, ts_sub(t, v), st!["ts.sub", t, v.0, v.1, v.2]);
            ranged!(l, |x| (0..DAY_US).contains(&x), time_add(t, v), st!["time.add", t, v.0, v.1, v.2]);
            ranged!(l, |x| (0..DAY_US).contains(&x), time_sub(t, v), st!["time.sub", t, v.0, v.1, v.2]);
        }
    });
}
