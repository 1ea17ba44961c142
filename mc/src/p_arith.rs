//! C11, C12 timestamp arithmetic; C14 time of day; C15-C17 intervals; C18 orders; C26 constructors.
use crate::api::*;
use crate::dom::*;
use crate::fw::*;
use crate::refm::*;
use crate::st;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn o<T>(x: Option<T>) -> Out<T> {
    match x {
        Some(v) => Out::Ok(v),
        None => Out::Err,
    }
}

// ------------------------------------------------------------------ C11

fn shift(ctx: &Ctx, l: &mut Loc, t: i64, v: Iv) {
    l.st();
    l.tr(2);
    let g = ts_add(t, v);
    ctx.check(l, &g, &o(r_ts_add(t, v)), || vec![st!["ts.add", t, v.0, v.1, v.2]]);
    let g = ts_sub(t, v);
    ctx.check(l, &g, &o(r_ts_sub(t, v)), || vec![st!["ts.sub", t, v.0, v.1, v.2]]);
}

fn shift_date(ctx: &Ctx, l: &mut Loc, d: i64, v: Iv) {
    l.st();
    l.tr(2);
    let base = if d < TS_DAY_END { Some(d * DAY_US) } else { None };
    let g = date_add_iv(d as i32, v);
    ctx.check(l, &g, &o(base.and_then(|t| r_ts_add(t, v))), || {
        vec![st!["date.add_iv", d, v.0, v.1, v.2]]
    });
    let g = date_sub_iv(d as i32, v);
    ctx.check(l, &g, &o(base.and_then(|t| r_ts_sub(t, v))), || {
        vec![st!["date.sub_iv", d, v.0, v.1, v.2]]
    });
}

pub fn c11(ctx: &Ctx) {
    let ts = few_ts();
    let ivs = few_ivs();
    ctx.bound(format!("{} timestamps x {} intervals (10 month x 9 day x 9 time parts, signs mixed, extremes), both directions", ts.len(), ivs.len()));
    let dims = [ts.len() as u64, ivs.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        shift(ctx, l, ts[a], ivs[b]);
    });
    // every month shift from boundary days
    let fd = few_days(true);
    let mrange = ctx.pick(600_000i64, 3_600_000);
    ctx.bound(format!("{} days (with two times of day) x every month shift -{mrange}..{mrange}", fd.len()));
    let dims = [fd.len() as u64, 2 * mrange as u64 + 1];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        let m = b as i64 - mrange;
        shift(ctx, l, fd[a] * DAY_US + if m % 2 == 0 { 0 } else { DAY_US - 1 }, (m as i32, 0, 0));
    });
    // every day of leap / common / century years x month shifts: the clamping rule
    let mut cl = vec![];
    for y in [-4712i64, -400, -100, -4, -1, 0, 1, 1900, 1999, 2000, 2001, 2004, 2100, 9999, 294_275] {
        for n in days(y, 1, 1)..days(y + 1, 1, 1) {
            cl.push(n);
        }
    }
    let w = ctx.pick(300i64, 1300);
    ctx.bound(format!("every day of 15 years x every month shift -{w}..{w}"));
    let dims = [cl.len() as u64, 2 * w as u64 + 1];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b] = digits(i, dims);
        shift(ctx, l, cl[a] * DAY_US + 12 * HOUR_US, ((b as i64 - w) as i32, 0, 0));
    });
    let dw = 6;
    let dims = [cl.len() as u64, 9, 2 * dw + 1, 3];
    ctx.bound("every day of those years x month shifts -14..14 (9 values) x day shifts -6..6 x time part -1 us, 0, 36 h");
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, d] = digits(i, dims);
        let m = [-14, -12, -3, -1, 0, 1, 2, 11, 14][b];
        shift(ctx, l, cl[a] * DAY_US + 1, (m, c as i32 - dw as i32, [-1, 0, 36 * HOUR_US][d]));
    });
    // every boundary day x boundary shifts
    let kd = key_days(ctx, true);
    let is = i32s();
    ctx.bound(format!("{} boundary days x {} boundary month counts and day counts", kd.len(), is.len()));
    let dims = [kd.len() as u64, is.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        shift(ctx, l, kd[a] * DAY_US + 1, (is[b], 0, 0));
        shift(ctx, l, kd[a] * DAY_US + DAY_US - 1, (0, is[b], 0));
    });
    let times = i64s();
    ctx.bound(format!("{} timestamps x {} boundary time parts", ts.len(), times.len()));
    let dims = [ts.len() as u64, times.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        shift(ctx, l, ts[a], (0, 0, times[b]));
        shift(ctx, l, ts[a], (1, -1, times[b]));
    });
    // day shifts in the large, from both ends
    let n = ctx.pick(500_000u64, (TS_DAY_END - DATE_MIN) as u64 + 10);
    ctx.bound(format!("every day shift 0..{n} up from the first and down from the last timestamp"));
    ctx.par(n, 16_384, |l, i| {
        shift(ctx, l, TS_MIN + 5, (0, i as i32, 0));
        shift(ctx, l, TS_END - 5, (0, -(i as i32), 0));
    });
    // landing exactly on the range ends, by each part
    ctx.bound("from every timestamp: shifts landing exactly on, and one step outside, both range ends, by day and by time part");
    ctx.par(ts.len() as u64, 8, |l, i| {
        let t = ts[i as usize];
        for e in [TS_MIN as i128, TS_END as i128 - 1] {
            for k in [-1i128, 0, 1] {
                let target = e + k;
                let d = target - t as i128;
                if let Ok(d64) = i64::try_from(d) {
                    shift(ctx, l, t, (0, 0, d64));
                    shift(ctx, l, t, (0, 0, -d64));
                }
                let dd = d.div_euclid(DAY_US as i128);
                let rest = d.rem_euclid(DAY_US as i128);
                shift(ctx, l, t, (0, dd as i32, rest as i64));
                shift(ctx, l, t, (0, dd as i32 + 1, rest as i64 - DAY_US));
                shift(ctx, l, t, (0, dd as i32 - 1, rest as i64 + DAY_US));
            }
        }
    });
    // dates and times as operands
    let ds = few_days(false);
    ctx.bound(format!("{} dates x {} intervals", ds.len(), ivs.len()));
    let dims = [ds.len() as u64, ivs.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        shift_date(ctx, l, ds[a], ivs[b]);
    });
    let dims = [ds.len() as u64, is.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        shift_date(ctx, l, ds[a], (is[b], 0, 0));
        shift_date(ctx, l, ds[a], (0, is[b], 0));
    });
    let mut tt = few_tods();
    tt.push(DAY_US);
    let dims = [ts.len() as u64, tt.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b] = digits(i, dims);
        let (t, x) = (ts[a], tt[b]);
        l.st();
        l.tr(2);
        let g = ts_add_time(t, x);
        ctx.check(l, &g, &o(r_ts_add(t, (0, 0, x))), || vec![st!["ts.add_time", t, x]]);
        let g = ts_sub_time(t, x);
        ctx.check(l, &g, &o(r_ts_add(t, (0, 0, -x))), || vec![st!["ts.sub_time", t, x]]);
    });
    ctx.sample(|| format!("2001-05-31 + 1 mon -> {:?}", ts_add(days(2001, 5, 31) * DAY_US, (1, 0, 0))));
    ctx.sample(|| format!("first - 1 day -> {:?}", ts_add(TS_MIN, (0, -1, 0))));
}

// ------------------------------------------------------------------ C12

fn diff(ctx: &Ctx, l: &mut Loc, a: i64, b: i64) {
    l.st();
    l.tr(2);
    let g = ts_diff(a, b);
    let want = o(r_ts_diff(a, b));
    if ctx.check(l, &g, &want, || vec![st!["ts.diff", a, b]]) {
        if let Out::Ok(v) = g {
            l.tr(1);
            let back = ts_add(b, v);
            ctx.check(l, &back, &Out::Ok(a), || vec![st!["ts.diff", a, b], st!["ts.add", b, v.0, v.1, v.2]]);
        }
    }
    let g = ts_age(a, b);
    ctx.check(l, &g, &Out::Ok(r_ts_age(a, b)), || vec![st!["ts.age", a, b]]);
}

pub fn c12(ctx: &Ctx) {
    let ts = few_ts();
    ctx.bound(format!("all pairs of {} timestamps", ts.len()));
    let dims = [ts.len() as u64, ts.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b] = digits(i, dims);
        diff(ctx, l, ts[a], ts[b]);
    });
    let mut kd = key_days(ctx, true);
    if !ctx.quick() {
        kd.retain(|n| n % 3 != 1);
    }
    ctx.bound(format!("all pairs of {} boundary days at different times of day", kd.len()));
    let dims = [kd.len() as u64, kd.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b] = digits(i, dims);
        let tb = [0, 1, DAY_US / 2, DAY_US - 1][(a + b) % 4];
        diff(ctx, l, kd[a] * DAY_US + DAY_US / 2, kd[b] * DAY_US + tb);
    });
    let years: &[i64] = ctx.pick(&[-1, 1999][..], &[-4713, -401, -101, -1, 99, 1899, 1999, 2099, 294_272][..]);
    let years = if ctx.deep() { &[-4713, -401, -9, 1897, 1995, 294_264][..] } else { years };
    let len = ctx.pick3(1096u64, 1461, 4383);
    ctx.bound(format!("all pairs of days in {len}-day windows at {} places x 3 time-of-day pairs", years.len()));
    let dims = [years.len() as u64, len, len, 3];
    ctx.par(product(dims), 8192, |l, i| {
        let [y, a, b, c] = digits(i, dims);
        let s = days(years[y], 11, 25);
        let (t1, t2) = [(0, 0), (HOUR_US, 2 * HOUR_US), (DAY_US - 1, 1)][c];
        diff(ctx, l, (s + a as i64) * DAY_US + t1, (s + b as i64) * DAY_US + t2);
    });
    let td = tods(ctx);
    let tn = td.len().min(ctx.pick3(1280, 3840, 20_000));
    ctx.bound(format!("all pairs of {tn} times of day, same day and 29 Feb to 1 March 4 years apart"));
    let dims = [tn as u64, tn as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        diff(ctx, l, td[a], td[b]);
        diff(ctx, l, days(2004, 3, 1) * DAY_US + td[a], days(2000, 2, 29) * DAY_US + td[b]);
    });
    let ds = few_days(false);
    ctx.bound(format!("{} timestamps minus {} dates", ts.len(), ds.len()));
    let dims = [ts.len() as u64, ds.len() as u64];
    ctx.par(product(dims), 512, |l, i| {
        let [a, b] = digits(i, dims);
        let (t, d) = (ts[a], ds[b]);
        let want = if d < TS_DAY_END { o(r_ts_diff(t, d * DAY_US)) } else { Out::Err };
        l.st();
        l.tr(1);
        let g = ts_sub_date(t, d as i32);
        ctx.check(l, &g, &want, || vec![st!["ts.sub_date", t, d]]);
    });
    ctx.sample(|| format!("age(2000-03-01, 2000-01-30) -> {:?}", ts_age(days(2000, 3, 1) * DAY_US, days(2000, 1, 30) * DAY_US)));
    ctx.sample(|| format!("last - first -> {:?}", ts_diff(TS_END - 1, TS_MIN)));
}

// ------------------------------------------------------------------ C14

pub fn c14(ctx: &Ctx) {
    let mut td = tods(ctx);
    td.push(DAY_US);
    let mut big = i64s();
    for k in -3i64..=3 {
        for e in [-HOUR_US, -1, 0, 1, 7 * HOUR_US + 1] {
            big.push(k * DAY_US + e);
        }
    }
    for t in few_tods() {
        for m in [i64::MAX / DAY_US * DAY_US, i64::MIN / DAY_US * DAY_US] {
            big.push(m.saturating_add(t));
            big.push(m.saturating_sub(t));
        }
    }
    let big = dedup(big);
    ctx.bound(format!("{} times of day x {} interval time parts (extremes included), both directions", td.len(), big.len()));
    let dims = [td.len() as u64, big.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b] = digits(i, dims);
        one_tod(ctx, l, td[a], (0, 0, big[b]));
    });
    let ft = few_tods();
    let is = few_i32s();
    ctx.bound(format!("{} times x {}^2 month/day parts (ignored) x 5 time parts", ft.len(), is.len()));
    let dims = [ft.len() as u64, is.len() as u64, is.len() as u64, 5];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, d] = digits(i, dims);
        one_tod(ctx, l, ft[a], (is[b], is[c], [0, 1, -DAY_US - 1, i64::MAX, i64::MIN][d]));
    });
    // every second-sized step through several days
    let n = ctx.pick3(4 * 86_400u64, 40 * 86_400, 2000 * 86_400);
    ctx.bound(format!("every time part of -{0}..{0} seconds from 3 times", n / 2));
    ctx.par(n, 4096, |l, i| {
        let s = i as i64 - n as i64 / 2;
        for t in [0, 12 * HOUR_US + 1, DAY_US] {
            one_tod(ctx, l, t, (0, 0, s * US + s % US));
        }
    });
    ctx.bound(format!("all pairs of {} times subtracted", td.len()));
    let dims = [td.len() as u64, td.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        l.st();
        l.tr(1);
        let g = time_sub_time(td[a], td[b]);
        ctx.check(l, &g, &Out::Ok((0, 0, td[a] - td[b])), || vec![st!["time.sub_time", td[a], td[b]]]);
    });
    ctx.sample(|| format!("23:00 + 2 h -> {:?}", time_add(23 * HOUR_US, (0, 0, 2 * HOUR_US))));
    ctx.sample(|| format!("00:00 - 1 us -> {:?}", time_sub(0, (0, 0, 1))));
}

fn one_tod(ctx: &Ctx, l: &mut Loc, t: i64, v: Iv) {
    l.st();
    l.tr(2);
    let g = time_add(t, v);
    ctx.check(l, &g, &Out::Ok(time_mod(t as i128 + v.2 as i128)), || vec![st!["time.add", t, v.0, v.1, v.2]]);
    let g = time_sub(t, v);
    ctx.check(l, &g, &Out::Ok(time_mod(t as i128 - v.2 as i128)), || vec![st!["time.sub", t, v.0, v.1, v.2]]);
}

// ------------------------------------------------------------------ C15

fn iv_pair(ctx: &Ctx, l: &mut Loc, a: Iv, b: Iv) {
    l.st();
    l.tr(2);
    let g = iv_add(a, b);
    let ok = ctx.check(l, &g, &o(r_iv_add(a, b)), || vec![st!["iv.add", a.0, a.1, a.2, b.0, b.1, b.2]]);
    if ok {
        if let Out::Ok(s) = g {
            l.tr(1);
            let back = iv_sub(s, b);
            ctx.check(l, &back, &Out::Ok(a), || {
                vec![st!["iv.add", a.0, a.1, a.2, b.0, b.1, b.2], st!["iv.sub", s.0, s.1, s.2, b.0, b.1, b.2]]
            });
            let op = call1(|| parts(mkiv(a) + mkiv(b)));
            ctx.check(l, &op, &Out::Ok(s), || vec![st!["iv.add", a.0, a.1, a.2, b.0, b.1, b.2], st!["operator +"]]);
        }
    }
    let g = iv_sub(a, b);
    ctx.check(l, &g, &o(r_iv_sub(a, b)), || vec![st!["iv.sub", a.0, a.1, a.2, b.0, b.1, b.2]]);
}

fn iv_one(ctx: &Ctx, l: &mut Loc, a: Iv) {
    l.st();
    l.tr(1);
    let g = iv_neg(a);
    if ctx.check(l, &g, &o(r_iv_neg(a)), || vec![st!["iv.neg", a.0, a.1, a.2]]) {
        if let Out::Ok(n) = g {
            l.tr(1);
            let back = iv_neg(n);
            ctx.check(l, &back, &Out::Ok(a), || vec![st!["iv.neg", a.0, a.1, a.2], st!["iv.neg", n.0, n.1, n.2]]);
        }
    }
}

pub fn c15(ctx: &Ctx) {
    let ivs = few_ivs();
    ctx.bound(format!("all pairs of {} intervals", ivs.len()));
    let dims = [ivs.len() as u64, ivs.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b] = digits(i, dims);
        iv_pair(ctx, l, ivs[a], ivs[b]);
    });
    let is = i32s();
    let ls = i64s();
    ctx.bound(format!("all pairs of {} values in each of months and days; all pairs of {} in time", is.len(), ls.len()));
    let dims = [is.len() as u64, is.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b] = digits(i, dims);
        iv_pair(ctx, l, (is[a], 0, 1), (is[b], 5, 0));
        iv_pair(ctx, l, (3, is[a], 1), (0, is[b], -7));
    });
    let dims = [ls.len() as u64, ls.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b] = digits(i, dims);
        iv_pair(ctx, l, (1, 2, ls[a]), (3, -4, ls[b]));
    });
    // sums that land within 2 of each limit
    ctx.bound("sums and differences landing within 2 of each part's limits");
    ctx.seq(|l| {
        for &x in &is {
            for k in -2i64..=2 {
                for lim in [i32::MIN as i64, i32::MAX as i64] {
                    for y in [lim + k - x as i64, x as i64 - (lim + k)] {
                        if let Ok(y) = i32::try_from(y) {
                            iv_pair(ctx, l, (x, 0, 0), (y, 0, 0));
                            iv_pair(ctx, l, (0, x, 0), (0, y, 0));
                        }
                    }
                }
            }
        }
        for &x in &ls {
            for k in -2i128..=2 {
                for lim in [i64::MIN as i128, i64::MAX as i128] {
                    for y in [lim + k - x as i128, x as i128 - (lim + k)] {
                        if let Ok(y) = i64::try_from(y) {
                            iv_pair(ctx, l, (0, 0, x), (0, 0, y));
                        }
                    }
                }
            }
        }
    });
    ctx.bound(format!("negation of {} intervals", is.len() * is.len() * ls.len()));
    let dims = [is.len() as u64, is.len() as u64, ls.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c] = digits(i, dims);
        iv_one(ctx, l, (is[a], is[b], ls[c]));
    });
    ctx.sample(|| format!("-(MIN,0,0) -> {:?}", iv_neg((i32::MIN, 0, 0))));
    ctx.sample(|| format!("(1,2,3)-(4,5,6) -> {:?}", iv_sub((1, 2, 3), (4, 5, 6))));
}

// ------------------------------------------------------------------ C16

/// Exact value of a finite f64 as mantissa * 2^exp.
fn decompose(f: f64) -> (i128, i32) {
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    (if f < 0.0 { -m } else { m }, e)
}

/// x * f (or x / f) in extended precision: double-double is enough for |x| < 2^110.
#[derive(Clone, Copy, Debug)]
struct Dd(f64, f64);
impl Dd {
    fn of_i128(x: i128) -> Dd {
        let h = x as f64;
        // h may be 2^127-ish, never here
        let l = (x - h as i128) as f64;
        Dd(h, l)
    }
    fn norm(a: f64, b: f64) -> Dd {
        let s = a + b;
        let bb = s - a;
        Dd(s, (a - (s - bb)) + (b - bb))
    }
    fn add(self, o: Dd) -> Dd {
        let s = Dd::norm(self.0, o.0);
        let t = Dd::norm(self.1, o.1);
        let c = Dd::norm(s.0, s.1 + t.0);
        Dd::norm(c.0, c.1 + t.1)
    }
    fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
    fn mul_f(self, f: f64) -> Dd {
        let p = self.0 * f;
        let e = self.0.mul_add(f, -p);
        Dd::norm(p, e + self.1 * f)
    }
    fn div_f(self, f: f64) -> Dd {
        let q = self.0 / f;
        let r = self.add(Dd(q, 0.0).mul_f(f).neg());
        Dd::norm(q, (r.0 + r.1) / f)
    }
    fn val(self) -> f64 {
        self.0 + self.1
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Mul,
    Div,
}

/// Judges one scaling result.  The parts that are exact are compared exactly; the time part is
/// bounded by the rounding of the documented cascade.
fn scale(ctx: &Ctx, l: &mut Loc, v: Iv, f: f64, op: Op) {
    l.st();
    l.tr(1);
    let (name, got) = match op {
        Op::Mul => ("iv.mul", iv_mul(v, f)),
        Op::Div => ("iv.div", iv_div(v, f)),
    };
    let steps = || vec![st![name, v.0, v.1, v.2, f]];
    let sc = |x: i128| {
        let d = Dd::of_i128(x);
        match op {
            Op::Mul => d.mul_f(f),
            Op::Div => d.div_f(f),
        }
    };
    if let Out::Panic(p) = &got {
        l.cmp();
        ctx.fail(steps(), "a result or an error", format!("panic: {p}"));
        return;
    }
    if f.is_nan() || (op == Op::Div && f == 0.0) {
        ctx.check(l, &got, &Out::Err, steps);
        return;
    }
    if f.is_infinite() {
        if op == Op::Mul {
            // 0 * infinity is undefined, anything else does not fit
            ctx.check(l, &got, &Out::Err, steps);
        } else {
            ctx.check(l, &got, &Out::Ok((0, 0, 0)), steps);
        }
        return;
    }
    // the sign goes through: of the interval, and of the factor
    if let Out::Ok(r) = &got {
        let near = |x: Iv| x.0.unsigned_abs() > i32::MAX as u32 - 40 || x.1.unsigned_abs() > i32::MAX as u32 - 40 || x.2.unsigned_abs() > i64::MAX as u64 - (1 << 40);
        if !near(*r) && !near(v) {
            let neg = |x: Iv| (-x.0, -x.1, -x.2);
            let run = |v: Iv, f: f64| if op == Op::Mul { iv_mul(v, f) } else { iv_div(v, f) };
            for (w, g) in [(neg(v), f), (v, -f)] {
                l.tr(1);
                ctx.check(l, &run(w, g), &Out::Ok(neg(*r)), || vec![st![name, v.0, v.1, v.2, f], st![name, w.0, w.1, w.2, g]]);
            }
        }
    }
    // whole factors (and exact quotients) are exact part by part, up to the very limits
    let exact = |x: i128| -> Option<i128> {
        if f.fract() != 0.0 || f.abs() > 9e15 {
            return None;
        }
        let k = f as i128;
        match op {
            Op::Mul => x.checked_mul(k),
            Op::Div if x % k == 0 => Some(x / k),
            _ => None,
        }
    };
    if let (Some(a), Some(b), Some(c)) = (exact(v.0 as i128), exact(v.1 as i128), exact(v.2 as i128)) {
        if c.abs() < (1 << 53) && (v.2 as i128).abs() < (1 << 53) {
            l.class("exact");
            ctx.check(l, &got, &o(iv_mk(a, b, c)), steps);
            return;
        }
    }
    let (em, ed, et) = (sc(v.0 as i128), sc(v.1 as i128), sc(v.2 as i128));
    let day = DAY_US as f64;
    // Which results fit: decided with a margin of one month, two days and two days of time around
    // the limits, inside of which either answer is accepted.
    let (m, d, t) = (em.val(), ed.val(), et.val());
    let (lim32, lim64) = (2147483648.0f64, 9223372036854775808.0f64);
    let out = m.abs() >= lim32 + 1.0 || d.abs() >= lim32 + 33.0 || t.abs() >= lim64 + 3.0 * day;
    let inside = m.abs() < lim32 - 1.0 && d.abs() < lim32 - 33.0 && t.abs() < lim64 - 3.0 * day;
    match &got {
        Out::Err => {
            l.cmp();
            l.class("rejected");
            if inside {
                ctx.fail(steps(), format!("about ({m}, {d}, {t})"), "Err".to_string());
            }
        }
        Out::Ok(r) => {
            l.class("scaled");
            l.cmp();
            if out {
                ctx.fail(steps(), "an overflow error".to_string(), got.show());
                return;
            }
            // whole months are kept (a product within rounding of an integer may count as it)
            let mr = r.0 as f64;
            let tol_m = m.abs() * 1e-15 + 1e-12;
            let ok_m = (mr - m).abs() < 1.0 + tol_m && mr.abs() <= m.abs() + tol_m && mr * m >= 0.0;
            // total length
            let tot = sc(iv_total(v));
            let rt = Dd::of_i128(iv_total(*r));
            let err = rt.add(tot.neg()).val();
            // a fraction of a month is kept to a millionth of a day, the time product to a
            // microsecond or the precision of the number
            let fm = (m - mr) != 0.0;
            let tol = (if fm { 43_200.5 + 0.6 } else { 1.1 })
                + t.abs() * 4e-16
                + (d.abs() + 30.0 * m.abs()) * day * 4e-16;
            // days hold the whole days, the time part the fractions of a day
            let spill = Dd::of_i128(r.2 as i128).add(et.neg()).val();
            // (the fractions that go down are kept to a microsecond, so less than a day of them
            // means at most a day less a microsecond, plus the rounding of the time product)
            let ok_t = spill.abs() <= day - 0.4 + t.abs() * 4e-16;
            // fractions go down with the sign of what they come from
            let frac_m_days = ((m - mr) * 30.0).trunc();
            let ok_d = (r.1 as f64 - d).abs() < 32.0 + d.abs() * 4e-16
                && ((r.1 as f64 - d) - frac_m_days).abs() <= 2.0 + d.abs() * 4e-16 + m.abs() * 1e-14;
            if !(ok_m && ok_t && ok_d && err.abs() <= tol) {
                ctx.fail(
                    steps(),
                    format!("months {m}, days {d}, time {t} scaled, total error <= {tol} us"),
                    format!("{:?}, total error {err} us, ok_m={ok_m} ok_d={ok_d} ok_t={ok_t}", r),
                );
                return;
            }
        }
        Out::Panic(_) => unreachable!(),
    }
}

/// The documented cascade over exact rationals: months keep their whole part, the fraction of a
/// month times 30 (to a millionth of a day) and the fraction of a day go down, a whole day of them
/// is carried back into the days.  `None` where a rounding tie or a limit makes it undecided.
fn cascade(v: Iv, n: i128, den: i128) -> Option<Iv> {
    let (n, den) = if den < 0 { (-n, -den) } else { (n, den) };
    // round x/y, undecided close to a tie
    let round = |x: i128, y: i128| -> Option<i128> {
        let (q, r) = (x.div_euclid(y), x.rem_euclid(y));
        if (2 * r - y).abs() * 50 < y {
            return None;
        }
        Some(if 2 * r > y { q + 1 } else { q })
    };
    let (m, d, t) = (v.0 as i128 * n, v.1 as i128 * n, v.2 as i128 * n);
    let mon = m / den;
    let frac_m = m % den;
    let micro_days = round(frac_m * 30 * 1_000_000, den)?;
    let whole = d / den;
    // fraction of a day of both, over den * 1e6
    let frac = (d % den) * 1_000_000 + (micro_days % 1_000_000) * den;
    let us = round(frac * DAY_US as i128, den * 1_000_000)?;
    let day = whole + micro_days / 1_000_000 + us / DAY_US as i128;
    let time = round(t + (us % DAY_US as i128) * den, den)?;
    iv_mk(mon, day, time)
}

fn scale_exact(ctx: &Ctx, l: &mut Loc, v: Iv, n: i128, den: i128, f: f64, op: Op) {
    let w = if op == Op::Mul { cascade(v, n, den) } else { cascade(v, den, n) };
    let Some(w) = w else { return };
    l.st();
    l.tr(1);
    l.class("cascade");
    let (name, got) = match op {
        Op::Mul => ("iv.mul", iv_mul(v, f)),
        Op::Div => ("iv.div", iv_div(v, f)),
    };
    ctx.check(l, &got, &Out::Ok(w), || vec![st![name, v.0, v.1, v.2, f]]);
}

pub fn c16(ctx: &Ctx) {
    ctx.assume("a fraction of a month may be rounded to a millionth of a day (43.2 ms), as the cascade documents; results within 33 days of a limit may count as fitting or not, unless every part is exact");
    let ivs = few_ivs();
    let mut fs: Vec<f64> = vec![
        0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 7.0, 10.0, -12.0, 60.0, 1000.0, 86_400.0, 0.5, -0.5, 0.1, -0.1, 0.25, 1.5,
        -1.5, 0.3, 1.0 / 3.0, 2.0 / 3.0, 0.9, 0.99, 0.999_999, 1.000_001, 1.1, 8.1, -8.1, 30.4375, 3.3, 413.3, 1e-3,
        1e-6, 1e-9, 1e-300, 5e-324, 1e3, 1e6, 1e9, 2_147_483_647.0, 2_147_483_648.0, -2_147_483_648.0, 1e10, 1e15, 1e18,
        9.3e18, -9.3e18, 1e100, 1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0 - f64::EPSILON,
        1.0 + f64::EPSILON,
    ];
    if !ctx.quick() {
        for k in 1..=400 {
            fs.push(k as f64);
            fs.push(k as f64 / 7.0);
            fs.push(-(k as f64) / 100.0);
            fs.push(1.0 / k as f64);
        }
    }
    ctx.bound(format!("{} intervals x {} factors (zero, negative, fractional, tiny, huge, infinite, NaN), multiplied and divided", ivs.len(), fs.len()));
    let dims = [ivs.len() as u64, fs.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b] = digits(i, dims);
        scale(ctx, l, ivs[a], fs[b], Op::Mul);
        scale(ctx, l, ivs[a], fs[b], Op::Div);
    });
    // small parts x all small factors
    let q = ctx.pick3(24i64, 120, 1000);
    ctx.bound(format!("months -13..13 x days -33..33 (every 3rd) x 4 times x factors k/8 and k/10 and whole k, |k| <= {q}"));
    let dims = [27, 23, 4, (2 * q + 1) as u64, 3];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, k, w] = digits(i, dims);
        let v = (a as i32 - 13, (b as i32 - 11) * 3, [0, 1, -5 * HOUR_US - 1, 40 * HOUR_US][c]);
        let k = (k as i64 - q) as f64;
        let f = [k, k / 8.0, k / 10.0][w];
        scale(ctx, l, v, f, Op::Mul);
        scale(ctx, l, v, f, Op::Div);
        if w < 2 && k != 0.0 {
            let den = [1, 8][w];
            scale_exact(ctx, l, v, k as i128, den, f, Op::Mul);
            scale_exact(ctx, l, v, k as i128, den, f, Op::Div);
        }
    });
    // every remainder of months and days by small divisors
    let (qm, qd, qk) = ctx.pick3((13i32, 32i32, 13i128), (25, 63, 41), (61, 127, 211));
    ctx.bound(format!("months -{qm}..{qm} x days -{qd}..{qd} x 4 times divided by 1..{qk} and multiplied by n/4, against the exact cascade"));
    let dims = [(2 * qm + 1) as u64, (2 * qd + 1) as u64, 4, qk as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b, c, k] = digits(i, dims);
        let v = (a as i32 - qm, b as i32 - qd, [0, 1, -7 * HOUR_US - 3, 23 * HOUR_US + 59][c]);
        let k = k as i128 + 1;
        scale_exact(ctx, l, v, k, 1, k as f64, Op::Div);
        scale_exact(ctx, l, v, -k, 1, -k as f64, Op::Div);
        scale_exact(ctx, l, v, k, 4, k as f64 / 4.0, Op::Mul);
    });
    // around the limits
    let is = i32s();
    let ls = i64s();
    let lf = [1.0, -1.0, 1.5, 2.0, 0.999, -1.000_000_1, 3.0, 1e3, 0.5, 12.7];
    ctx.bound(format!("{} month, day and {} time values x 10 factors", is.len(), ls.len()));
    let dims = [is.len() as u64, ls.len() as u64, lf.len() as u64];
    ctx.par(product(dims), 1024, |l, i| {
        let [a, b, c] = digits(i, dims);
        for op in [Op::Mul, Op::Div] {
            scale(ctx, l, (is[a], 0, ls[b]), lf[c], op);
            scale(ctx, l, (0, is[a], ls[b]), lf[c], op);
            scale(ctx, l, (is[a], is[is.len() - 1 - a], ls[b]), lf[c], op);
        }
    });
    let _ = decompose(1.0);
    ctx.sample(|| format!("(1,0,0)*0.5 -> {:?}", iv_mul((1, 0, 0), 0.5)));
    ctx.sample(|| format!("(0,1,0)/3 -> {:?}", iv_div((0, 1, 0), 3.0)));
    ctx.sample(|| format!("(1,0,0)/NaN -> {:?}", iv_div((1, 0, 0), f64::NAN)));
}

// ------------------------------------------------------------------ C17

fn justify(ctx: &Ctx, l: &mut Loc, v: Iv) {
    let s = |n: &'static str| vec![st![n, v.0, v.1, v.2]];
    l.st();
    l.tr(3);
    let tot = iv_total(v);
    let fits = |r: &Iv| iv_total(*r) == tot;
    // hours
    if r_justify_hours(v).is_some() {
        let g = iv_jh(v);
        let ok = matches!(&g, Out::Ok(r) if fits(r) && r.0 == v.0 && r.2.abs() < DAY_US
            && !(r.1 > 0 && r.2 < 0) && !(r.1 < 0 && r.2 > 0));
        ctx.ensure(l, ok, || s("iv.justify_hours"), || format!("total {tot}, |time| < 24 h, day and time of one sign"), || g.show());
        if let Out::Ok(r) = g.clone() {
            l.tr(1);
            let again = iv_jh(r);
            ctx.check(l, &again, &Out::Ok(r), || vec![st!["iv.justify_hours", v.0, v.1, v.2], st!["iv.justify_hours", r.0, r.1, r.2]]);
        }
    }
    if r_justify_days(v).is_some() {
        let g = iv_jd(v);
        let ok = matches!(&g, Out::Ok(r) if fits(r) && r.2 == v.2 && r.1.abs() < 30
            && !(r.0 > 0 && r.1 < 0) && !(r.0 < 0 && r.1 > 0));
        ctx.ensure(l, ok, || s("iv.justify_days"), || format!("total {tot}, |days| < 30, month and day of one sign"), || g.show());
        if let Out::Ok(r) = g.clone() {
            l.tr(1);
            let again = iv_jd(r);
            ctx.check(l, &again, &Out::Ok(r), || vec![st!["iv.justify_days", v.0, v.1, v.2], st!["iv.justify_days", r.0, r.1, r.2]]);
        }
    }
    // the whole interval: always representable when the months are
    let months = tot / (30 * DAY_US as i128);
    if i32::try_from(months).is_ok() {
        let g = iv_ji(v);
        let ok = matches!(&g, Out::Ok(r) if fits(r) && r.2.abs() < DAY_US && r.1.abs() < 30
            && !((r.0 > 0 || r.1 > 0 || r.2 > 0) && (r.0 < 0 || r.1 < 0 || r.2 < 0)));
        ctx.ensure(l, ok, || s("iv.justify_interval"), || format!("total {tot}, |time| < 24 h, |days| < 30, one sign"), || g.show());
        if let Out::Ok(r) = g.clone() {
            l.tr(1);
            let again = iv_ji(r);
            ctx.check(l, &again, &Out::Ok(r), || vec![st!["iv.justify_interval", v.0, v.1, v.2], st!["iv.justify_interval", r.0, r.1, r.2]]);
        }
    } else {
        let g = iv_ji(v);
        ctx.ensure(l, !g.is_panic(), || s("iv.justify_interval"), || "no panic".into(), || g.show());
    }
}

pub fn c17(ctx: &Ctx) {
    let is = i32s();
    let ls = i64s();
    ctx.bound(format!("{0} months x {0} days x {1} times (extremes included)", is.len(), ls.len()));
    let dims = [is.len() as u64, is.len() as u64, ls.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c] = digits(i, dims);
        justify(ctx, l, (is[a], is[b], ls[c]));
    });
    let dr = ctx.pick3(95i64, 400, 20_000);
    let mut tt = vec![];
    for k in -3i64..=3 {
        for e in [-12 * HOUR_US, -1, 0, 1, 12 * HOUR_US] {
            tt.push(k * DAY_US + e);
        }
    }
    for k in [-65i64, -61, -60, -31, -30, -29, 29, 30, 31, 60, 61] {
        tt.extend([k * DAY_US, k * DAY_US - 1, k * DAY_US + 1]);
    }
    let tt = dedup(tt);
    ctx.bound(format!("months -14..14 x days -{dr}..{dr} x {} times", tt.len()));
    let dims = [29, 2 * dr as u64 + 1, tt.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c] = digits(i, dims);
        justify(ctx, l, (a as i32 - 14, b as i32 - dr as i32, tt[c]));
    });
    ctx.sample(|| format!("(0,29,24h) -> {:?}", iv_ji((0, 29, DAY_US))));
    ctx.sample(|| format!("(1,-1,-1us) -> {:?}", iv_ji((1, -1, -1))));
}

// ------------------------------------------------------------------ C18

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn orders<T: Ord + Eq + Hash + Copy>(x: T, y: T, want: Ordering) -> Result<(), String> {
    let r = call1(|| {
        let mut bad = vec![];
        if x.cmp(&y) != want {
            bad.push(format!("cmp {:?}", x.cmp(&y)));
        }
        if x.partial_cmp(&y) != Some(want) {
            bad.push(format!("partial_cmp {:?}", x.partial_cmp(&y)));
        }
        if y.cmp(&x) != want.reverse() {
            bad.push(format!("reverse cmp {:?}", y.cmp(&x)));
        }
        if (x == y) != (want == Ordering::Equal) || (x != y) == (want == Ordering::Equal) {
            bad.push(format!("== {}, != {}", x == y, x != y));
        }
        if (x < y) != (want == Ordering::Less) || (x > y) != (want == Ordering::Greater) {
            bad.push(format!("< {}, > {}", x < y, x > y));
        }
        if (x <= y) != (want != Ordering::Greater) || (x >= y) != (want != Ordering::Less) {
            bad.push(format!("<= {}, >= {}", x <= y, x >= y));
        }
        if want == Ordering::Equal && hash(&x) != hash(&y) {
            bad.push("hashes differ".into());
        }
        if x.max(y).cmp(&(if want == Ordering::Less { y } else { x })) != Ordering::Equal {
            bad.push("max".into());
        }
        bad
    });
    match r {
        Out::Ok(b) if b.is_empty() => Ok(()),
        Out::Ok(b) => Err(b.join(", ")),
        x => Err(x.show()),
    }
}

pub fn c18(ctx: &Ctx) {
    let mut ds: Vec<i32> = key_days(ctx, false).into_iter().map(|x| x as i32).collect();
    ds.extend([i32::MIN, i32::MAX]);
    let ds = dedup(ds);
    let cap = ctx.pick3(2500, 6000, 30_000);
    let step = ds.len().div_ceil(cap);
    let ds: Vec<i32> = ds.iter().copied().enumerate().filter(|(i, d)| i % step == 0 || *d == i32::MAX || *d == i32::MIN).map(|x| x.1).collect();
    ctx.bound(format!("all pairs of {} dates, infinities included", ds.len()));
    let dims = [ds.len() as u64, ds.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        l.st();
        l.tr(10);
        let r = orders(mkd(ds[a]), mkd(ds[b]), ds[a].cmp(&ds[b]));
        ctx.ensure(l, r.is_ok(), || vec![st!["date.cmp", ds[a], ds[b]]], || format!("{:?}", ds[a].cmp(&ds[b])), || r.clone().unwrap_err());
    });
    let mut ts = few_ts();
    ts.extend([i64::MIN, i64::MAX, TS_MIN, TS_END - 1]);
    let ts = dedup(ts);
    ctx.bound(format!("all pairs of {} timestamps, infinities included", ts.len()));
    let dims = [ts.len() as u64, ts.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        l.st();
        l.tr(10);
        let r = orders(mkts(ts[a]), mkts(ts[b]), ts[a].cmp(&ts[b]));
        ctx.ensure(l, r.is_ok(), || vec![st!["ts.cmp", ts[a], ts[b]]], || format!("{:?}", ts[a].cmp(&ts[b])), || r.clone().unwrap_err());
    });
    let mut td = tods(ctx);
    td.push(DAY_US);
    ctx.bound(format!("all pairs of {} times of day", td.len()));
    let dims = [td.len() as u64, td.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        l.st();
        l.tr(10);
        let r = orders(mkt(td[a]), mkt(td[b]), td[a].cmp(&td[b]));
        ctx.ensure(l, r.is_ok(), || vec![st!["time.cmp", td[a], td[b]]], || format!("{:?}", td[a].cmp(&td[b])), || r.clone().unwrap_err());
    });
    // intervals: many of equal length but different parts
    let mut ivs = few_ivs();
    for m in -3i32..=3 {
        for d in [-91, -90, -61, -60, -31, -30, -29, -1, 0, 1, 29, 30, 31, 60, 61, 90] {
            for t in [-30 * DAY_US, -DAY_US, -1, 0, 1, DAY_US, 30 * DAY_US] {
                ivs.push((m, d, t));
            }
        }
    }
    for &m in &[i32::MAX, i32::MIN, 3_558_399, 3_558_400, -3_558_400, 71_582_788] {
        for &d in &[i32::MAX, i32::MIN, 0, 106_751_991, -106_751_991, 106_751_992] {
            for &t in &[i64::MAX, i64::MIN, 0, i64::MAX - DAY_US, 106_751_991 * DAY_US] {
                ivs.push((m, d, t));
            }
        }
    }
    if !ctx.quick() {
        for m in few_i32s() {
            for d in few_i32s() {
                for t in [0, 1, -DAY_US, i64::MAX] {
                    ivs.push((m, d, t));
                }
            }
        }
    }
    let ivs = dedup(ivs);
    ctx.bound(format!("all pairs of {} intervals (many of equal length, extremes included)", ivs.len()));
    let dims = [ivs.len() as u64, ivs.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b] = digits(i, dims);
        let (x, y) = (ivs[a], ivs[b]);
        l.st();
        l.tr(10);
        let want = iv_total(x).cmp(&iv_total(y));
        let r = orders(mkiv(x), mkiv(y), want);
        ctx.ensure(l, r.is_ok(), || vec![st!["iv.cmp", x.0, x.1, x.2, y.0, y.1, y.2]], || format!("{:?}", want), || r.clone().unwrap_err());
        if a == b {
            let g = iv_to_i128(x);
            ctx.check(l, &g, &Out::Ok(iv_total(x)), || vec![st!["iv.to_i128", x.0, x.1, x.2]]);
        }
    });
    ctx.assume("transitivity and totality follow from agreement with the order of exact integers on all pairs");
    ctx.sample(|| format!("1 month = 30 days: {}", mkiv((1, 0, 0)) == mkiv((0, 30, 0))));
}

// ------------------------------------------------------------------ C26

/// Seconds to test: (value, exact microseconds when it denotes a whole number of them)
fn secs() -> Vec<(f64, Option<i64>)> {
    let mut v: Vec<(f64, Option<i64>)> = vec![];
    for us in [
        0i64, 1, 2, 9, 10, 499_999, 500_000, 500_001, 999_999, 1_000_000, 1_000_001, 9_999_999, 10_000_000, 12_345_678,
        29_999_999, 30_000_000, 59_000_000, 59_000_001, 59_500_000, 59_999_998, 59_999_999, 60_000_000,
    ] {
        v.push((us as f64 / 1e6, Some(us)));
    }
    v.push((-0.0, Some(0)));
    for f in [1e-7, 4.9e-7, 5.1e-7, 1.4e-6, 59.9999994, 59.9999996, 59.99999999, 1e-300, 5e-324] {
        v.push((f, None));
    }
    v
}

pub fn c26(ctx: &Ctx) {
    let good = secs();
    let bad = [
        -1e-9, -1e-7, -5e-324, -0.5, -1.0, 60.000_000_1, 60.000_001, 60.1, 61.0, 100.0, 1e9, 1e18, 1e300, f64::MAX, f64::MIN, f64::INFINITY,
        f64::NEG_INFINITY, f64::NAN,
    ];
    let judge = |h: i64, m: i64, s: f64, us: Option<i64>| -> Result<(i64, i64), ()> {
        // range of admissible results
        if !(0..=24).contains(&h) || !(0..60).contains(&m) || !(0.0..=60.0).contains(&s) {
            return Err(());
        }
        if h == 24 && (m > 0 || s > 0.0) {
            return Err(());
        }
        let base = h * HOUR_US + m * MIN_US;
        match us {
            Some(u) => Ok((base + u, base + u)),
            None => {
                let x = s * 1e6;
                let lo = (x - 0.5 - 1e-6).ceil() as i64;
                let hi = (x + 0.5 + 1e-6).floor() as i64;
                Ok((base + lo, base + hi))
            }
        }
    };
    let hs: Vec<i32> = (-2..=26).chain([i32::MIN, i32::MAX, 35_791_394, 35_791_395, 100, -100]).collect();
    let ms: Vec<i32> = (-2..=62).chain([i32::MIN, i32::MAX, 120, 35_791_394]).collect();
    let all: Vec<(f64, Option<i64>)> = good.iter().copied().chain(bad.iter().map(|b| (*b, None))).collect();
    ctx.bound(format!("time: {} hours x {} minutes x {} seconds", hs.len(), ms.len(), all.len()));
    let dims = [hs.len() as u64, ms.len() as u64, all.len() as u64];
    ctx.par(product(dims), 2048, |l, i| {
        let [a, b, c] = digits(i, dims);
        let (h, m, (s, us)) = (hs[a], ms[b], all[c]);
        l.st();
        l.tr(1);
        let g = time_hms(h, m, s);
        let w = judge(h as i64, m as i64, s, us);
        let ok = match (&g, &w) {
            (Out::Err, Err(())) => true,
            (Out::Ok(t), Ok((lo, hi))) => t >= lo && t <= hi,
            _ => false,
        };
        ctx.ensure(l, ok, || vec![st!["time.hms", h, m, s]], || format!("{:?}", w), || g.show());
    });
    let n = ctx.pick(600_000u64, 60_000_000);
    let st = 60_000_000 / n;
    ctx.bound(format!("time: every {st}th microsecond of a minute as seconds"));
    ctx.par(n, 16_384, |l, i| {
        let us = (i * st) as i64;
        l.st();
        l.tr(1);
        let g = time_hms(23, 59, us as f64 / 1e6);
        ctx.check(l, &g, &Out::Ok(23 * HOUR_US + 59 * MIN_US + us), || vec![st!["time.hms", 23, 59, us as f64 / 1e6]]);
    });
    ctx.bound("the empty constructors: midnight and the zero interval");
    ctx.seq(|l| {
        l.st();
        l.tr(2);
        let g = call1(|| rt(Time::new()));
        ctx.check(l, &g, &Out::Ok(0), || vec![st!["Time::new"]]);
        let g = call1(|| parts(Interval::new()));
        ctx.check(l, &g, &Out::Ok((0, 0, 0)), || vec![st!["Interval::new"]]);
    });
    // timestamps
    let ys: Vec<i32> = vec![
        i32::MIN, i32::MIN + 1, -294_277, -4714, -4713, -1, 0, 1, 2, 4, 100, 1582, 1900, 1999, 2000, 2001, 2024, 9999, 10_000, 294_275, 294_276,
        294_277, 294_278, 5_874_897, 5_874_898, 5_874_899, i32::MAX,
    ];
    let mos: Vec<i32> = (-1..=14).chain([i32::MIN, i32::MAX, 255, 256, 257]).collect();
    let dd: Vec<i32> = vec![i32::MIN, -1, 0, 1, 2, 15, 28, 29, 30, 31, 32, 99, 257, i32::MAX];
    let hh: Vec<i32> = vec![i32::MIN, -1, 0, 1, 12, 23, 24, 25, i32::MAX];
    let mm: Vec<i32> = vec![-1, 0, 1, 59, 60, i32::MAX];
    let ss: Vec<(f64, Option<i64>)> = vec![
        (0.0, Some(0)), (-0.0, Some(0)), (1e-6, Some(1)), (59.999_999, Some(59_999_999)), (59.999_999_9, None), (60.0, Some(60_000_000)),
        (60.000_001, None), (61.0, None), (-1e-9, None), (f64::NAN, None), (f64::INFINITY, None), (1e-9, None),
    ];
    ctx.bound(format!("timestamp: {} years x {} months x {} days x {} hours x {} minutes x {} seconds", ys.len(), mos.len(), dd.len(), hh.len(), mm.len(), ss.len()));
    let dims = [ys.len() as u64, mos.len() as u64, dd.len() as u64, hh.len() as u64, mm.len() as u64, ss.len() as u64];
    ctx.par(product(dims), 8192, |l, i| {
        let [a, b, c, d, e, f] = digits(i, dims);
        one_ts_hms(ctx, l, ys[a], mos[b], dd[c], hh[d], mm[e], ss[f], &judge);
    });
    // every day of some years
    let yy: Vec<i64> = ctx.pick(vec![1, 4, 100, 400, 1582, 1900, 2000, 2023, 9999, 294_276], (1..=500).chain(1500..=2500).chain(294_000..=294_277).collect());
    ctx.bound(format!("timestamp: every month -0..13 and day 0..32 of {} years x 5 times", yy.len()));
    let dims = [yy.len() as u64, 14, 33, 5];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, d] = digits(i, dims);
        let (h, m, s, us) = [(0, 0, 0.0, 0), (23, 59, 60.0, 60_000_000), (24, 0, 0.0, 0), (12, 30, 1.5, 1_500_000), (23, 59, 59.999_999, 59_999_999)][d];
        one_ts_hms(ctx, l, yy[a] as i32, b as i32, c as i32, h, m, (s, Some(us)), &judge);
    });
    ctx.bound("timestamp: every year -5000..300000 x 4 days; every hour, minute and second of 3 days");
    ctx.par(305_001, 1024, |l, i| {
        let y = i as i32 - 5000;
        for (m, d) in [(1, 1), (2, 29), (8, 31), (12, 31)] {
            one_ts_hms(ctx, l, y, m, d, 23, 59, (59.5, Some(59_500_000)), &judge);
        }
    });
    ctx.par(25 * 60 * 61, 256, |l, i| {
        let (h, m, s) = ((i / 3660) as i32, (i / 61 % 60) as i32, (i % 61) as i64);
        for (y, mo, d) in [(1, 1, 1), (1999, 12, 31), (2000, 2, 29)] {
            one_ts_hms(ctx, l, y, mo, d, h, m, (s as f64, Some(s * US)), &judge);
        }
    });
    ctx.bound("interval: every value -12000..12000 of each component, the others zero or small");
    ctx.par(24_001, 256, |l, i| {
        let x = i as i32 - 12_000;
        for k in 0..7 {
            for z in [0, 1, -3] {
                let mut c = [z; 7];
                c[k] = x;
                one_iv(ctx, l, c[0], c[1], c[2], c[3], c[4], c[5], (c[6] as f64, Some(c[6] as i128 * 1_000_000)));
            }
        }
    });
    // intervals
    let ints: Vec<i32> = vec![
        0, 1, -1, 2, 7, -11, 12, 13, 59, 60, 100, -1000, 35_791_394, 178_956_970, 178_956_971, -178_956_970, -178_956_971, 306_783_378,
        306_783_379, i32::MAX, i32::MIN,
    ];
    let few: Vec<i32> = vec![0, 1, -1, 100, i32::MAX, i32::MIN];
    let isec: Vec<(f64, Option<i128>)> = vec![
        (0.0, Some(0)), (1.0, Some(1_000_000)), (-1.5, Some(-1_500_000)), (1e-6, Some(1)), (-1e-6, Some(-1)), (59.999_999, Some(59_999_999)),
        (61.0, Some(61_000_000)), (1e9, Some(1_000_000_000_000_000)), (-123_456.789_012, Some(-123_456_789_012)), (f64::NAN, None),
        (f64::INFINITY, None), (f64::NEG_INFINITY, None), (1.25e12, Some(1_250_000_000_000_000_000)),
    ];
    ctx.bound(format!("interval: {0} years x {0} months x {0} weeks x {1} days; {0} hours x {0} minutes x {2} seconds; exactness checked where the sums fit", ints.len(), few.len(), isec.len()));
    let dims = [ints.len() as u64, ints.len() as u64, ints.len() as u64, few.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, d] = digits(i, dims);
        one_iv(ctx, l, ints[a], ints[b], ints[c], few[d], 1, -1, (0.5, Some(500_000)));
    });
    let dims = [ints.len() as u64, ints.len() as u64, isec.len() as u64, few.len() as u64];
    ctx.par(product(dims), 4096, |l, i| {
        let [a, b, c, d] = digits(i, dims);
        one_iv(ctx, l, 1, -2, 3, few[d].clamp(-1000, 1000), ints[a], ints[b], isec[c]);
    });
    ctx.assume("an interval built from components whose sum does not fit is outside the property (the existing tests fix that it wraps)");
    ctx.sample(|| format!("23:59:60 -> {:?}", time_hms(23, 59, 60.0)));
    ctx.sample(|| format!("24:00:01 -> {:?}", time_hms(24, 0, 1.0)));
}

#[allow(clippy::too_many_arguments)]
fn one_ts_hms(
    ctx: &Ctx,
    l: &mut Loc,
    y: i32,
    mo: i32,
    d: i32,
    h: i32,
    m: i32,
    s: (f64, Option<i64>),
    judge: &(dyn Fn(i64, i64, f64, Option<i64>) -> Result<(i64, i64), ()> + Sync),
) {
    l.st();
    l.tr(1);
    let g = ts_hms(y, mo, d, h, m, s.0);
    let date = y >= 1 && (1..=12).contains(&mo) && d >= 1 && d as i64 <= dim(y as i64, mo as i64);
    let w: Result<(i128, i128), ()> = if !date {
        Err(())
    } else {
        let n = days(y as i64, mo as i64, d as i64) as i128 * DAY_US as i128;
        judge(h as i64, m as i64, s.0, s.1).map(|(lo, hi)| (n + lo as i128, n + hi as i128))
    };
    let ok = match (&g, &w) {
        (Out::Err, Err(())) => true,
        (Out::Err, Ok((lo, hi))) => !ts_ok(*lo) || !ts_ok(*hi),
        (Out::Ok(t), Ok((lo, hi))) => ts_ok(*t as i128) && *t as i128 >= *lo && *t as i128 <= *hi,
        _ => false,
    };
    ctx.ensure(l, ok, || vec![st!["ts.hms", y, mo, d, h, m, s.0]], || format!("{:?} (Err if out of range)", w), || g.show());
}

#[allow(clippy::too_many_arguments)]
fn one_iv(ctx: &Ctx, l: &mut Loc, y: i32, mo: i32, w: i32, d: i32, h: i32, m: i32, s: (f64, Option<i128>)) {
    l.st();
    l.tr(1);
    let g = iv_ymwdhms(y, mo, w, d, h, m, s.0);
    let steps = || vec![st!["iv.new", y, mo, w, d, h, m, s.0]];
    match s.1 {
        None => {
            ctx.check(l, &g, &Out::Err, steps);
        }
        Some(us) => {
            let mon = y as i128 * 12 + mo as i128;
            let day = w as i128 * 7 + d as i128;
            let t = h as i128 * HOUR_US as i128 + m as i128 * MIN_US as i128 + us;
            match iv_mk(mon, day, t) {
                Some(v) => {
                    ctx.check(l, &g, &Out::Ok(v), steps);
                }
                None => {
                    ctx.ensure(l, !g.is_panic(), steps, || "no panic".into(), || g.show());
                }
            }
        }
    }
}
