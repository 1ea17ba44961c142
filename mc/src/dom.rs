//! Boundary domains shared by the checks.
use crate::fw::{dedup, Ctx};
use crate::refm::*;

/// Astronomical years at which some rule changes.
pub fn years(ctx: &Ctx, ts: bool) -> Vec<i64> {
    let mut v: Vec<i64> = vec![
        -4713, -4712, -4711, -4000, -3999, -1001, -1000, -999, -401, -400, -399, -100, -99, -98, -10, -9, -8,
        -4, -3, -1, 0, 1, 2, 3, 4, 9, 10, 68, 69, 70, 99, 100, 101, 399, 400, 401, 999, 1000, 1001, 1582, 1600,
        1700, 1752, 1899, 1900, 1901, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2024, 2069,
        2070, 2100, 2400, 9999, 10000, 10001, 12000, 99999, 100000, 294275, 294276,
    ];
    if !ts {
        v.extend([294_277, 999_999, 1_000_000, 3_000_000, 5_874_896, 5_874_897]);
    }
    if !ctx.quick() {
        v.extend((-4713i64..=-4700).chain(-410..=-390).chain(-110..=-90).chain(-20..=120));
        v.extend((390i64..=410).chain(990..=1010).chain(1580..=1610).chain(1890..=2110));
        v.extend((9990i64..=10010).chain(294_260..=294_276));
        if !ts {
            v.extend((99_990i64..=100_010).chain(999_990..=1_000_010).chain(5_874_880..=5_874_897));
        }
    }
    dedup(v)
}

/// Days of a year at which some rule changes.
pub fn key_days_of(y: i64) -> Vec<i64> {
    let mut v = vec![];
    for m in 1..=12 {
        for d in [1, 2, 9, 10, 15, 27, 28, 29, 30, 31] {
            if d <= dim(y, m) {
                v.push(days(y, m, d));
            }
        }
    }
    v.retain(|n| date_ok(*n));
    v
}

/// Boundary days in timestamp (ts) or date range.
pub fn key_days(ctx: &Ctx, ts: bool) -> Vec<i64> {
    let mut v = vec![];
    for y in years(ctx, ts) {
        for m in 1..=12i64 {
            for d in [1, dim(y, m)] {
                v.push(days(y, m, d));
            }
        }
        v.push(days(y, 2, 28));
        v.push(days(y, 1, 15));
        v.push(days(y, 12, 29));
        v.push(days(y, 1, 4));
    }
    v.extend([DATE_MIN, DATE_MIN + 1, DATE_MIN + 5, DATE_MIN + 6, DATE_MIN + 7, -1, 0, 1, -730_120, -730_119]);
    v.extend([TS_DAY_END - 2, TS_DAY_END - 1]);
    if !ts {
        v.extend([TS_DAY_END, TS_DAY_END + 1, DATE_END - 2, DATE_END - 1]);
    }
    v.retain(|n| date_ok(*n) && (!ts || *n < TS_DAY_END));
    dedup(v)
}

/// A short list of days (for products with other large domains).
pub fn few_days(ts: bool) -> Vec<i64> {
    let mut v = vec![];
    for (y, m, d) in [
        (-4713, 11, 24),
        (-4713, 11, 25),
        (-4712, 2, 29),
        (-4000, 12, 31),
        (-400, 2, 29),
        (-100, 12, 31),
        (-99, 1, 1),
        (-4, 2, 29),
        (0, 1, 1),
        (0, 2, 29),
        (0, 12, 31),
        (1, 1, 1),
        (1, 12, 31),
        (99, 3, 31),
        (100, 2, 28),
        (1000, 1, 31),
        (1582, 10, 15),
        (1899, 12, 31),
        (1900, 2, 28),
        (1969, 12, 31),
        (1970, 1, 1),
        (1996, 2, 29),
        (1999, 1, 8),
        (1999, 12, 31),
        (2000, 1, 1),
        (2000, 2, 29),
        (2000, 3, 1),
        (2001, 5, 31),
        (2016, 1, 1),
        (2018, 12, 31),
        (2020, 6, 30),
        (2021, 1, 3),
        (2024, 10, 31),
        (2100, 2, 28),
        (9999, 12, 31),
        (10000, 1, 1),
        (294_276, 12, 31),
        (294_276, 1, 1),
    ] {
        v.push(days(y, m, d));
    }
    if !ts {
        v.extend([TS_DAY_END, days(999_999, 12, 31), days(5_874_897, 1, 1), DATE_END - 1]);
    }
    dedup(v)
}

/// Boundary times of day in microseconds, below 24:00.
pub fn tods(ctx: &Ctx) -> Vec<i64> {
    let mut v = vec![];
    let hs: &[i64] = ctx.pick(&[0, 1, 9, 10, 11, 12, 13, 23][..], &[0, 1, 2, 9, 10, 11, 12, 13, 19, 20, 22, 23][..]);
    for &h in hs {
        for m in [0i64, 1, 30, 59] {
            for s in [0i64, 1, 30, 59] {
                for f in [0i64, 1, 9, 10, 100, 123_456, 499_999, 500_000, 900_000, 999_999] {
                    v.push(h * HOUR_US + m * MIN_US + s * US + f);
                }
            }
        }
    }
    dedup(v)
}

pub fn few_tods() -> Vec<i64> {
    vec![
        0,
        1,
        500_000,
        999_999,
        US,
        59 * US + 999_999,
        MIN_US,
        HOUR_US - 1,
        HOUR_US,
        11 * HOUR_US + 59 * MIN_US + 59 * US + 999_000,
        12 * HOUR_US,
        13 * HOUR_US + 14 * MIN_US + 15 * US + 160_000,
        23 * HOUR_US + 59 * MIN_US,
        DAY_US - US,
        DAY_US - 500_000,
        DAY_US - 1,
    ]
}

pub fn few_ts() -> Vec<i64> {
    let mut v = vec![];
    for d in few_days(true) {
        for t in few_tods() {
            v.push(d * DAY_US + t);
        }
    }
    dedup(v)
}

pub fn i32s() -> Vec<i32> {
    let mut v = vec![0i32];
    for x in [
        1i64, 2, 3, 5, 7, 11, 12, 13, 14, 23, 24, 25, 28, 29, 30, 31, 32, 59, 60, 61, 90, 99, 100, 119, 120, 121,
        365, 366, 1199, 1200, 1201, 4799, 4800, 4801, 11_999, 12_000, 12_001, 56_549, 56_550, 80_571, 146_096,
        146_097, 146_098, 2_451_545, 2_451_546, 3_587_867, 3_587_868, 3_587_869, 71_582_788, 71_582_789,
        106_751_991, 106_751_992, 178_956_970, 178_956_971, 2_145_031_948, 2_145_031_949, 2_147_483_617,
        2_147_483_640, 2_147_483_645, 2_147_483_646, 2_147_483_647, 2_147_483_648,
    ] {
        for y in [x, -x] {
            if let Ok(z) = i32::try_from(y) {
                v.push(z);
            }
        }
    }
    dedup(v)
}

pub fn few_i32s() -> Vec<i32> {
    let mut v = vec![0, i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1];
    for x in [1, 2, 6, 11, 12, 13, 29, 30, 31, 100, 365, 1200, 4800, 56_550, 2_451_545, 3_587_868, 106_751_991] {
        v.push(x);
        v.push(-x);
    }
    dedup(v)
}

pub fn i64s() -> Vec<i64> {
    let mut v = vec![0i64, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1];
    for x in [
        1,
        2,
        9,
        10,
        999,
        1000,
        499_999,
        500_000,
        500_001,
        999_999,
        US,
        US + 1,
        1_500_000,
        59 * US,
        59 * US + 999_999,
        MIN_US - 1,
        MIN_US,
        MIN_US + 1,
        HOUR_US - 1,
        HOUR_US,
        HOUR_US + 1,
        12 * HOUR_US,
        13 * HOUR_US + 14 * MIN_US + 15 * US + 160_001,
        DAY_US - 1,
        DAY_US,
        DAY_US + 1,
        2 * DAY_US - 1,
        2 * DAY_US,
        30 * DAY_US,
        31 * DAY_US + 1,
        100 * HOUR_US,
        365 * DAY_US,
        1_000_000 * HOUR_US,
        35_791_394 * HOUR_US,
        35_791_395 * HOUR_US,
        2_147_483_647 * HOUR_US,
        2_147_483_647 * HOUR_US + 3_599_999_999,
        2_147_483_648 * HOUR_US,
        TS_END - 1,
        TS_END,
        -(TS_MIN + 1),
        -TS_MIN,
        -TS_MIN + 1,
        9_007_199_254_740_992,
        9_007_199_254_740_993,
        i64::MAX - DAY_US,
        i64::MAX / 2,
        i64::MAX / 2 + 1,
    ] {
        v.push(x);
        v.push(-x);
    }
    dedup(v)
}

pub fn few_i64s() -> Vec<i64> {
    let mut v = vec![0i64, i64::MIN, i64::MIN + 1, i64::MAX];
    for x in [
        1,
        500_000,
        999_999,
        US,
        MIN_US,
        HOUR_US - 1,
        12 * HOUR_US,
        DAY_US - 1,
        DAY_US,
        DAY_US + 1,
        2 * DAY_US,
        40 * DAY_US + 12 * HOUR_US + 1,
        -TS_MIN,
        TS_END,
        i64::MAX - DAY_US,
    ] {
        v.push(x);
        v.push(-x);
    }
    dedup(v)
}

/// Small intervals for products.
pub fn few_ivs() -> Vec<Iv> {
    let mut v = vec![];
    for m in [0, 1, -1, 11, -12, 13, 1200, -56_550, i32::MAX, i32::MIN] {
        for d in [0, 1, -1, 29, 30, -31, 146_097, i32::MAX, i32::MIN] {
            for t in [0, 1, -1, DAY_US - 1, DAY_US, -DAY_US - 1, 100 * HOUR_US + 1, i64::MAX, i64::MIN] {
                v.push((m, d, t));
            }
        }
    }
    v
}
