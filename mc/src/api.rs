//! Thin wrappers over the public API of the crate under test (nothing else is used).
use crate::fw::{call, call1, Out};
use crate::refm::Iv;
pub use pgdatetime::{
    Date, DateOrder, DateStyle, DateTime, DateUnit, FieldType, Interval, IntervalStyle, Time, Timestamp,
};
use std::convert::TryFrom;

pub const ORDERS: [DateOrder; 3] = [DateOrder::YMD, DateOrder::DMY, DateOrder::MDY];
pub const STYLES: [DateStyle; 5] = [
    DateStyle::ISO,
    DateStyle::XSD,
    DateStyle::SQL,
    DateStyle::German,
    DateStyle::Postgres,
];
pub const ISTYLES: [IntervalStyle; 4] = [
    IntervalStyle::Postgres,
    IntervalStyle::PostgresVerbose,
    IntervalStyle::SQLStandard,
    IntervalStyle::ISO8601,
];
pub const UNITS: [(&str, DateUnit); 23] = [
    ("micro", DateUnit::MicroSec),
    ("milli", DateUnit::MilliSec),
    ("second", DateUnit::Second),
    ("minute", DateUnit::Minute),
    ("hour", DateUnit::Hour),
    ("day", DateUnit::Day),
    ("week", DateUnit::Week),
    ("month", DateUnit::Month),
    ("quarter", DateUnit::Quarter),
    ("year", DateUnit::Year),
    ("decade", DateUnit::Decade),
    ("century", DateUnit::Century),
    ("millennium", DateUnit::Millennium),
    ("julian", DateUnit::JULIAN),
    ("dow", DateUnit::Dow),
    ("isodow", DateUnit::IsoDow),
    ("doy", DateUnit::Doy),
    ("isoyear", DateUnit::IsoYear),
    ("epoch", DateUnit::Epoch),
    ("tz", DateUnit::Tz),
    ("tzhour", DateUnit::TzHour),
    ("tzminute", DateUnit::TzMinute),
    ("delta", DateUnit::Delta),
];
/// The units timestamps can be truncated to.
pub const TRUNC_UNITS: [&str; 13] = [
    "micro", "milli", "second", "minute", "hour", "day", "week", "month", "quarter", "year", "decade",
    "century", "millennium",
];

pub fn unit(name: &str) -> DateUnit {
    UNITS.iter().find(|u| u.0 == name).unwrap().1
}

pub fn order_name(o: DateOrder) -> &'static str {
    match o {
        DateOrder::YMD => "YMD",
        DateOrder::DMY => "DMY",
        DateOrder::MDY => "MDY",
    }
}
pub fn order(s: &str) -> DateOrder {
    *ORDERS.iter().find(|o| order_name(**o) == s).unwrap()
}
pub fn style_name(o: DateStyle) -> &'static str {
    match o {
        DateStyle::ISO => "ISO",
        DateStyle::XSD => "XSD",
        DateStyle::SQL => "SQL",
        DateStyle::German => "German",
        DateStyle::Postgres => "Postgres",
    }
}
pub fn style(s: &str) -> DateStyle {
    *STYLES.iter().find(|o| style_name(**o) == s).unwrap()
}
pub fn istyle_name(o: IntervalStyle) -> &'static str {
    match o {
        IntervalStyle::Postgres => "Postgres",
        IntervalStyle::PostgresVerbose => "Verbose",
        IntervalStyle::SQLStandard => "SQLStandard",
        IntervalStyle::ISO8601 => "ISO8601",
    }
}
pub fn istyle(s: &str) -> IntervalStyle {
    *ISTYLES.iter().find(|o| istyle_name(**o) == s).unwrap()
}

/// Raw interval construction through the public binary deserialisation.
pub fn mkiv(v: Iv) -> Interval {
    let mut b = [0u8; 16];
    b[0..8].copy_from_slice(&v.2.to_le_bytes());
    b[8..12].copy_from_slice(&v.1.to_le_bytes());
    b[12..16].copy_from_slice(&v.0.to_le_bytes());
    bincode::deserialize(&b).expect("interval from bytes")
}

/// Raw parts through the public binary serialisation.
pub fn parts(i: Interval) -> Iv {
    let mut b = [0u8; 16];
    bincode::serialize_into(&mut b[..], &i).expect("interval to bytes");
    let t = i64::from_le_bytes(b[0..8].try_into().unwrap());
    let d = i32::from_le_bytes(b[8..12].try_into().unwrap());
    let m = i32::from_le_bytes(b[12..16].try_into().unwrap());
    (m, d, t)
}

pub fn mkd(r: i32) -> Date {
    Date::from(r)
}
pub fn mkt(r: i64) -> Time {
    Time::from(r)
}
pub fn mkts(r: i64) -> Timestamp {
    Timestamp::from(r)
}
pub fn rd(d: Date) -> i32 {
    d.into()
}
pub fn rt(t: Time) -> i64 {
    t.into()
}
pub fn rts(t: Timestamp) -> i64 {
    t.into()
}

pub fn date_ymd(y: i32, m: i32, d: i32) -> Out<i32> {
    call(|| Date::try_from_ymd(y, m, d).map(rd))
}
pub fn date_parse(s: &str, o: DateOrder) -> Out<i32> {
    call(|| Date::try_from_str(s, o).map(rd))
}
pub fn date_format(d: i32, s: DateStyle, o: DateOrder) -> Out<String> {
    call(|| mkd(d).format(s, o))
}
pub fn time_parse(s: &str, p: i32, o: DateOrder) -> Out<i64> {
    call(|| Time::try_from_str(s, p, o).map(rt))
}
pub fn time_format(t: i64, s: DateStyle) -> Out<String> {
    call(|| mkt(t).format(s))
}
pub fn ts_parse(s: &str, p: i32, o: DateOrder) -> Out<i64> {
    call(|| Timestamp::try_from_str(s, p, o).map(rts))
}
pub fn ts_format(t: i64, s: DateStyle, o: DateOrder) -> Out<String> {
    call(|| mkts(t).format(s, o))
}
pub fn iv_parse(s: &str, p: i32, st: IntervalStyle) -> Out<Iv> {
    call(|| Interval::try_from_str(s, p, st).map(parts))
}
pub fn iv_format(v: Iv, st: IntervalStyle) -> Out<String> {
    let i = mkiv(v);
    call(|| i.format(st))
}
pub fn ts_add(t: i64, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call(|| mkts(t).add_interval(i).map(rts))
}
pub fn ts_sub(t: i64, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call(|| mkts(t).sub_interval(i).map(rts))
}
pub fn date_add_iv(d: i32, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call(|| mkd(d).add_interval(i).map(rts))
}
pub fn date_sub_iv(d: i32, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call(|| mkd(d).sub_interval(i).map(rts))
}
pub fn ts_diff(a: i64, b: i64) -> Out<Iv> {
    call(|| mkts(a).sub_timestamp(mkts(b)).map(parts))
}
pub fn ts_sub_date(a: i64, b: i32) -> Out<Iv> {
    call(|| mkts(a).sub_date(mkd(b)).map(parts))
}
pub fn ts_age(a: i64, b: i64) -> Out<Iv> {
    call(|| mkts(a).age(mkts(b)).map(parts))
}
pub fn ts_add_time(a: i64, b: i64) -> Out<i64> {
    call(|| mkts(a).add_time(mkt(b)).map(rts))
}
pub fn ts_sub_time(a: i64, b: i64) -> Out<i64> {
    call(|| mkts(a).sub_time(mkt(b)).map(rts))
}
pub fn ts_hms(y: i32, mo: i32, d: i32, h: i32, mi: i32, s: f64) -> Out<i64> {
    call(|| Timestamp::try_from_ymd_hms(y, mo, d, h, mi, s).map(rts))
}
pub fn time_hms(h: i32, m: i32, s: f64) -> Out<i64> {
    call(|| Time::try_from_hms(h, m, s).map(rt))
}
#[allow(clippy::too_many_arguments)]
pub fn iv_ymwdhms(y: i32, mo: i32, w: i32, d: i32, h: i32, mi: i32, s: f64) -> Out<Iv> {
    call(|| Interval::try_from_ymwd_hms(y, mo, w, d, h, mi, s).map(parts))
}
pub fn date_add_days(d: i32, n: i32) -> Out<i32> {
    call(|| mkd(d).add_days(n).map(rd))
}
pub fn date_sub_days(d: i32, n: i32) -> Out<i32> {
    call(|| mkd(d).sub_days(n).map(rd))
}
pub fn date_sub_date(a: i32, b: i32) -> Out<i32> {
    call(|| mkd(a).sub_date(mkd(b)))
}
pub fn date_add_time(d: i32, t: i64) -> Out<i64> {
    call(|| mkd(d).add_time(mkt(t)).map(rts))
}
pub fn time_add(t: i64, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call1(|| rt(mkt(t).add_interval(i)))
}
pub fn time_sub(t: i64, v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call1(|| rt(mkt(t).sub_interval(i)))
}
pub fn time_sub_time(a: i64, b: i64) -> Out<Iv> {
    call1(|| parts(mkt(a).sub_time(mkt(b))))
}
pub fn iv_add(a: Iv, b: Iv) -> Out<Iv> {
    let (x, y) = (mkiv(a), mkiv(b));
    call(|| x.add_interval(y).map(parts))
}
pub fn iv_sub(a: Iv, b: Iv) -> Out<Iv> {
    let (x, y) = (mkiv(a), mkiv(b));
    call(|| x.sub_interval(y).map(parts))
}
pub fn iv_neg(a: Iv) -> Out<Iv> {
    let x = mkiv(a);
    call(|| x.negate().map(parts))
}
pub fn iv_mul(a: Iv, f: f64) -> Out<Iv> {
    let x = mkiv(a);
    call(|| x.mul_f64(f).map(parts))
}
pub fn iv_div(a: Iv, f: f64) -> Out<Iv> {
    let x = mkiv(a);
    call(|| x.div_f64(f).map(parts))
}
pub fn iv_jh(a: Iv) -> Out<Iv> {
    let x = mkiv(a);
    call1(|| parts(x.justify_hours()))
}
pub fn iv_jd(a: Iv) -> Out<Iv> {
    let x = mkiv(a);
    call1(|| parts(x.justify_days()))
}
pub fn iv_ji(a: Iv) -> Out<Iv> {
    let x = mkiv(a);
    call1(|| parts(x.justify_interval()))
}
pub fn ft(epoch: bool) -> FieldType {
    if epoch {
        FieldType::Epoch
    } else {
        FieldType::Unit
    }
}
pub fn date_part(d: i32, ep: bool, u: DateUnit) -> Out<f64> {
    call(|| mkd(d).date_part(ft(ep), u))
}
pub fn time_part(d: i64, ep: bool, u: DateUnit) -> Out<f64> {
    call(|| mkt(d).date_part(ft(ep), u))
}
pub fn ts_part(d: i64, ep: bool, u: DateUnit) -> Out<f64> {
    call(|| mkts(d).date_part(ft(ep), u))
}
pub fn iv_part(v: Iv, ep: bool, u: DateUnit) -> Out<f64> {
    let i = mkiv(v);
    call(|| i.date_part(ft(ep), u))
}
pub fn date_trunc(d: i32, ep: bool, u: DateUnit) -> Out<i32> {
    call(|| mkd(d).truncate(ft(ep), u).map(rd))
}
pub fn time_trunc(d: i64, ep: bool, u: DateUnit) -> Out<i64> {
    call(|| mkt(d).truncate(ft(ep), u).map(rt))
}
pub fn ts_trunc(d: i64, ep: bool, u: DateUnit) -> Out<i64> {
    call(|| mkts(d).truncate(ft(ep), u).map(rts))
}
pub fn iv_trunc(v: Iv, ep: bool, u: DateUnit) -> Out<Iv> {
    let i = mkiv(v);
    call(|| i.truncate(ft(ep), u).map(parts))
}
pub fn date_to_ts(d: i32) -> Out<i64> {
    call(|| Timestamp::try_from(mkd(d)).map(rts))
}
pub fn ts_to_date(t: i64) -> Out<i32> {
    call(|| Date::try_from(mkts(t)).map(rd))
}
pub fn ts_to_time(t: i64) -> Out<Option<i64>> {
    call(|| <Option<Time>>::try_from(mkts(t)).map(|o| o.map(rt)))
}
pub fn time_to_iv(t: i64) -> Out<Iv> {
    call1(|| parts(Interval::from(mkt(t))))
}
pub fn iv_to_time(v: Iv) -> Out<i64> {
    let i = mkiv(v);
    call1(|| rt(Time::from(i)))
}
pub fn iv_to_i128(v: Iv) -> Out<i128> {
    let i = mkiv(v);
    call1(|| i128::from(i))
}
