//! Executes one recorded step on the real code: used to replay violations.
use crate::api::*;
use crate::refm::Iv;

fn i(s: &str) -> i32 {
    s.parse().unwrap()
}
fn l(s: &str) -> i64 {
    s.parse().unwrap()
}
fn f(s: &str) -> f64 {
    s.parse().unwrap()
}
fn b(s: &str) -> bool {
    s == "true"
}
fn v(a: &[String]) -> Iv {
    (i(&a[0]), i(&a[1]), l(&a[2]))
}

pub fn run(step: &[String]) -> String {
    if step[0].starts_with("thread") && step.len() > 1 {
        return run(&step[1..]);
    }
    let a = &step[1..];
    match step[0].as_str() {
        "date.ymd" => date_ymd(i(&a[0]), i(&a[1]), i(&a[2])).show(),
        "date.parse" => date_parse(&a[0], order(&a[1])).show(),
        "date.format" => date_format(i(&a[0]), style(&a[1]), order(&a[2])).show(),
        "time.parse" => time_parse(&a[0], i(&a[1]), order(&a[2])).show(),
        "time.format" => time_format(l(&a[0]), style(&a[1])).show(),
        "ts.parse" => ts_parse(&a[0], i(&a[1]), order(&a[2])).show(),
        "ts.format" => ts_format(l(&a[0]), style(&a[1]), order(&a[2])).show(),
        "iv.parse" => iv_parse(&a[0], i(&a[1]), istyle(&a[2])).show(),
        "iv.format" => iv_format(v(a), istyle(&a[3])).show(),
        "ts.add" => ts_add(l(&a[0]), v(&a[1..])).show(),
        "ts.sub" => ts_sub(l(&a[0]), v(&a[1..])).show(),
        "date.add_iv" => date_add_iv(i(&a[0]), v(&a[1..])).show(),
        "date.sub_iv" => date_sub_iv(i(&a[0]), v(&a[1..])).show(),
        "ts.diff" => ts_diff(l(&a[0]), l(&a[1])).show(),
        "ts.sub_date" => ts_sub_date(l(&a[0]), i(&a[1])).show(),
        "ts.age" => ts_age(l(&a[0]), l(&a[1])).show(),
        "ts.add_time" => ts_add_time(l(&a[0]), l(&a[1])).show(),
        "ts.sub_time" => ts_sub_time(l(&a[0]), l(&a[1])).show(),
        "ts.hms" => ts_hms(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]), f(&a[5])).show(),
        "time.hms" => time_hms(i(&a[0]), i(&a[1]), f(&a[2])).show(),
        "iv.new" => iv_ymwdhms(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]), i(&a[5]), f(&a[6])).show(),
        "date.add_days" => date_add_days(i(&a[0]), i(&a[1])).show(),
        "date.sub_days" => date_sub_days(i(&a[0]), i(&a[1])).show(),
        "date.sub_date" => date_sub_date(i(&a[0]), i(&a[1])).show(),
        "date.add_time" => date_add_time(i(&a[0]), l(&a[1])).show(),
        "time.add" => time_add(l(&a[0]), v(&a[1..])).show(),
        "time.sub" => time_sub(l(&a[0]), v(&a[1..])).show(),
        "time.sub_time" => time_sub_time(l(&a[0]), l(&a[1])).show(),
        "iv.add" => iv_add(v(a), v(&a[3..])).show(),
        "iv.sub" => iv_sub(v(a), v(&a[3..])).show(),
        "iv.neg" => iv_neg(v(a)).show(),
        "iv.mul" => iv_mul(v(a), f(&a[3])).show(),
        "iv.div" => iv_div(v(a), f(&a[3])).show(),
        "iv.justify_hours" => iv_jh(v(a)).show(),
        "iv.justify_days" => iv_jd(v(a)).show(),
        "iv.justify_interval" => iv_ji(v(a)).show(),
        "iv.cmp" => {
            let (x, y) = (mkiv(v(a)), mkiv(v(&a[3..])));
            format!("cmp={:?} eq={}", x.cmp(&y), x == y)
        }
        "date.part" => date_part(i(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "time.part" => time_part(l(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "ts.part" => ts_part(l(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "iv.part" => iv_part(v(a), b(&a[3]), unit(&a[4])).show(),
        "date.trunc" => date_trunc(i(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "time.trunc" => time_trunc(l(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "ts.trunc" => ts_trunc(l(&a[0]), b(&a[1]), unit(&a[2])).show(),
        "iv.trunc" => iv_trunc(v(a), b(&a[3]), unit(&a[4])).show(),
        "date.to_ts" => date_to_ts(i(&a[0])).show(),
        "ts.to_date" => ts_to_date(l(&a[0])).show(),
        "ts.to_time" => ts_to_time(l(&a[0])).show(),
        "time.to_iv" => time_to_iv(l(&a[0])).show(),
        "iv.to_time" => iv_to_time(v(a)).show(),
        "iv.to_i128" => iv_to_i128(v(a)).show(),
        _ => "(described step; see the check)".to_string(),
    }
}
