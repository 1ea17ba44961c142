//! Reference readers: what PostgreSQL's rules (without time zones) make of any text.
//!
//! Written from the rules, sharing no code with the crate: a splitter, one machine for dates,
//! timestamps and times of day, one for interval lists and one for ISO 8601 durations. The checks
//! run them next to the crate on every enumerated text.
use crate::fw::Out;
use crate::refm::*;
use pgdatetime::{DateOrder, IntervalStyle};

const DAY_US: i64 = 86_400_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// digits, perhaps with one decimal point
    Num,
    /// fields set off by - / .
    Date,
    /// digits and colons
    Time,
    Word,
    /// a sign and digits
    Signed,
    /// a sign and letters
    SignedWord,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: Kind,
    pub text: String,
}

fn run(s: &[u8], f: impl Fn(u8) -> bool) -> usize {
    s.iter().take_while(|c| f(**c)).count()
}

fn low(s: &[u8]) -> String {
    String::from_utf8(s.to_ascii_lowercase()).unwrap()
}

/// Splits a text into fields; None if it can not be one.
pub fn split(text: &str) -> Option<Vec<Tok>> {
    let s = text.as_bytes();
    if s.is_empty() || s.iter().filter(|c| c.is_ascii_alphanumeric() || b"+-./:_".contains(c)).count() > 128 {
        return None;
    }
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if out.len() == 25 {
            return None;
        }
        let rest = &s[i..];
        let (kind, len, text) = match c {
            b'0'..=b'9' => {
                let mut n = run(rest, |c| c.is_ascii_digit());
                let kind = match rest.get(n) {
                    Some(b':') => {
                        n += run(&rest[n..], |c| c.is_ascii_digit() || c == b':' || c == b'.');
                        Kind::Time
                    }
                    Some(&d @ (b'-' | b'/' | b'.')) => {
                        n += 1;
                        let digits = run(&rest[n..], |c| c.is_ascii_digit());
                        if n == rest.len() {
                            if d == b'.' { Kind::Num } else { Kind::Date }
                        } else if digits == 0 {
                            // a word (or nothing) after the delimiter
                            n += run(&rest[n..], |c| c.is_ascii_alphanumeric() || c == d);
                            Kind::Date
                        } else {
                            n += digits;
                            if rest.get(n) == Some(&d) {
                                n += run(&rest[n..], |c| c.is_ascii_digit() || c == d);
                                Kind::Date
                            } else if d == b'.' {
                                Kind::Num
                            } else {
                                Kind::Date
                            }
                        }
                    }
                    _ => Kind::Num,
                };
                (kind, n, low(&rest[..n]))
            }
            b'.' => {
                let n = 1 + run(&rest[1..], |c| c.is_ascii_digit());
                (Kind::Num, n, low(&rest[..n]))
            }
            b'a'..=b'z' | b'A'..=b'Z' => {
                let mut n = run(rest, |c| c.is_ascii_alphabetic());
                let more = match rest.get(n) {
                    Some(b'-' | b'/' | b'.') => true,
                    Some(b'+' | b'0'..=b'9') => !known_word(&low(&rest[..n])),
                    _ => false,
                };
                if more {
                    n += run(&rest[n..], |c| c.is_ascii_alphanumeric() || b"+-/_.:".contains(&c));
                }
                (if more { Kind::Date } else { Kind::Word }, n, low(&rest[..n]))
            }
            b'+' | b'-' => {
                let blank = 1 + run(&rest[1..], |c| c.is_ascii_whitespace());
                let tail = &rest[blank..];
                let (kind, n) = match tail.first() {
                    Some(b'0'..=b'9') => (Kind::Signed, run(tail, |c| c.is_ascii_digit() || b":.-".contains(&c))),
                    Some(c) if c.is_ascii_alphabetic() => (Kind::SignedWord, run(tail, |c| c.is_ascii_alphabetic())),
                    _ => return None,
                };
                (kind, blank + n, format!("{}{}", c as char, low(&tail[..n])))
            }
            c if c.is_ascii_punctuation() => {
                i += 1;
                continue;
            }
            _ => return None,
        };
        out.push(Tok { kind, text });
        i += len;
    }
    Some(out)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    Year,
    Month,
    Day,
    Hour,
    Minute,
    Second,
    Julian,
    /// the T before a time
    Iso,
    /// dow, doy, isodow: known, but no part of a date
    Other,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Month(i64),
    Weekday,
    Pm(bool),
    Bc(bool),
    Unit(U),
    Filler,
    Late,
    Early,
    /// epoch and invalid: read, but no date
    NoValue,
    Midnight,
    /// now, today and so on
    Relative,
}

fn word(w: &str) -> Option<W> {
    const MONTHS: [&str; 12] =
        ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"];
    const DAYS: [&str; 7] = ["sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"];
    if let Some(i) = MONTHS.iter().position(|m| *m == w || m[..3] == *w) {
        return Some(W::Month(i as i64 + 1));
    }
    if DAYS.iter().any(|d| *d == w || d[..3] == *w) {
        return Some(W::Weekday);
    }
    Some(match w {
        "sept" => W::Month(9),
        "tues" | "weds" | "thur" | "thurs" => W::Weekday,
        "am" => W::Pm(false),
        "pm" => W::Pm(true),
        "ad" => W::Bc(false),
        "bc" => W::Bc(true),
        "y" => W::Unit(U::Year),
        "m" => W::Unit(U::Month),
        "d" => W::Unit(U::Day),
        "h" => W::Unit(U::Hour),
        "mm" => W::Unit(U::Minute),
        "s" => W::Unit(U::Second),
        "j" | "jd" | "julian" => W::Unit(U::Julian),
        "t" => W::Unit(U::Iso),
        "dow" | "doy" | "isodow" => W::Unit(U::Other),
        "at" | "on" => W::Filler,
        "infinity" => W::Late,
        "-infinity" => W::Early,
        "epoch" | "invalid" | "undefined" => W::NoValue,
        "allballs" => W::Midnight,
        "now" | "current" | "today" | "tomorrow" | "yesterday" => W::Relative,
        _ => return None,
    })
}

/// Words after which a digit starts a new field. (Time zone words are known as well, but no text with one is read.)
fn known_word(w: &str) -> bool {
    word(w).is_some()
}

type R<T> = Option<T>;

/// A leading whole number of up to ten digits that fits 32 bits (nothing counts as zero), and what follows.
fn int(s: &str) -> R<(i64, &str)> {
    let neg = s.starts_with('-');
    let b = if neg { &s[1..] } else { s };
    let n = run(b.as_bytes(), |c| c.is_ascii_digit());
    if n > 10 {
        return None;
    }
    if n == 0 {
        return Some((0, s));
    }
    let v: i64 = b[..n].parse().unwrap();
    let v = if neg { -v } else { v };
    fit(v)?;
    Some((v, &b[n..]))
}

/// ".ddd" up to the end, in units of 1e-7.
fn fraction(s: &str) -> R<i64> {
    let d = s.strip_prefix('.')?;
    if d.len() > 7 || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some(format!("{d:0<7}").parse().unwrap())
}

/// 1e-7 units to microseconds, halves up.
fn us_of(f: i64) -> i64 {
    (f + 5) / 10
}

/// h:m, h:m:s, h:m:s.f or m:s.f
fn clock(s: &str) -> R<(i64, i64, i64, i64)> {
    clock_as(s, false)
}

/// The same; with `ms`, two fields are m:s.
fn clock_as(s: &str, ms: bool) -> R<(i64, i64, i64, i64)> {
    let (a, r) = int(s)?;
    let (b, r) = int(r.strip_prefix(':')?)?;
    let v = if r.is_empty() {
        if ms { (0, a, b, 0) } else { (a, b, 0, 0) }
    } else if r.starts_with('.') {
        (0, a, b, us_of(fraction(r)?))
    } else {
        let (c, r) = int(r.strip_prefix(':')?)?;
        (a, b, c, if r.is_empty() { 0 } else { us_of(fraction(r)?) })
    };
    if v.0 < 0 || !(0..=59).contains(&v.1) || !(0..=60).contains(&v.2) {
        return None;
    }
    Some(v)
}

// fields seen
const Y: u32 = 1;
const MO: u32 = 2;
const D: u32 = 4;
const H: u32 = 8;
const MI: u32 = 16;
const S: u32 = 32;
const FS: u32 = 64;
const DOY: u32 = 128;
const WD: u32 = 256;
const AP: u32 = 512;
const ERA: u32 = 1024;
const ZONE: u32 = 2048;
const SPECIAL: u32 = 4096;
const YMD: u32 = Y | MO | D;
const HMS: u32 = H | MI | S | FS;

#[derive(Clone, Copy, PartialEq)]
enum Val {
    Finite,
    Late,
    Early,
    None,
}

struct M {
    order: DateOrder,
    /// reading a time of day rather than a date
    tod: bool,
    seen: u32,
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
    doy: i64,
    two: bool,
    bc: bool,
    pm: Option<bool>,
    named_month: bool,
    julian: bool,
    prefix: Option<U>,
    val: Val,
}

impl M {
    fn new(order: DateOrder, tod: bool) -> M {
        M { order, tod, seen: 0, y: 0, mo: 0, d: 0, h: 0, mi: 0, s: 0, us: 0, doy: 0, two: false, bc: false, pm: None,
            named_month: false, julian: false, prefix: None, val: Val::Finite }
    }

    /// A run of digits: yyyymmdd, yymmdd, hhmmss or hhmm, the times perhaps with a fraction.
    fn compact(&mut self, t: &str, seen: u32) -> R<u32> {
        let (whole, frac) = match t.find('.') {
            Some(i) => (&t[..i], Some(&t[i..])),
            None => (t, None),
        };
        let n = whole.len();
        if let Some(f) = frac {
            self.us = us_of(fraction(f)?);
        } else if seen & YMD != YMD && n >= 6 {
            self.y = int(&t[..n - 4])?.0;
            self.mo = int(&t[n - 4..n - 2])?.0;
            self.d = int(&t[n - 2..])?.0;
            self.two |= n == 6;
            return Some(YMD);
        }
        if seen & HMS == HMS || !(n == 4 || n == 6) {
            return None;
        }
        self.h = int(&t[..2])?.0;
        self.mi = int(&t[2..4])?.0;
        self.s = int(&t[4..n])?.0;
        Some(HMS)
    }

    /// One number of a date, by what has been seen and the field order.
    fn number(&mut self, t: &str, seen: u32, named: bool) -> R<u32> {
        let n = run(t.as_bytes(), |c| c.is_ascii_digit());
        if n == 0 {
            return None;
        }
        let v = int(t)?.0;
        if t.len() > n {
            if !t[n..].starts_with('.') {
                return None;
            }
            if n > 2 {
                return self.compact(t, seen | YMD);
            }
            self.us = us_of(fraction(&t[n..])?);
        }
        let wide = t.len() >= 3;
        let part = match seen & YMD {
            Y if t.len() == 3 && (1..=366).contains(&v) => {
                self.doy = v;
                return Some(DOY | MO | D);
            }
            0 if wide || self.order == DateOrder::YMD => Y,
            0 if self.order == DateOrder::DMY => D,
            0 => MO,
            Y | D => MO,
            MO if !named => D,
            MO if wide || self.order == DateOrder::YMD => Y,
            MO => D,
            x if x == Y | MO => {
                if named && wide && self.two {
                    // what looked like a two-digit year was the day
                    self.d = self.y;
                    self.y = v;
                    self.two = false;
                    return Some(D);
                }
                D
            }
            x if x == MO | D => Y,
            YMD => return self.compact(t, seen),
            _ => return None,
        };
        match part {
            Y => {
                self.y = v;
                self.two = t.len() <= 2;
            }
            MO => self.mo = v,
            _ => self.d = v,
        }
        Some(part)
    }

    /// A date with delimiters: its month name first, then its numbers.
    fn delimited(&mut self, t: &str) -> R<u32> {
        let b = t.as_bytes();
        let mut parts: Vec<&str> = Vec::new();
        let mut i = 0;
        while i < b.len() {
            i += run(&b[i..], |c| !c.is_ascii_alphanumeric());
            if i == b.len() {
                return None;
            }
            let n = if b[i].is_ascii_digit() { run(&b[i..], |c| c.is_ascii_digit()) } else { run(&b[i..], |c| c.is_ascii_alphabetic()) };
            parts.push(&t[i..i + n]);
            i += n;
            if parts.len() == 25 {
                break;
            }
        }
        let mut seen = self.seen;
        let mut new = 0;
        let mut named = false;
        for p in parts.iter().filter(|p| p.as_bytes()[0].is_ascii_alphabetic()) {
            match word(p) {
                Some(W::Month(m)) if seen & MO == 0 => {
                    self.mo = m;
                    named = true;
                    seen |= MO;
                    new |= MO;
                }
                _ => return None,
            }
        }
        // a fraction in here would be lost, but there is no decimal point inside a part
        for p in parts.iter().filter(|p| p.as_bytes()[0].is_ascii_digit()) {
            let b = self.number(p, seen, named)?;
            if seen & b != 0 {
                return None;
            }
            seen |= b;
            new |= b;
        }
        if seen & !(DOY | ZONE) != YMD {
            return None;
        }
        Some(new)
    }

    fn labelled(&mut self, u: U, t: &str) -> R<u32> {
        let (v, r) = int(t)?;
        if !r.is_empty() && !(r.starts_with('.') && matches!(u, U::Julian | U::Second | U::Iso)) {
            return None;
        }
        self.val = Val::Finite;
        Some(match u {
            U::Year => {
                self.y = v;
                Y
            }
            U::Month if self.seen & H != 0 && (self.tod || self.seen & MO != 0) => {
                self.mi = v;
                MI
            }
            U::Month => {
                self.mo = v;
                MO
            }
            U::Day => {
                self.d = v;
                D
            }
            U::Hour => {
                self.h = v;
                H
            }
            U::Minute => {
                self.mi = v;
                MI
            }
            U::Second => {
                self.s = v;
                if r.is_empty() {
                    S
                } else {
                    self.us = us_of(fraction(r)?);
                    S | FS
                }
            }
            U::Julian => {
                let (y, m, d) = civil(v - 2_451_545);
                (self.y, self.mo, self.d) = (y, m, d);
                self.julian = true;
                if r.is_empty() {
                    YMD
                } else {
                    // the fraction of a day, as a binary number and cut to the microsecond
                    let t = (fraction(r)? as f64 / 1e7 * DAY_US as f64) as i64;
                    (self.h, self.mi, self.s, self.us) = (t / 3_600_000_000, t / 60_000_000 % 60, t / 1_000_000 % 60, t % 1_000_000);
                    YMD | HMS
                }
            }
            U::Iso => self.compact(t, self.seen | YMD)?,
            U::Other => return None,
        })
    }

    /// Takes one field; None rejects the text, Some(None) is filler.
    fn step(&mut self, toks: &[Tok], i: usize) -> R<Option<u32>> {
        let t = toks[i].text.as_str();
        Some(Some(match toks[i].kind {
            Kind::Signed => return None,
            Kind::Date if self.tod => {
                if i != 0 || toks.len() < 2 || toks[1].kind != Kind::Time {
                    return None;
                }
                self.delimited(t)?
            }
            Kind::Date => {
                if self.prefix.is_some() || self.seen & (MO | D) == MO | D {
                    return None;
                }
                self.delimited(t)?
            }
            Kind::Time => {
                if !self.tod {
                    if !matches!(self.prefix, None | Some(U::Iso)) {
                        return None;
                    }
                    self.prefix = None;
                }
                let (h, mi, s, us) = clock(t)?;
                if !self.tod && (h > 24 || h == 24 && mi + s + us > 0) {
                    return None;
                }
                (self.h, self.mi, self.s, self.us) = (h, mi, s, us);
                HMS
            }
            Kind::Num => {
                if let Some(u) = self.prefix.take() {
                    self.labelled(u, t)?
                } else if self.tod {
                    let whole = t.find('.').unwrap_or(t.len());
                    if whole != t.len() && whole <= 2 {
                        return None;
                    }
                    if int(t).is_none() && t.len() <= 4 {
                        return None;
                    }
                    self.compact(t, self.seen | YMD)?
                } else {
                    match t.find('.') {
                        Some(_) if self.seen & YMD == 0 && t.len() <= 14 => self.delimited(t)?,
                        Some(n) if n > 2 => self.compact(t, self.seen)?,
                        _ if t.len() >= 6 && (self.seen & YMD == 0 || self.seen & HMS == 0) => self.compact(t, self.seen)?,
                        _ => self.number(t, self.seen, self.named_month)?,
                    }
                }
            }
            Kind::Word | Kind::SignedWord => match word(t)? {
                W::Filler => return Some(None),
                W::Pm(p) => {
                    self.pm = Some(p);
                    AP
                }
                W::Bc(b) => {
                    self.bc = b;
                    ERA
                }
                W::Unit(U::Iso) => {
                    if !self.tod && self.seen & YMD != YMD {
                        return None;
                    }
                    if !matches!(toks.get(i + 1)?.kind, Kind::Num | Kind::Time | Kind::Date) {
                        return None;
                    }
                    self.prefix = Some(U::Iso);
                    0
                }
                W::Unit(u) => {
                    self.prefix = Some(u);
                    0
                }
                W::Midnight => {
                    (self.h, self.mi, self.s) = (0, 0, 0);
                    self.val = Val::Finite;
                    HMS | ZONE
                }
                W::Relative => return None,
                _ if self.tod => return None,
                W::Late => {
                    self.val = Val::Late;
                    SPECIAL
                }
                W::Early => {
                    self.val = Val::Early;
                    SPECIAL
                }
                W::NoValue => {
                    self.val = Val::None;
                    SPECIAL
                }
                W::Weekday => WD,
                W::Month(m) => {
                    let mut b = MO;
                    if self.seen & MO != 0 && !self.named_month && self.seen & D == 0 && (1..=31).contains(&self.mo) {
                        // the number before was the day
                        self.d = self.mo;
                        b = D;
                    }
                    self.named_month = true;
                    self.mo = m;
                    b
                }
            },
        }))
    }

    /// Reads all fields and settles year, era, meridian; the time of day in microseconds.
    fn run(&mut self, toks: &[Tok]) -> R<i64> {
        for i in 0..toks.len() {
            if let Some(b) = self.step(toks, i)? {
                if self.seen & b != 0 {
                    return None;
                }
                self.seen |= b;
            }
        }
        if self.seen & Y != 0 && !self.julian {
            if self.two && !self.bc {
                self.y += match self.y {
                    0..=69 => 2000,
                    70..=99 => 1900,
                    _ => 0,
                };
            } else if self.y <= 0 {
                return None;
            }
            if self.bc {
                self.y = 1 - self.y;
            }
        }
        if self.seen & DOY != 0 {
            let n = days(self.y, 1, 1) + self.doy - 1;
            if !(-4713..=5_874_897).contains(&self.y) || n + 2_451_545 < 0 {
                return None;
            }
            (self.y, self.mo, self.d) = civil(n);
        }
        if self.seen & MO != 0 && !(1..=12).contains(&self.mo) || self.seen & D != 0 && !(1..=31).contains(&self.d) {
            return None;
        }
        if self.seen & YMD == YMD && self.d > dim(self.y, self.mo) {
            return None;
        }
        if let Some(pm) = self.pm {
            if self.h > 12 {
                return None;
            }
            self.h = self.h % 12 + if pm { 12 } else { 0 };
        }
        if self.h > 24 || self.mi > 59 || self.s > 60 {
            return None;
        }
        let t = ((self.h * 60 + self.mi) * 60 + self.s) * 1_000_000 + self.us;
        if t > DAY_US {
            return None;
        }
        Some(t)
    }
}

/// What the date and the timestamp reader should give. None: "allballs" without a date, a known finding.
pub fn date_time(toks: &[Tok], order: DateOrder) -> Option<(Out<i32>, Out<i64>)> {
    let mut m = M::new(order, false);
    let t = match m.run(toks) {
        Some(t) => t,
        None => return Some((Out::Err, Out::Err)),
    };
    Some(match m.val {
        Val::Late => (Out::Ok(i32::MAX), Out::Ok(i64::MAX)),
        Val::Early => (Out::Ok(i32::MIN), Out::Ok(i64::MIN)),
        Val::None => (Out::Err, Out::Err),
        Val::Finite => {
            if m.seen & YMD != YMD {
                if m.seen & HMS == HMS && m.seen & ZONE != 0 {
                    return None;
                }
                return Some((Out::Err, Out::Err));
            }
            let n = days(m.y, m.mo, m.d);
            let ts = n as i128 * DAY_US as i128 + t as i128;
            (if date_ok(n) { Out::Ok(n as i32) } else { Out::Err }, if date_ok(n) && ts_ok(ts) { Out::Ok(ts as i64) } else { Out::Err })
        }
    })
}

pub fn time(toks: &[Tok], order: DateOrder) -> Out<i64> {
    let mut m = M::new(order, true);
    match m.run(toks) {
        Some(t) if m.seen & H != 0 => Out::Ok(t),
        _ => Out::Err,
    }
}

// ------------------------------------------------------------------ intervals

/// A fraction of a unit in 1e-7, and how it is computed with: exactly, or as binary floating point
/// (fractions of years and longer, and half microseconds, may come out one off).
#[derive(Clone, Copy)]
struct Fr {
    n: i64,
    f: f64,
    exact: bool,
}

#[derive(Default)]
struct I {
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
}

fn fit(x: i64) -> R<()> {
    i32::try_from(x).ok().map(|_| ())
}
fn add(f: &mut i64, v: i64) -> R<()> {
    fit(v)?;
    *f += v;
    fit(*f)
}

impl I {
    /// A fraction of something of `scale` seconds.
    fn frac_secs(&mut self, f: Fr, scale: i64) -> R<()> {
        if f.n == 0 {
            return Some(());
        }
        if f.exact {
            let p = f.n * scale;
            add(&mut self.s, p / 10_000_000)?;
            let r = p % 10_000_000;
            self.us += (r.abs() + 5) / 10 * r.signum();
        } else {
            let p = f.f * scale as f64;
            add(&mut self.s, p.trunc() as i64)?;
            self.us += ((p - p.trunc()) * 1e6).round() as i64;
        }
        Some(())
    }
    /// A fraction of something of `scale` days.
    fn frac_days(&mut self, f: Fr, scale: i64) -> R<()> {
        if f.exact {
            let p = f.n * scale;
            add(&mut self.d, p / 10_000_000)?;
            self.frac_secs(Fr { n: p % 10_000_000, ..f }, 86400)
        } else {
            let p = f.f * scale as f64;
            add(&mut self.d, p.trunc() as i64)?;
            let q = (p - p.trunc()) * 86400.0;
            add(&mut self.s, q.trunc() as i64)?;
            self.us += ((q - q.trunc()) * 1e6).round() as i64;
            Some(())
        }
    }
    /// A fraction of something of `years` years, in whole months.
    fn frac_years(&mut self, f: Fr, years: i64) -> R<()> {
        let m = if f.exact { f.n * 12 * years / 10_000_000 } else { (f.f * 12.0 * years as f64) as i64 };
        add(&mut self.mo, m)
    }
    fn settle(mut self, ago: bool) -> R<crate::refm::Iv> {
        let c = self.us / 1_000_000;
        self.us -= c * 1_000_000;
        add(&mut self.s, c)?;
        if ago {
            for f in [&mut self.y, &mut self.mo, &mut self.d, &mut self.h, &mut self.mi, &mut self.s] {
                *f = -*f;
                fit(*f)?;
            }
            self.us = -self.us;
        }
        self.value()
    }
    fn value(self) -> R<crate::refm::Iv> {
        let t = ((self.h as i128 * 60 + self.mi as i128) * 60 + self.s as i128) * 1_000_000 + self.us as i128;
        iv_mk((self.y * 12 + self.mo) as i128, self.d as i128, t)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Q {
    Us,
    Ms,
    Sec,
    Min,
    Hour,
    Day,
    Week,
    Month,
    Year,
    Decade,
    Century,
    Mil,
    /// known words that are no length of time
    No,
}

enum V {
    Unit(Q),
    Ago,
    Invalid,
}

fn unit(w: &str) -> Option<V> {
    let w = if w.len() > 10 { &w[..10] } else { w };
    Some(V::Unit(match w {
        "us" | "usec" | "usecs" | "usecond" | "useconds" | "microsecon" => Q::Us,
        "ms" | "msec" | "msecs" | "msecond" | "mseconds" | "millisecon" => Q::Ms,
        "s" | "sec" | "secs" | "second" | "seconds" => Q::Sec,
        "m" | "min" | "mins" | "minute" | "minutes" => Q::Min,
        "h" | "hr" | "hrs" | "hour" | "hours" => Q::Hour,
        "d" | "day" | "days" => Q::Day,
        "w" | "week" | "weeks" => Q::Week,
        "mon" | "mons" | "month" | "months" => Q::Month,
        "y" | "yr" | "yrs" | "year" | "years" => Q::Year,
        "dec" | "decs" | "decade" | "decades" => Q::Decade,
        "c" | "cent" | "century" | "centuries" => Q::Century,
        "mil" | "mils" | "millennium" | "millennia" => Q::Mil,
        "qtr" | "quarter" | "timezone" => Q::No,
        "ago" => return Some(V::Ago),
        "invalid" | "undefined" => return Some(V::Invalid),
        _ => return None,
    }))
}

/// What a field restriction changes about reading: the unit of numbers without one, and h:m for m:s.
#[derive(Clone, Copy)]
struct Keep {
    last: Q,
    ms: bool,
}

fn keep(mask: i32) -> Keep {
    // month 1, year 2, day 3, hour 10, minute 11, second 12
    let last = match mask {
        4 => Q::Year,
        2 | 6 => Q::Month,
        8 => Q::Day,
        0x400 | 0x408 => Q::Hour,
        0x800 | 0xC00 | 0xC08 => Q::Min,
        _ => Q::Sec,
    };
    Keep { last, ms: mask == 0x1800 }
}

fn sql_sign(toks: &[Tok], style: IntervalStyle) -> bool {
    style == IntervalStyle::SQLStandard
        && toks[0].text.starts_with('-')
        && !toks[1..].iter().any(|t| t.text.starts_with(['-', '+']))
}

fn list(toks: &[Tok], style: IntervalStyle, exact: bool, keep: Keep) -> R<crate::refm::Iv> {
    let mut v = I::default();
    let mut seen = 0u32;
    // None: a number without a unit has the last unit kept. Some(Q::No) rejects numbers.
    let mut next = None;
    let mut ago = false;
    for t in toks.iter().rev() {
        let text = t.text.as_str();
        // each kind of unit may come once: one bit for each, a clock time takes those of its units
        let bit = |q: Q| 1u32 << q as u32;
        let clock_bits = bit(Q::Us) | bit(Q::Ms) | bit(Q::Sec) | bit(Q::Min) | bit(Q::Hour);
        let sub = bit(Q::Us) | bit(Q::Ms);
        let new = match t.kind {
            Kind::Word | Kind::SignedWord => {
                match unit(text)? {
                    V::Unit(q) => next = Some(q),
                    V::Ago => {
                        ago = true;
                        next = Some(Q::No);
                    }
                    V::Invalid => return None,
                }
                0
            }
            Kind::Time | Kind::Signed if text.contains(':') => {
                let neg = text.starts_with('-');
                let (h, mi, s, us) = clock_as(text.trim_start_matches(['-', '+']), keep.ms)?;
                let k = if neg { -1 } else { 1 };
                if seen & clock_bits != 0 {
                    return None;
                }
                (v.h, v.mi) = (k * h, k * mi);
                add(&mut v.s, k * s)?;
                v.us += k * us;
                next = Some(Q::Day);
                clock_bits
            }
            _ => {
                let neg = text.starts_with('-');
                let body = text.trim_start_matches(['-', '+']);
                let k = if neg { -1 } else { 1 };
                let n = run(body.as_bytes(), |c| c.is_ascii_digit());
                if n > 10 {
                    return None;
                }
                let mut whole = k * if n == 0 { 0 } else { body[..n].parse::<i64>().unwrap() };
                fit(whole)?;
                let rest = &body[n..];
                let mut frac = 0;
                let mut q = next.unwrap_or(keep.last);
                if rest.starts_with('.') {
                    frac = k * fraction(rest)?;
                } else if let Some(m) = rest.strip_prefix('-') {
                    // years-months
                    let (m, end) = int(m)?;
                    if !(0..=11).contains(&m) || !end.is_empty() {
                        return None;
                    }
                    whole = whole * 12 + k * m;
                    fit(whole)?;
                    q = Q::Month;
                } else if !rest.is_empty() {
                    return None;
                }
                next = Some(q);
                let f = Fr { n: frac, f: frac as f64 / 1e7, exact };
                match q {
                    Q::Us => {
                        v.us += whole + if exact { (frac.abs() + 5_000_000) / 10_000_000 * k } else { f.f.round() as i64 };
                        bit(q)
                    }
                    Q::Ms => {
                        add(&mut v.s, whole / 1000)?;
                        let r = whole % 1000;
                        v.us += r * 1000
                            + if exact { (frac.abs() + 5_000) / 10_000 * k } else { ((r as f64 + f.f) * 1000.0).round() as i64 - r * 1000 };
                        bit(q)
                    }
                    Q::Sec => {
                        add(&mut v.s, whole)?;
                        v.frac_secs(f, 1)?;
                        if frac == 0 { bit(q) } else { bit(q) | sub }
                    }
                    Q::Min => {
                        add(&mut v.mi, whole)?;
                        v.frac_secs(f, 60)?;
                        bit(q)
                    }
                    Q::Hour => {
                        add(&mut v.h, whole)?;
                        v.frac_secs(f, 3600)?;
                        next = Some(Q::Day);
                        bit(q)
                    }
                    Q::Day => {
                        add(&mut v.d, whole)?;
                        v.frac_secs(f, 86400)?;
                        bit(q)
                    }
                    Q::Week => {
                        add(&mut v.d, whole * 7)?;
                        v.frac_days(f, 7)?;
                        bit(q)
                    }
                    Q::Month => {
                        add(&mut v.mo, whole)?;
                        v.frac_days(f, 30)?;
                        bit(q)
                    }
                    Q::Year | Q::Decade | Q::Century | Q::Mil => {
                        let years = match q {
                            Q::Year => 1,
                            Q::Decade => 10,
                            Q::Century => 100,
                            _ => 1000,
                        };
                        add(&mut v.y, whole * years)?;
                        v.frac_years(f, years)?;
                        bit(q)
                    }
                    Q::No => return None,
                }
            }
        };
        if seen & new != 0 {
            return None;
        }
        seen |= new;
    }
    if seen == 0 {
        return None;
    }
    // carry whole seconds before the signs are settled
    let c = v.us / 1_000_000;
    v.us -= c * 1_000_000;
    add(&mut v.s, c)?;
    if sql_sign(toks, style) {
        for f in [&mut v.y, &mut v.mo, &mut v.d, &mut v.h, &mut v.mi, &mut v.s, &mut v.us] {
            *f = -f.abs();
        }
    }
    v.settle(ago)
}

/// A number of an ISO duration: sign, whole part and fraction, and what follows.
fn iso_num(s: &str, exact: bool) -> R<(bool, i64, Fr, usize, &str)> {
    let neg = s.starts_with('-');
    let b = if neg { &s[1..] } else { s };
    let n = run(b.as_bytes(), |c| c.is_ascii_digit());
    let m = match b.as_bytes().get(n) {
        Some(b'.') => 1 + run(&b.as_bytes()[n + 1..], |c| c.is_ascii_digit()),
        _ => 0,
    };
    // a sign or a decimal point alone is no number
    if n + m.max(1) - 1 == 0 || n > 10 || m > 8 {
        return None;
    }
    let k = if neg { -1 } else { 1 };
    let w = k * if n == 0 { 0 } else { b[..n].parse::<i64>().unwrap() };
    let f = k * if m == 0 { 0 } else { fraction(&b[n..n + m])? };
    fit(w)?;
    if f > 0 && w == i32::MAX as i64 || f < 0 && w == i32::MIN as i64 {
        return None;
    }
    // in binary, the fraction is what the whole number leaves
    let p = 10i64.pow(m.max(1) as u32 - 1);
    let b2 = (w * p + f / (10_000_000 / p)) as f64 / p as f64 - w as f64;
    Some((neg, w, Fr { n: f, f: b2, exact }, n, &b[n + m..]))
}

fn iso(s: &str, exact: bool) -> R<crate::refm::Iv> {
    if s.len() < 2 {
        return None;
    }
    let mut s = s.strip_prefix('P')?;
    let mut v = I::default();
    let mut date = true;
    // a unit has been read in this part
    let mut some = false;
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix('T') {
            (date, some, s) = (false, false, r);
            continue;
        }
        let (neg, w, f, width, r) = iso_num(s, exact)?;
        let u = r.chars().next();
        let after = if let Some(c) = u { &r[c.len_utf8()..] } else { r };
        // unsigned y-m-d, h:m:s or compact forms
        if neg && matches!(u, None | Some('T' | '-' | ':')) {
            return None;
        }
        s = after;
        match (date, u) {
            (true, Some('Y')) => {
                add(&mut v.y, w)?;
                v.frac_years(f, 1)?;
            }
            (true, Some('M')) => {
                add(&mut v.mo, w)?;
                v.frac_days(f, 30)?;
            }
            (true, Some('W')) => {
                add(&mut v.d, w * 7)?;
                v.frac_days(f, 7)?;
            }
            (true, Some('D')) => {
                add(&mut v.d, w)?;
                v.frac_secs(f, 86400)?;
            }
            (true, None | Some('T')) if width == 8 && !some => {
                add(&mut v.y, w / 10000)?;
                add(&mut v.mo, w / 100 % 100)?;
                add(&mut v.d, w % 100)?;
                v.frac_secs(f, 86400)?;
                if u.is_none() {
                    return v.value();
                }
                (date, some) = (false, false);
                continue;
            }
            (true, None | Some('T' | '-')) => {
                if some {
                    return None;
                }
                add(&mut v.y, w)?;
                v.frac_years(f, 1)?;
                let mut end = u;
                if u == Some('-') {
                    let (neg, w, f, _, r) = iso_num(s, exact)?;
                    if neg {
                        return None;
                    }
                    add(&mut v.mo, w)?;
                    v.frac_days(f, 30)?;
                    (end, s) = (r.chars().next(), r);
                    if let Some(r) = r.strip_prefix('-') {
                        let (neg, w, f, _, r) = iso_num(r, exact)?;
                        if neg {
                            return None;
                        }
                        add(&mut v.d, w)?;
                        v.frac_secs(f, 86400)?;
                        (end, s) = (r.chars().next(), r);
                    }
                    // the T is read again in the loop
                    if end.is_some() && end != Some('T') {
                        return None;
                    }
                }
                if end.is_none() {
                    return v.value();
                }
                (date, some) = (false, false);
                continue;
            }
            (false, Some('H')) => {
                add(&mut v.h, w)?;
                v.frac_secs(f, 3600)?;
            }
            (false, Some('M')) => {
                add(&mut v.mi, w)?;
                v.frac_secs(f, 60)?;
            }
            (false, Some('S')) => {
                add(&mut v.s, w)?;
                v.frac_secs(f, 1)?;
            }
            (false, None) if width == 6 && !some => {
                add(&mut v.h, w / 10000)?;
                add(&mut v.mi, w / 100 % 100)?;
                add(&mut v.s, w % 100)?;
                v.frac_secs(f, 1)?;
                return v.value();
            }
            (false, None | Some(':')) => {
                if some {
                    return None;
                }
                add(&mut v.h, w)?;
                v.frac_secs(f, 3600)?;
                if u.is_some() {
                    let (neg, w, f, _, r) = iso_num(s, exact)?;
                    if neg {
                        return None;
                    }
                    add(&mut v.mi, w)?;
                    v.frac_secs(f, 60)?;
                    if !r.is_empty() {
                        let (neg, w, f, _, r) = iso_num(r.strip_prefix(':')?, exact)?;
                        if neg || !r.is_empty() {
                            return None;
                        }
                        add(&mut v.s, w)?;
                        v.frac_secs(f, 1)?;
                    }
                }
                return v.value();
            }
            _ => return None,
        }
        some = true;
    }
    v.value()
}

/// What the interval reader should give, computing fractions exactly, and in binary.
/// `mask` is the field restriction (0x7FFF for none); what it drops is not dropped here.
pub fn interval(text: &str, toks: Option<&[Tok]>, style: IntervalStyle, exact: bool, mask: i32) -> Out<crate::refm::Iv> {
    let r = match toks {
        None => None,
        Some(_) if text.starts_with('P') => iso(text, exact),
        Some([]) => None,
        Some(t) => list(t, style, exact, keep(mask)),
    };
    match r {
        Some(v) => Out::Ok(v),
        None => Out::Err,
    }
}
