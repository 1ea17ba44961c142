//! The part of mc's framework which api.rs needs.
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum Out<T> {
    Ok(T),
    Err,
    Panic(String),
}

impl<T: std::fmt::Debug> Out<T> {
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}

pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        rt::active(true);
        let r = f();
        rt::active(false);
        r
    }));
    rt::active(false);
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(_)) => Out::Err,
        Err(_) => Out::Panic("panic".to_string()),
    }
}

pub fn call1<T>(f: impl FnOnce() -> T) -> Out<T> {
    call(|| Ok::<T, ()>(f()))
}
