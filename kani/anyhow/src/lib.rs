//! A stand-in for `anyhow` under Kani: errors carry no text and no backtrace (the real
//! one's are far beyond what the model checker unrolls). Used by /verif/kani only.
use std::fmt;
pub struct Error(u8);
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl fmt::Debug for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Result::Ok(())
    }
}
impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Result::Ok(())
    }
}
impl Error {
    pub fn msg<M>(_: M) -> Error {
        Error(self::KIND)
    }
    pub fn new<M>(_: M) -> Error {
        Error(self::KIND)
    }
    pub fn context<M>(self, _: M) -> Error {
        Error(self.0)
    }
}
const KIND: u8 = 1;
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error {
    fn from(_: E) -> Error {
        Error(KIND)
    }
}
pub trait Context<T> {
    fn context<C>(self, _: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> {
        self.map_err(|_| Error(KIND))
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.map_err(|_| Error(KIND))
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _: C) -> Result<T> {
        self.ok_or(Error(KIND))
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.ok_or(Error(KIND))
    }
}
#[doc(hidden)]
pub fn __make() -> Error {
    Error(KIND)
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> {
    Result::Ok(t)
}
#[macro_export]
macro_rules! format_err { ($($t:tt)*) => { $crate::__make() } }
#[macro_export]
macro_rules! anyhow { ($($t:tt)*) => { $crate::__make() } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::__make()) } }
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::__make()); } };
    ($c:expr, $($t:tt)*) => { if !$c { return ::core::result::Result::Err($crate::__make()); } };
}
