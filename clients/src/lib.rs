//! Client functions: usages of the public API of osmpbf. They are analysed, never run.
#![allow(dead_code)]

/// Marks an observation point. The analysis treats a call as an event.
pub fn obs<T>(_what: &'static str, _value: T) {}

#[cfg(feature = "walk")]
pub mod walk;

#[cfg(feature = "io")]
pub mod io;

#[cfg(feature = "err")]
pub mod err;

#[cfg(feature = "read")]
pub mod read;

#[cfg(feature = "par")]
pub mod par;

#[cfg(feature = "len")]
pub mod len;

#[cfg(feature = "idx")]
pub mod idx;
