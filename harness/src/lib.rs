#![allow(clippy::type_complexity)]
#[macro_use]
pub mod core;
pub mod dict;
pub mod meddle;
pub mod model;
pub mod props;
pub mod types;
