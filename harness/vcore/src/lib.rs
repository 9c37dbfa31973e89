#![feature(formatting_options)]
#[macro_use]
pub mod tables;
pub mod fmtspec;
#[cfg(feature = "guided")]
pub mod guided;
pub mod model;
pub mod near;
pub mod run;
pub mod term;
pub mod val;

include!(concat!(env!("OUT_DIR"), "/rgb_pool.rs"));
