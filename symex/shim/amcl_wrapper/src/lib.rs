#![allow(non_snake_case, non_upper_case_globals, unused)]
//! Symbolic stand-in for amcl_wrapper 0.1.7: the crate's own source with BIG and ECP replaced by
//! types that carry terms. Concrete values run the original code on amcl's own BIG.

pub extern crate amcl;

#[macro_use]
extern crate lazy_static;


pub use amcl::bls381 as ECCurve;



pub mod constants;
pub mod types;

#[macro_use]
pub mod errors;

#[macro_use]
pub mod macros;

pub mod utils;

#[macro_use]
pub mod field_elem;
#[macro_use]
pub mod group_elem;
#[macro_use]
pub mod group_elem_g1;
pub mod commitment;




extern crate serde;

#[macro_use]
extern crate serde_derive;

#[macro_use]
extern crate serde_json;

// TODO: Move the timing tests to benchmark
