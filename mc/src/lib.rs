#![allow(dropping_references)]
#![recursion_limit = "2048"]
pub mod ctx;
pub mod doc;
pub mod dom;
pub mod gen;
pub mod kinds;
pub mod model;
pub mod ops;
pub mod pdf;
pub mod streams;
pub mod tab;
pub mod tables;

pub use ctx::*;
pub use model::*;
