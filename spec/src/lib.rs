#![feature(try_trait_v2)]
pub mod idioms;
pub mod models;
pub mod refs;
pub mod entry;
pub mod witness;
