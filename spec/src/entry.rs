//! The public API of the crate, reached as a user reaches it (this also fixes its types at compile time).
#![allow(dead_code)]
pub fn re(x: Vec<u8>) -> Vec<u8> { lyra2::lyra2re::sum(x) }
pub fn rev2(x: Vec<u8>) -> Vec<u8> { lyra2::lyra2rev2::sum(x) }
pub fn rev3(x: Vec<u8>) -> Vec<u8> { lyra2::lyra2rev3::sum(x) }
pub fn z(x: Vec<u8>) -> Vec<u8> { lyra2::lyra2z::sum(x) }
pub fn core(k: u64, pwd: Vec<u8>, salt: Vec<u8>, t: u64, r: u64, c: u64) -> Vec<u8> { lyra2::lyra2::lyra2(k, pwd, salt, t, r, c) }
pub fn sum(x: Vec<u8>) -> Vec<u8> { lyra2::lyra2::sum(x) }
