#![allow(dead_code, clippy::all)]
pub mod engine;
pub mod hb;
pub mod imp;
pub mod json;
pub mod keys;
pub mod rng;
pub mod worker;
