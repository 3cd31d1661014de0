//! The range-based integer maps and sets, over every integer type.
#![allow(dead_code, clippy::all)]
mod common;
use common::engine::{run_job, Val, BuildSpec, Builder, MapObj, SetObj};
use common::hb::HB;
use common::keys::*;
use frozen_collections_core::specialized_maps::*;
use frozen_collections_core::specialized_sets::*;
use std::collections::{BTreeSet, HashSet};

struct B;
trait Maps: Sized {
    fn build(s: &BuildSpec, p: Vec<(Self, Val)>) -> Box<dyn MapObj<Self>>;
}
trait Sets: Sized {
    fn build(s: &BuildSpec, p: Vec<Self>) -> Box<dyn SetObj<Self>>;
}
impl<K: Maps + Sets> Builder<K> for B {
    fn map(s: &BuildSpec, p: Vec<(K, Val)>) -> Box<dyn MapObj<K>> {
        <K as Maps>::build(s, p)
    }
    fn set(s: &BuildSpec, p: Vec<K>) -> Box<dyn SetObj<K>> {
        <K as Sets>::build(s, p)
    }
}

macro_rules! ints { ($($name:literal $k:ty),*) => {
    $(
        maps!($k, $k, |k: &$k| *k; "rm" plain IntegerRangeMap<$k, Val>);
        sets!($k, $k, |k: &$k| *k; "rs" plain IntegerRangeSet<$k>,; "hs" hs std HashSet<$k, HB>, "bt" bt std BTreeSet<$k>,);
    )*
    fn main() {
        common::worker::main_loop(|job| {
            let (k, rest) = job.split_once(' ').expect("HARNESS: job");
            match k {
                $( $name => run_job::<B, $k>(rest), )*
                _ => panic!("HARNESS: key type {k}"),
            }
        });
    }
} }
ints!("u8" u8, "i8" i8, "u16" u16, "i16" i16, "u32" u32, "i32" i32, "u64" u64, "i64" i64, "u128" u128, "i128" i128,
    "usize" usize, "isize" isize);
