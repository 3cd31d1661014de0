//! The specialized sets.
#![allow(dead_code, clippy::all)]
mod common;
use common::engine::{run_job, Val, BuildSpec, Builder, MapObj, SetObj};
use common::hb::HB;
use common::keys::*;
use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::*;
use std::collections::{BTreeSet, HashSet};
use std::hash::RandomState;

struct B;
trait Sets: Sized {
    fn build(s: &BuildSpec, p: Vec<Self>) -> Box<dyn SetObj<Self>>;
}
impl<K: Sets> Builder<K> for B {
    fn map(_: &BuildSpec, _: Vec<(K, Val)>) -> Box<dyn MapObj<K>> {
        panic!("HARNESS: no maps here")
    }
    fn set(s: &BuildSpec, p: Vec<K>) -> Box<dyn SetObj<K>> {
        K::build(s, p)
    }
}

sets!(u32, u32, |k: &u32| *k;
    "cs8" hb CommonSet<u32, u8, HB>,
    "cs16" hb CommonSet<u32, u16, HB>,
    "cs32" hb CommonSet<u32, u32, HB>,
    "cs64" hb CommonSet<u32, u64, HB>,
    "csz" hb CommonSet<u32, usize, HB>,
    "cr8" plain CommonSet<u32, u8, RandomState>,
    "cr16" plain CommonSet<u32, u16, RandomState>,
    "is8" plain IntegerSet<u32, u8>,
    "is16" plain IntegerSet<u32, u16>,
    "is32" plain IntegerSet<u32, u32>,
    "is64" plain IntegerSet<u32, u64>,
    "isz" plain IntegerSet<u32, usize>,
    "ss" plain ScanningSet<u32>,
    ; "hs" hs std HashSet<u32, HB>,
    "bt" bt std BTreeSet<u32>,
    "fs" fs facade FrozenSet<u32, HB>,
);
sets!(String, String, |k: &String| k.clone();
    "cs8" hb CommonSet<String, u8, HB>,
    "cs16" hb CommonSet<String, u16, HB>,
    "csz" hb CommonSet<String, usize, HB>,
    "cr8" plain CommonSet<String, u8, RandomState>,
    "ls8" plain LengthSet<String, u8>,
    "ls16" plain LengthSet<String, u16>,
    "ls32" plain LengthSet<String, u32>,
    "lsz" plain LengthSet<String, usize>,
    "ll8" slice LeftSliceSet<String, u8, HB>,
    "ll16" slice LeftSliceSet<String, u16, HB>,
    "ll32" slice LeftSliceSet<String, u32, HB>,
    "llz" slice LeftSliceSet<String, usize, HB>,
    "lr8" rslice LeftSliceSet<String, u8, RandomState>,
    "rl8" slice RightSliceSet<String, u8, HB>,
    "rl16" slice RightSliceSet<String, u16, HB>,
    "rl32" slice RightSliceSet<String, u32, HB>,
    "rlz" slice RightSliceSet<String, usize, HB>,
    "rr8" rslice RightSliceSet<String, u8, RandomState>,
    "ss" plain ScanningSet<String>,
    ; "hs" hs std HashSet<String, HB>,
    "bt" bt std BTreeSet<String>,
    "fs" fs facade FrozenSet<String, HB>,
);
// looked up through the borrowed form
sets!(Name, String, |k: &Name| k.0.clone();
    "cs8" hb CommonSet<Name, u8, HB>,
    "csz" hb CommonSet<Name, usize, HB>,
    "ls8" plain LengthSet<Name, u8>,
    "ls16" plain LengthSet<Name, u16>,
    "ll8" slice LeftSliceSet<Name, u8, HB>,
    "ll16" slice LeftSliceSet<Name, u16, HB>,
    "rl8" slice RightSliceSet<Name, u8, HB>,
    "rl16" slice RightSliceSet<Name, u16, HB>,
    "ss" plain ScanningSet<Name>,
    ; "hs" hs std HashSet<Name, HB>,
    "bt" bt std BTreeSet<Name>,
);
sets!(Tag, Tag, |k: &Tag| k.clone();
    "cs8" hb CommonSet<Tag, u8, HB>,
    "csz" hb CommonSet<Tag, usize, HB>,
    "ss" plain ScanningSet<Tag>,
    ; "hs" hs std HashSet<Tag, HB>,
    "bt" bt std BTreeSet<Tag>,
    "fs" fs facade FrozenSet<Tag, HB>,
);
sets!(Vec<u8>, Vec<u8>, |k: &Vec<u8>| k.clone();
    "ls8" plain LengthSet<Vec<u8>, u8>,
    "cs8" hb CommonSet<Vec<u8>, u8, HB>,
    ; "hs" hs std HashSet<Vec<u8>, HB>,
    "bt" bt std BTreeSet<Vec<u8>>,
);
sets!(char, char, |k: &char| *k;
    "cs8" hb CommonSet<char, u8, HB>,
    "cs16" hb CommonSet<char, u16, HB>,
    "ss" plain ScanningSet<char>,
    ; "hs" hs std HashSet<char, HB>,
    "bt" bt std BTreeSet<char>,
);
macro_rules! int_sets { ($($k:ty),*) => { $(
    sets!($k, $k, |k: &$k| *k;
        "is8" plain IntegerSet<$k, u8>,
        "is16" plain IntegerSet<$k, u16>,
        "isz" plain IntegerSet<$k, usize>,
        ; "hs" hs std HashSet<$k, HB>,
        "bt" bt std BTreeSet<$k>,
    );
)* } }
int_sets!(u8, i8, u16, i16, i32, u64, i64, u128, i128, usize, isize);

fn main() {
    common::worker::main_loop(|job| {
        let (k, rest) = job.split_once(' ').expect("HARNESS: job");
        match k {
            "u32" => run_job::<B, u32>(rest),
            "string" => run_job::<B, String>(rest),
            "name" => run_job::<B, Name>(rest),
            "tag" => run_job::<B, Tag>(rest),
            "bytes" => run_job::<B, Vec<u8>>(rest),
            "char" => run_job::<B, char>(rest),
            "u8" => run_job::<B, u8>(rest),
            "i8" => run_job::<B, i8>(rest),
            "u16" => run_job::<B, u16>(rest),
            "i16" => run_job::<B, i16>(rest),
            "i32" => run_job::<B, i32>(rest),
            "u64" => run_job::<B, u64>(rest),
            "i64" => run_job::<B, i64>(rest),
            "u128" => run_job::<B, u128>(rest),
            "i128" => run_job::<B, i128>(rest),
            "usize" => run_job::<B, usize>(rest),
            "isize" => run_job::<B, isize>(rest),
            _ => panic!("HARNESS: key type {k}"),
        }
    });
}
