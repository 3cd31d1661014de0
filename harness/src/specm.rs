//! The specialized maps.
#![allow(dead_code, clippy::all)]
mod common;
use common::engine::{run_job, Val, BuildSpec, Builder, MapObj, SetObj};
use common::hb::HB;
use common::keys::*;
use frozen_collections_core::specialized_maps::*;
use std::hash::RandomState;

struct B;
trait Maps: Sized {
    fn build(s: &BuildSpec, p: Vec<(Self, Val)>) -> Box<dyn MapObj<Self>>;
}
impl<K: Maps> Builder<K> for B {
    fn map(s: &BuildSpec, p: Vec<(K, Val)>) -> Box<dyn MapObj<K>> {
        K::build(s, p)
    }
    fn set(_: &BuildSpec, _: Vec<K>) -> Box<dyn SetObj<K>> {
        panic!("HARNESS: no sets here")
    }
}

maps!(u32, u32, |k: &u32| *k;
    "cm8" hb CommonMap<u32, Val, u8, HB>,
    "cm16" hb CommonMap<u32, Val, u16, HB>,
    "cm32" hb CommonMap<u32, Val, u32, HB>,
    "cm64" hb CommonMap<u32, Val, u64, HB>,
    "cmz" hb CommonMap<u32, Val, usize, HB>,
    "cr8" plain CommonMap<u32, Val, u8, RandomState>,
    "cr16" plain CommonMap<u32, Val, u16, RandomState>,
    "im8" plain IntegerMap<u32, Val, u8>,
    "im16" plain IntegerMap<u32, Val, u16>,
    "im32" plain IntegerMap<u32, Val, u32>,
    "im64" plain IntegerMap<u32, Val, u64>,
    "imz" plain IntegerMap<u32, Val, usize>,
    "sm" plain ScanningMap<u32, Val>,
);
maps!(String, String, |k: &String| k.clone();
    "cm8" hb CommonMap<String, Val, u8, HB>,
    "cm16" hb CommonMap<String, Val, u16, HB>,
    "cmz" hb CommonMap<String, Val, usize, HB>,
    "cr8" plain CommonMap<String, Val, u8, RandomState>,
    "lm8" plain LengthMap<String, Val, u8>,
    "lm16" vec LengthMap<String, Val, u16>,
    "lm32" vec LengthMap<String, Val, u32>,
    "lmz" vec LengthMap<String, Val, usize>,
    "ll8" slice LeftSliceMap<String, Val, u8, HB>,
    "ll16" slice LeftSliceMap<String, Val, u16, HB>,
    "ll32" slice LeftSliceMap<String, Val, u32, HB>,
    "llz" slice LeftSliceMap<String, Val, usize, HB>,
    "lr8" rslice LeftSliceMap<String, Val, u8, RandomState>,
    "rl8" slice RightSliceMap<String, Val, u8, HB>,
    "rl16" slice RightSliceMap<String, Val, u16, HB>,
    "rl32" slice RightSliceMap<String, Val, u32, HB>,
    "rlz" slice RightSliceMap<String, Val, usize, HB>,
    "rr8" rslice RightSliceMap<String, Val, u8, RandomState>,
    "sm" plain ScanningMap<String, Val>,
);
// looked up through the borrowed form
maps!(Name, String, |k: &Name| k.0.clone();
    "cm8" hb CommonMap<Name, Val, u8, HB>,
    "cmz" hb CommonMap<Name, Val, usize, HB>,
    "lm8" plain LengthMap<Name, Val, u8>,
    "lm16" vec LengthMap<Name, Val, u16>,
    "ll8" slice LeftSliceMap<Name, Val, u8, HB>,
    "ll16" slice LeftSliceMap<Name, Val, u16, HB>,
    "rl8" slice RightSliceMap<Name, Val, u8, HB>,
    "rl16" slice RightSliceMap<Name, Val, u16, HB>,
    "sm" plain ScanningMap<Name, Val>,
);
maps!(Tag, Tag, |k: &Tag| k.clone();
    "cm8" hb CommonMap<Tag, Val, u8, HB>,
    "cmz" hb CommonMap<Tag, Val, usize, HB>,
    "sm" plain ScanningMap<Tag, Val>,
);
maps!(Vec<u8>, Vec<u8>, |k: &Vec<u8>| k.clone();
    "lm8" plain LengthMap<Vec<u8>, Val, u8>,
    "cm8" hb CommonMap<Vec<u8>, Val, u8, HB>,
);
maps!(char, char, |k: &char| *k;
    "cm8" hb CommonMap<char, Val, u8, HB>,
    "cm16" hb CommonMap<char, Val, u16, HB>,
    "sm" plain ScanningMap<char, Val>,
);
macro_rules! int_maps { ($($k:ty),*) => { $(
    maps!($k, $k, |k: &$k| *k;
        "im8" plain IntegerMap<$k, Val, u8>,
        "im16" plain IntegerMap<$k, Val, u16>,
        "imz" plain IntegerMap<$k, Val, usize>,
    );
)* } }
int_maps!(u8, i8, u16, i16, i32, u64, i64, u128, i128, usize, isize);

fn main() {
    common::worker::main_loop(|job| {
        let (k, rest) = job.split_once(' ').expect("HARNESS: job");
        match k {
            "u32" => run_job::<B, u32>(rest),
            "string" => run_job::<B, String>(rest),
            "name" => run_job::<B, Name>(rest),
            "tag" => run_job::<B, Tag>(rest),
            "bytes" => run_job::<B, Vec<u8>>(rest),
            "char" => run_job::<B, char>(rest),
            "u8" => run_job::<B, u8>(rest),
            "i8" => run_job::<B, i8>(rest),
            "u16" => run_job::<B, u16>(rest),
            "i16" => run_job::<B, i16>(rest),
            "i32" => run_job::<B, i32>(rest),
            "u64" => run_job::<B, u64>(rest),
            "i64" => run_job::<B, i64>(rest),
            "u128" => run_job::<B, u128>(rest),
            "i128" => run_job::<B, i128>(rest),
            "usize" => run_job::<B, usize>(rest),
            "isize" => run_job::<B, isize>(rest),
            _ => panic!("HARNESS: key type {k}"),
        }
    });
}
